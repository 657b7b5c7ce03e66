// Enumerates every ordering of the API calls of a few transactions (and epoch / background rounds)
// against the real engine and decides each outcome with the serial reference model.
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

#include "lib/h.h"
#include "lib/par.h"

using namespace h;
using namespace shirakami;

struct Item {
    Prog p;
    std::string head;
    int nE{0}, nG{0};
    bool lazy{false};
    History pre;                   // fixed first steps (P...)
    std::vector<int> counts;       // per letter: tx..., E, G
    std::vector<std::uint8_t> letters;
    std::uint64_t total{0};
    std::vector<int> same_prev;    // index of an identical earlier transaction or -1
};

static std::uint64_t multinomial(const std::vector<int>& c) {
    long double r = 1;
    int n = 0;
    for (int x : c)
        for (int i = 1; i <= x; ++i) { ++n; r = r * n / i; }
    return static_cast<std::uint64_t>(r + 0.5L);
}
static History unrank(const Item& it, std::uint64_t k) {
    History hs;
    auto c = it.counts;
    int n = 0;
    for (int x : c) n += x;
    for (int i = 0; i < n; ++i)
        for (std::size_t l = 0; l < c.size(); ++l) {
            if (!c[l]) continue;
            --c[l];
            auto m = multinomial(c);
            if (k < m) { hs.act.push_back(it.letters[l]); break; }
            k -= m;
            ++c[l];
        }
    return hs;
}
static bool next_perm(const Item& it, History& hs) {
    // letters are ordered by their index in it.letters
    auto rank = [&](std::uint8_t a) { return std::find(it.letters.begin(), it.letters.end(), a) - it.letters.begin(); };
    std::vector<int> v;
    for (auto a : hs.act) v.push_back(static_cast<int>(rank(a)));
    if (!std::next_permutation(v.begin(), v.end())) return false;
    for (std::size_t i = 0; i < v.size(); ++i) hs.act[i] = it.letters[static_cast<std::size_t>(v[i])];
    return true;
}
static bool same(const TxP& a, const TxP& b) {
    if (a.type != b.type || a.wp != b.wp || a.ra_pos != b.ra_pos || a.ra_neg != b.ra_neg || a.user_abort != b.user_abort || a.whole != b.whole || a.ops.size() != b.ops.size()) return false;
    for (std::size_t i = 0; i < a.ops.size(); ++i) if (a.ops[i].text != b.ops[i].text) return false;
    return true;
}

static std::vector<Item> load(const std::string& path) {
    std::vector<Item> v;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        if (l.empty() || l[0] == '#') continue;
        auto c = l.find("::");
        std::istringstream is(l.substr(0, c));
        Item it;
        std::string w;
        while (is >> w) {
            if (w[0] == 'E') it.nE = std::stoi(w.substr(1));
            if (w[0] == 'J') it.lazy = true;
            if (w[0] == 'G') it.nG = std::stoi(w.substr(1));
            if (w[0] == 'P') it.pre = parse_history(w.substr(1));
        }
        it.head = l.substr(0, c);
        it.p = parse(l.substr(c + 2));
        for (std::size_t i = 0; i < it.p.txs.size(); ++i) {
            it.letters.push_back(static_cast<std::uint8_t>(i));
            it.counts.push_back(steps_of(it.p.txs[i]) - static_cast<int>(std::count(it.pre.act.begin(), it.pre.act.end(), static_cast<std::uint8_t>(i))));
            int sp = -1;
            for (std::size_t j = 0; j < i && it.pre.act.empty(); ++j) if (same(it.p.txs[j], it.p.txs[i])) sp = static_cast<int>(j);
            it.same_prev.push_back(sp);
        }
        if (it.nE) { it.letters.push_back(ACT_E); it.counts.push_back(it.nE); }
        if (it.nG) { it.letters.push_back(ACT_G); it.counts.push_back(it.nG); }
        it.total = multinomial(it.counts);
        v.push_back(std::move(it));
    }
    return v;
}

static bool STRICT = true;
static Crash CR;

// fresh tables; with crash points, their contents are durable when the history starts
static void fresh(Env& e, const Prog& p, const std::string& tag, const std::string& mode) {
    if (mode.find("crash") == std::string::npos) { prepare(e, p, tag); return; }
    e.crash = &CR;
    e.watch = mode.find("state") != std::string::npos;
    CR.before();
    prepare(e, p, tag);
    vt::tick_epoch();
    vt::tick_bg();
    for (int k = 0; k < 2; ++k) vt::tick_epoch();
}

// what the transactions left behind is reclaimed once nobody can need it
static std::size_t in_use() {
    auto* m = limestone::api::datastore::current();
    std::vector<limestone::api::medium::entry>().swap(m->log);
    return vt::live_blocks();
}
static void settle(int n) {
    for (int i = 0; i < n; ++i) { vt::tick_epoch(); vt::tick_bg(); }
}
static bool reclaimed(Env& e, const Prog& p, const Tables& fin, std::string* why) {
    settle(6);
    for (std::size_t i = 0; i < e.st.size(); ++i) {
        std::vector<std::tuple<std::string, void*, std::size_t>> res;
        yakushima::impl::scan({reinterpret_cast<const char*>(&e.st[i]), sizeof(Storage)}, "", yakushima::scan_endpoint::INF, "", yakushima::scan_endpoint::INF, res, nullptr, 0, false);
        for (auto& x : res)
            if (!fin[i].count(std::get<0>(x))) { *why = "deleted key " + std::get<0>(x) + " of table " + static_cast<char>('A' + i) + " is still in the index"; return false; }
    }
    // the same writes again and again do not use more and more memory
    Token t = e.tok.back();
    auto round = [&] {
        for (int k = 0; k < 2; ++k) {
            bool ok = tx_begin({t}) == Status::OK;
            for (auto st : e.st) ok = ok && upsert(t, st, "a", "again") == Status::OK && (k ? delete_record(t, st, "zz") : insert(t, st, "zz", "again")) == Status::OK;
            if (!ok || commit(t) != Status::OK) { *why = "writes are refused afterwards"; return false; }
        }
        settle(4);
        return true;
    };
    constexpr std::size_t n = 6;
    for (std::size_t i = 0; i < 2; ++i) if (!round()) return false;
    std::size_t m1 = in_use();
    for (std::size_t i = 0; i < n; ++i) if (!round()) return false;
    std::size_t m2 = in_use();
    if (m2 >= m1 + n) { *why = std::to_string(n) + " more rounds of the same writes use " + std::to_string(m2 - m1) + " more blocks of memory"; return false; }
    for (auto st : e.st) if (delete_storage(st) != Status::OK) { *why = "a table cannot be deleted"; return false; }
    settle(4);
    return true;
}

// reports through par::violation; returns false on violation
static bool judge(const Prog& p, const ExecOut& x, const std::string& mode, std::uint64_t progh, bool bg) {
    if (x.stuck) {
        par::violation("undecided", "a commit is never decided:\n" + describe(p, x.r, nullptr));
        return false;
    }
    int nc = 0;
    for (auto& t : x.r) {
        if (!t.bad.empty()) { par::violation("report", t.bad + "\n" + describe(p, x.r, &x.fin)); return false; }
        if (t.commit_called && t.callbacks != 1) {
            par::violation("callback", std::to_string(t.callbacks) + " callbacks\n" + describe(p, x.r, &x.fin));
            return false;
        }
        if (t.out == COMMITTED) { ++nc; par::S->committed.fetch_add(1, std::memory_order_relaxed); }
        else par::S->aborted.fetch_add(1, std::memory_order_relaxed);
    }
    std::string why;
    auto on = [&](const char* m) { return mode.find(m) != std::string::npos; };
    if (on("dirty") && !clean_reads(p, x.r, &why)) { par::violation("uncommitted-value", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("lone") && !bg && !undisturbed(p, x.r, &why)) { par::violation("disturbed", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("prio") && !ltx_priority(p, x.r, &why)) { par::violation("priority", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("area") && !ltx_areas(p, x.r, &why)) { par::violation("area", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("rtx") && !rtx_unfailing(p, x.r, &why)) { par::violation("read-only-failed", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("lobs")) {
        std::uint64_t n = 0;
        bool good = lobs_good(x.fin, &why, &n);
        par::S->refs += n;
        if (!good) { par::violation("large-objects", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    }
    if (!x.crash.empty()) { par::violation("crash", x.crash + "\n" + describe(p, x.r, &x.fin)); return false; }
    for (auto& t : x.r) if (t.waited) par::S->waited.fetch_add(1, std::memory_order_relaxed);
    std::uint64_t sg = par::hash(signature(p, x.r, &x.fin, STRICT), progh);
    if (par::sig_known(sg)) return true;
    auto o = serializable(p, x.r, &x.fin, STRICT);
    if (!o.ok) {
        par::violation("not-serializable", o.why + "\n" + describe(p, x.r, &x.fin));
        return false;
    }
    if (par::sig_add(sg)) {
        par::S->distinct.fetch_add(1, std::memory_order_relaxed);
        if (nc >= 2) {
            par::S->nontrivial.fetch_add(1, std::memory_order_relaxed);
        }
    }
    return true;
}

int main(int argc, char** argv) {
    auto a = par::parse_args(argc, argv);
    quiet_logging();
    par::setup();
    if (a.mode.find("lobs") != std::string::npos) lobs_on();
    yakushima::impl::set_capacity(static_cast<std::size_t>(a.cap));
    EngineCfg cfg;
    cfg.iscan = a.iscan;
    cfg.workers = a.bgworkers;
    if (start(cfg) != Status::OK) { std::fprintf(stderr, "engine does not start\n"); return 3; }
    for (int i = 0; i < 3; ++i) { vt::tick_epoch(); vt::tick_bg(); }

    if (!a.replay.empty()) {
        // --replay "head :: program" history
        std::string l = a.replay;
        auto c = l.find("::");
        bool lazy = c != std::string::npos && l.substr(0, c).find('J') != std::string::npos;
        Prog p = parse(c == std::string::npos ? l : l.substr(c + 2));
        auto hs = parse_history(a.rest.at(0));
        bool bg = a.rest.at(0).find('G') != std::string::npos;
        std::string first;
        Env e;
        for (int k = 0; k < 2; ++k) {
            fresh(e, p, "r" + std::to_string(k), a.mode);
            par::current(l, a.rest.at(0));
            auto x = run_history(e, p, hs, lazy);
            auto d = describe(p, x.r, x.stuck ? nullptr : &x.fin);
            if (k == 0) std::cout << d;
            judge(p, x, a.mode, 0, bg);
            if (par::S->nviol) break;
        }
        if (par::S->nviol) { std::cout << par::S->viol[0] << "\n"; par::leave(1); }
        std::cout << "holds\n";
        par::leave(0);
    }
    auto items = load(a.suite);
    constexpr std::uint64_t B = 200;
    std::vector<std::pair<std::uint32_t, std::uint64_t>> jobs;
    std::uint64_t expect = 0;
    for (std::size_t i = 0; i < items.size(); ++i) {
        expect += items[i].total;
        for (std::uint64_t k = 0; k < items[i].total; k += B) jobs.emplace_back(static_cast<std::uint32_t>(i), k);
    }
    std::fprintf(stderr, "%zu programs, %lu histories, %zu jobs\n", items.size(), expect, jobs.size());
    bool done = par::run(jobs.size(), a.workers, a.deadline, [&](std::uint64_t j) {
        auto& it = items[jobs[j].first];
        auto progh = par::hash(it.p.text);
        History hs = unrank(it, jobs[j].second), prev;
        Env e;
        std::uint64_t ex = 0, tr = 0, stt = 0;
        bool rec = a.mode.find("reclaim") != std::string::npos;
        // memory kept for tables that come and go, without any of the transactions
        std::size_t used = 0, table = 0;
        for (int i = 0; rec && i < 3; ++i) {
            par::current(it.head + "::" + it.p.text, "nothing");
            fresh(e, it.p, "z" + std::to_string(i), a.mode);
            std::string why;
            if (!reclaimed(e, it.p, it.p.init, &why)) { par::violation("not-reclaimed", why); return; }
            std::size_t now = in_use();
            table = now - std::min(used, now);
            used = now;
        }
        for (std::uint64_t k = 0; k < B; ++k) {
            bool sym = true;
            for (std::size_t i = 0; i < it.same_prev.size() && sym; ++i)
                if (it.same_prev[i] >= 0) {
                    auto f1 = std::find(hs.act.begin(), hs.act.end(), static_cast<std::uint8_t>(it.same_prev[i]));
                    auto f2 = std::find(hs.act.begin(), hs.act.end(), static_cast<std::uint8_t>(i));
                    sym = f1 < f2;
                }
            if (sym) {
                par::current(it.head + "::" + it.p.text, text(it.pre) + text(hs));
                std::size_t cp = 0;
                while (cp < prev.act.size() && cp < hs.act.size() && prev.act[cp] == hs.act[cp]) ++cp;
                stt += hs.act.size() - cp;
                tr += it.pre.act.size() + hs.act.size();
                ++ex;
                bool ok = true;
                for (int rep = 0; ok; ++rep) {
                    {
                        fresh(e, it.p, "s" + std::to_string(k), a.mode);
                        History full = it.pre;
                        full.act.insert(full.act.end(), hs.act.begin(), hs.act.end());
                        auto x = run_history(e, it.p, full, it.lazy);
                        par::S->durable_pts.fetch_add(CR.seen, std::memory_order_relaxed);
                        ok = judge(it.p, x, a.mode, progh, it.nG > 0);
                        if (ok && k == 0 && rep == 0 && (j % 97) == 0) par::sample(it.p.text + " @ " + text(full) + "\n" + describe(it.p, x.r, &x.fin));
                        if (!rec || !ok) break;
                        std::string why;
                        ok = reclaimed(e, it.p, x.fin, &why);
                        if (!ok) { par::violation("not-reclaimed", why + "\n" + describe(it.p, x.r, &x.fin)); break; }
                    }
                    // memory grows every time the same history is run
                    std::size_t now = in_use(), more = now - std::min(now, used + table);
                    used = now;
                    if (!more) break;
                    if (rep == 3) {
                        par::violation("memory", "every run of the history leaves " + std::to_string(more) + " more blocks of memory in use");
                        ok = false;
                    }
                }
                if (!ok) break;
                prev = hs;
            }
            if (!next_perm(it, hs)) break;
        }
        par::S->executions += ex;
        par::S->transitions += tr;
        par::S->states += stt;
    });
    par::leave(par::finish(a, done && par::S->stop == 0, "every ordering of the API calls of each transaction program; non-trivial: a distinct outcome (all answers, outcomes, final contents) with at least two commits", par::extra()));
}
