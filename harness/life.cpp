// Enumerates every sequence of table, sequence, data, restart and crash actions up to a length over an
// alphabet, on the real engine, against a reference model of the whole database. The tree of sequences
// is walked by forking the process at every node, so prefixes are executed once.
//   n4 [threads=2] [pre=tok;tok] [noprobe] :: <alphabet>
// tokens:  cX[.id][!]  create table X (explicit id, payload)     dX delete   oX set options
//          pX put  qX delete key  zX three overwrites of one key  wX put of three keys   lX put by a long transaction
//          n create sequence  m0 delete  s0 update  S0 update and put  t0 stale update  x0 aborted update  j0 far larger version, extreme value
//          b0 begin a long transaction that updates sequence 0   B0 its commit   A0 its abort
//          u open transaction left unfinished  E epoch  G background work
//          R restart  K crash  F forced stop and restore  N stop and create  I start again  Q stop twice
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

#include "lib/h.h"
#include "lib/par.h"

#include "shirakami/api_sequence.h"
#include "shirakami/api_storage.h"

using namespace h;
using namespace shirakami;
using limestone::api::datastore;
using limestone::api::medium;

struct Item {
    std::string line;
    int n{1}, threads{0};
    bool probe{true};
    std::vector<std::string> tok, pre;
};
static std::vector<std::string> words(const std::string& s, char sep) {
    std::vector<std::string> v;
    std::string w;
    std::istringstream is(s);
    while (std::getline(is, w, sep)) if (!w.empty()) v.push_back(w);
    return v;
}
static Item parse_item(const std::string& l) {
    Item it;
    it.line = l;
    auto c = l.find("::");
    for (auto& w : words(l.substr(0, c), ' ')) {
        if (w.rfind("pre=", 0) == 0) it.pre = words(w.substr(4), ';');
        else if (w.rfind("threads=", 0) == 0) it.threads = std::stoi(w.substr(8));
        else if (w == "noprobe") it.probe = false;
        else if (w[0] == 'n') it.n = std::stoi(w.substr(1));
    }
    it.tok = words(l.substr(c + 2), ' ');
    return it;
}

struct Tab {
    Storage h{};
    std::uint64_t id{storage_id_undefined};
    std::string payload;
    std::map<std::string, std::string> rows;
    bool operator==(const Tab& o) const { return h == o.h && id == o.id && payload == o.payload && rows == o.rows; }
};
struct Seq {
    SequenceId id{};
    bool live{true};
    std::size_t ver{0};
    std::int64_t val{0};
    bool operator==(const Seq& o) const { return id == o.id && live == o.live && (!live || (ver == o.ver && val == o.val)); }
};
struct State {
    std::map<std::string, Tab> tabs;
    std::vector<Seq> seqs;
    bool operator==(const State& o) const { return tabs == o.tabs && seqs == o.seqs; }
};
static std::string show(const State& s) {
    std::ostringstream os;
    for (auto& t : s.tabs) {
        os << t.first << "#" << std::hex << t.second.h << std::dec << (t.second.payload.empty() ? "" : "(" + t.second.payload + ")") << "{";
        for (auto& r : t.second.rows) os << r.first << "=" << r.second << " ";
        os << "} ";
    }
    for (auto& q : s.seqs) {
        os << "seq" << q.id << ":";
        if (q.live) os << q.ver << "/" << q.val << " ";
        else os << "gone ";
    }
    return os.str();
}
struct Bad { std::string why; };
static std::string stt(Status s) { std::ostringstream os; os << s; return os.str(); }

struct World {
    const Item& it;
    EngineCfg cfg;
    std::vector<State> hist{State{}};
    std::vector<std::pair<std::size_t, std::uint64_t>> marks;   // state index, durability marker
    std::uint64_t durable{0};
    std::vector<Storage> dead;
    std::vector<Token> tok;
    int fresh{0};
    bool unfinished{false};
    int ltx{-1};                    // sequence the open long transaction updates
    Seq pending;
    std::string log;

    State& now() { return hist.back(); }
    void note(const std::string& s) { log += s + "\n"; }
    void committed(State s, std::uint64_t marker = 0) {
        hist.push_back(std::move(s));
        if (marker) marks.emplace_back(hist.size() - 1, marker);
    }
    std::size_t durable_index() const {
        std::size_t k = 0;
        for (auto& m : marks) if (m.second <= durable) k = std::max(k, m.first);
        return k;
    }
    static inline World* W{};
    static inline int switches{0};
    // the first round of a started engine may only reach its first sleep
    void epoch() {
        int b = switches;
        for (int k = 0; k < 3 && switches == b; ++k) vt::tick_epoch();
    }
    void up(bool restore, medium m) {
        cfg.restore = restore;
        Status s = start(cfg, std::move(m));
        if (s != Status::OK) throw Bad{"start answers " + stt(s)};
        W = this;
        durable = 0;
        register_durability_callback([](durability_marker_type d) { W->durable = std::max<std::uint64_t>(W->durable, d); });
        tok.clear();
        for (int i = 0; i < 3; ++i) {
            Token t{};
            if (enter(t) != Status::OK) throw Bad{"enter refused after start"};
            tok.push_back(t);
        }
        ltx = -1;
        unfinished = false;
        marks.clear();
    }
    void must(Status got, Status want, const std::string& what) {
        if (got != want) throw Bad{what + " answers " + stt(got) + ", should be " + stt(want)};
    }
    std::uint64_t commit_tx(Token t, const std::string& what) {
        int n = 0;
        Status st{};
        std::uint64_t mk = 0;
        commit(t, [&](Status s, reason_code, durability_marker_type m) { ++n; st = s; mk = m; });
        for (int k = 0; n == 0 && k < 8; ++k) { epoch(); vt::tick_bg(); }
        if (n != 1 || st != Status::OK) throw Bad{what + ": commit answers " + stt(st) + " with " + std::to_string(n) + " callbacks"};
        return mk;
    }
    // false: the token has no meaning here
    bool step(const std::string& w) {
        char c = w[0];
        std::string x = w.size() > 1 ? w.substr(1, 1) : "";
        Token t = tok.empty() ? nullptr : tok[0];
        auto has = [&] { return now().tabs.count(x) > 0; };
        switch (c) {
            case 'E': epoch(); return true;
            case 'G': vt::tick_bg(); return true;
            case 'c': {
                storage_option o;
                if (w.size() > 3 && w[2] == '.') o.id(static_cast<std::uint64_t>(w[3] - '0'));
                if (w.back() == '!') o.payload("P" + std::to_string(++fresh) + std::string("\0z", 2));
                Storage s{};
                Status r = create_storage(x, s, o);
                bool taken = has();
                if (!taken && o.id() != storage_id_undefined) for (auto& q : now().tabs) taken |= q.second.h == o.id();
                if (taken) { must(r, Status::WARN_ALREADY_EXISTS, w); return true; }
                must(r, Status::OK, w);
                for (auto& q : now().tabs) if (q.second.h == s) throw Bad{w + " returns the handle of live table " + q.first};
                if (o.id() != storage_id_undefined && s != o.id()) throw Bad{w + " ignores the requested id"};
                State n = now();
                n.tabs[x] = Tab{s, o.id(), std::string(o.payload()), {}};
                dead.erase(std::remove(dead.begin(), dead.end(), s), dead.end());
                committed(n);
                return true;
            }
            case 'd': {
                if (!has()) {
                    if (dead.empty()) return false;
                    must(delete_storage(dead.back()), Status::WARN_INVALID_HANDLE, w + " of a deleted table");
                    return true;
                }
                if (ltx >= 0) return false;
                State n = now();
                must(delete_storage(n.tabs[x].h), Status::OK, w);
                dead.push_back(n.tabs[x].h);
                n.tabs.erase(x);
                committed(n);
                return true;
            }
            case 'o': {
                if (!has()) {
                    if (dead.empty()) return false;
                    must(storage_set_options(dead.back(), {}), Status::WARN_NOT_FOUND, w + " of a deleted table");
                    return true;
                }
                State n = now();
                auto& tb = n.tabs[x];
                tb.payload = "o" + std::to_string(++fresh);
                tb.id = 77;
                must(storage_set_options(tb.h, storage_option{tb.id, tb.payload}), Status::OK, w);
                committed(n);
                return true;
            }
            case 'p': case 'q': case 'z': case 'w': {
                if (!has()) {
                    if (dead.empty() || c != 'p') return false;
                    must(tx_begin({t}), Status::OK, "tx_begin");
                    must(upsert(t, dead.back(), "a", "x"), Status::WARN_STORAGE_NOT_FOUND, w + " into a deleted table");
                    must(abort(t), Status::OK, "abort");
                    return true;
                }
                State n = now();
                auto& tb = n.tabs[x];
                if (c == 'q' && !tb.rows.count("a")) return false;
                if (ltx >= 0 && c == 'q') return false;
                std::uint64_t mk = 0;
                for (int k = 0; k < (c == 'z' ? 3 : 1); ++k) {
                    must(tx_begin({t}), Status::OK, "tx_begin");
                    if (c == 'q') {
                        must(delete_record(t, tb.h, "a"), Status::OK, w);
                        tb.rows.erase("a");
                    } else {
                        for (auto& key : c == 'w' ? std::vector<std::string>{"a", "b", "c"} : std::vector<std::string>{"a"}) {
                            auto v = "v" + std::to_string(++fresh);
                            must(upsert(t, tb.h, key, v), Status::OK, w);
                            tb.rows[key] = v;
                        }
                    }
                    mk = commit_tx(t, w);
                    committed(n, mk);
                }
                return true;
            }
            case 'l': {
                if (!has() || ltx >= 0) return false;
                State n = now();
                auto& tb = n.tabs[x];
                transaction_options::write_preserve_type wp;
                wp.push_back(tb.h);
                must(tx_begin({tok[1], transaction_options::transaction_type::LONG, wp}), Status::OK, "tx_begin");
                epoch();
                for (std::string key : {"b", "c"}) {
                    auto v = "v" + std::to_string(++fresh);
                    must(upsert(tok[1], tb.h, key, v), Status::OK, w);
                    tb.rows[key] = v;
                }
                committed(n, commit_tx(tok[1], w));
                return true;
            }
            case 'n': {
                SequenceId id{};
                if (ltx >= 0) return false;
                must(create_sequence(&id), Status::OK, w);
                for (auto& q : now().seqs) if (q.live && q.id == id) throw Bad{"create_sequence returns the id of a live sequence"};
                State n = now();
                // an id that came back belongs to the new one
                n.seqs.erase(std::remove_if(n.seqs.begin(), n.seqs.end(), [&](const Seq& q) { return q.id == id; }), n.seqs.end());
                Seq q;
                q.id = id;
                n.seqs.push_back(q);
                committed(n);
                return true;
            }
            case 'm': {
                auto i = static_cast<std::size_t>(w[1] - '0');
                if (i >= now().seqs.size() || ltx >= 0) return false;
                State n = now();
                must(delete_sequence(n.seqs[i].id), n.seqs[i].live ? Status::OK : Status::WARN_NOT_FOUND, w);
                if (n.seqs[i].live) { n.seqs[i].live = false; committed(n); }
                return true;
            }
            case 's': case 'S': case 't': case 'x': case 'j': {
                auto i = static_cast<std::size_t>(w[1] - '0');
                if (i >= now().seqs.size()) return false;
                State n = now();
                Seq& q = n.seqs[i];
                auto v = q.ver + 1;
                if (c == 't') { if (q.ver < 2) return false; v = q.ver - 1; }
                std::int64_t val = -100 - ++fresh;
                if (c == 'j') { v = q.ver + 0x200000001ULL; val = fresh % 2 ? INT64_MIN + fresh : INT64_MAX - fresh; }
                must(tx_begin({t}), Status::OK, "tx_begin");
                if (c == 'S') {
                    if (n.tabs.empty()) { abort(t); return false; }
                    auto& tb = n.tabs.begin()->second;
                    auto dv = "v" + std::to_string(fresh);
                    must(upsert(t, tb.h, "a", dv), Status::OK, w);
                    tb.rows["a"] = dv;
                }
                must(update_sequence(t, q.id, v, val), Status::OK, w);
                if (c == 's') {
                    // the last one given counts, older ones are refused
                    must(update_sequence(t, q.id, v, val - 1), Status::WARN_ALREADY_EXISTS, w + " again");
                    ++v;
                    must(update_sequence(t, q.id, v, val), Status::OK, w + " again");
                }
                if (c == 'x') { must(abort(t), Status::OK, "abort"); return true; }
                auto mk = commit_tx(t, w);
                if (q.live && v > q.ver) { q.ver = v; q.val = val; }
                committed(n, mk);
                return true;
            }
            case 'b': {
                auto i = static_cast<std::size_t>(w[1] - '0');
                if (i >= now().seqs.size() || ltx >= 0) return false;
                transaction_options::write_preserve_type wp;
                if (!now().tabs.empty()) wp.push_back(now().tabs.begin()->second.h);
                must(tx_begin({tok[1], transaction_options::transaction_type::LONG, wp}), Status::OK, "tx_begin");
                epoch();
                ltx = static_cast<int>(i);
                pending.ver = now().seqs[i].ver + 10;
                pending.val = 1000 + ++fresh;
                must(update_sequence(tok[1], now().seqs[i].id, pending.ver, pending.val), Status::OK, w);
                return true;
            }
            case 'B': case 'A': {
                if (ltx < 0) return false;
                auto i = static_cast<std::size_t>(ltx);
                ltx = -1;
                if (c == 'A') { must(abort(tok[1]), Status::OK, "abort"); return true; }
                State n = now();
                auto mk = commit_tx(tok[1], w);
                Seq& q = n.seqs[i];
                if (q.live && pending.ver > q.ver) { q.ver = pending.ver; q.val = pending.val; }
                committed(n, mk);
                return true;
            }
            case 'u': {
                if (now().tabs.empty() || ltx >= 0) return false;
                if (unfinished) return false;
                must(tx_begin({tok[2]}), Status::OK, "tx_begin");
                unfinished = true;
                must(upsert(tok[2], now().tabs.begin()->second.h, "u", "unfinished"), Status::OK, w);
                return true;
            }
            case 'I': must(init({}, nullptr), Status::WARN_ALREADY_INIT, "init of a started engine"); return true;
            case 'R': case 'Q': case 'N': case 'F': case 'K': {
                medium m;
                auto di = durable_index();
                if (c == 'K') {
                    m = *datastore::current();
                    m.crash();
                    fin(true);
                } else {
                    // the log must outlive the engine object
                    KEEP = medium{};
                    fin(c == 'F');
                    m = KEEP;
                    m.crash();
                }
                if (c == 'Q') { fin(false); fin(true); }
                if (c == 'N') {
                    up(false, {});
                    hist = std::vector<State>{State{}};
                    dead.clear();
                    return true;
                }
                if (c == 'R' || c == 'Q') di = hist.size() - 1;
                up(true, std::move(m));
                std::string first;
                for (std::size_t k = hist.size(); k-- > di;) {
                    auto d = differs(hist[k]);
                    if (d.empty()) {
                        if (k + 1 < hist.size()) ++par::S->aux;
                        hist = std::vector<State>{hist[k]};
                        // a deletion that was lost gives its handle back
                        for (auto& t : now().tabs) dead.erase(std::remove(dead.begin(), dead.end(), t.second.h), dead.end());
                        return true;
                    }
                    if (first.empty()) first = d;
                }
                throw Bad{w + ": the recovered database is none of the " + std::to_string(hist.size() - di) + " admissible ones; compared with the latest: " + first + "\nlatest " + show(now()) + "\nearliest " + show(hist[di])};
            }
            default: throw Bad{"unknown token " + w};
        }
    }
    static inline medium KEEP;
    // compares the running engine with a state; empty when equal
    std::string differs(const State& s) {
        std::vector<std::string> names, want;
        Status r = list_storage(names);
        if (r != Status::OK) return "list_storage answers " + stt(r);
        std::sort(names.begin(), names.end());
        for (auto& t : s.tabs) want.push_back(t.first);
        if (names != want) {
            std::string o = "tables listed:";
            for (auto& n : names) o += " " + n;
            return o;
        }
        Token t{};
        if (enter(t) != Status::OK) return "enter refused";
        std::string out;
        for (std::string n : {"x", "y"}) {
            Storage hd{};
            r = get_storage(n, hd);
            auto i = s.tabs.find(n);
            if (i == s.tabs.end()) {
                if (r != Status::WARN_NOT_FOUND) out = "get_storage(" + n + ") answers " + stt(r) + " for a missing table";
                continue;
            }
            if (r != Status::OK || hd != i->second.h) out = "get_storage(" + n + ") answers " + stt(r) + " " + std::to_string(hd);
            if (!out.empty()) break;
            storage_option o;
            r = storage_get_options(hd, o);
            if (r != Status::OK || o.id() != i->second.id || o.payload() != i->second.payload)
                out = "options of " + n + ": " + stt(r) + " " + std::to_string(o.id()) + " " + std::string(o.payload());
            if (!out.empty()) break;
            if (ltx >= 0) continue;
            tx_begin({t});
            Op op;
            op.k = 's';
            OpRes res;
            do_op(t, hd, op, res);
            commit(t);
            std::map<std::string, std::string> rows(res.rows.begin(), res.rows.end());
            if (res.st != Status::OK || (res.partial && !unfinished) || rows.size() != res.rows.size() || rows != i->second.rows) {
                out = "contents of " + n + ": " + stt(res.st);
                for (auto& kv : res.rows) out += " " + kv.first + "=" + kv.second;
                break;
            }
        }
        if (out.empty())
            for (auto& q : s.seqs) {
                SequenceVersion v{};
                SequenceValue val{};
                r = read_sequence(q.id, &v, &val);
                if (q.live ? (r != Status::OK || v != q.ver || val != q.val) : r != Status::WARN_NOT_FOUND) {
                    out = "sequence " + std::to_string(q.id) + ": " + stt(r) + " " + std::to_string(v) + "/" + std::to_string(val);
                    break;
                }
            }
        // sequences created after this state are gone
        if (out.empty())
            for (auto& q : now().seqs) {
                bool known = false;
                for (auto& k : s.seqs) known |= k.id == q.id;
                SequenceVersion v{};
                SequenceValue val{};
                if (!known && read_sequence(q.id, &v, &val) != Status::WARN_NOT_FOUND) out = "sequence " + std::to_string(q.id) + " exists";
            }
        leave(t);
        if (!out.empty()) return out;
        for (auto d : dead) {
            bool live = false;
            for (auto& q : s.tabs) live |= q.second.h == d;
            if (live) continue;
            storage_option o;
            if (storage_get_options(d, o) != Status::WARN_NOT_FOUND) return "options of a deleted table are answered";
            if (enter(t) != Status::OK) return "enter refused";
            tx_begin({t});
            std::string v;
            r = search_key(t, d, "a", v);
            abort(t);
            leave(t);
            if (r != Status::WARN_STORAGE_NOT_FOUND) return "a read of a deleted table answers " + stt(r);
        }
        return "";
    }
    void check(const std::string& when) {
        auto d = differs(now());
        if (!d.empty()) throw Bad{when + ": " + d + "\nshould be " + show(now())};
    }
    void final_check() {
        check("contents");
        if (ltx >= 0) { step("B0"); check("after the long transaction committed"); }
        for (int i = 0; i < 2; ++i) { epoch(); vt::tick_bg(); }
        check("later");
        if (!it.probe) return;
        // everything keeps working
        State n = now();
        auto probe = [&](const std::string& nm) {
            Storage s{};
            must(create_storage(nm, s), Status::OK, "create_storage of a new name");
            for (auto& q : now().tabs) if (q.second.h == s) throw Bad{"a new table has the handle of live table " + q.first};
            State m = now();
            m.tabs[nm].h = s;
            Token t = tok[0];
            must(tx_begin({t}), Status::OK, "tx_begin");
            std::string v;
            must(search_key(t, s, "a", v), Status::WARN_NOT_FOUND, "a read in a new table");
            must(upsert(t, s, "a", nm), Status::OK, "upsert in a new table");
            commit_tx(t, "probe");
            m.tabs[nm].rows["a"] = nm;
            committed(m);
            step("n");
        };
        probe("prob1");
        for (auto& q : n.tabs) step("p" + q.first);
        for (std::size_t i = 0; i < n.seqs.size() && i < 10; ++i) step("s" + std::to_string(i));
        check("after further use");
        step("R");
        check("after a further restart");
        probe("prob2");
        for (auto& q : n.tabs) step("p" + q.first);
        check("after further use after a restart");
    }
};

static std::string join(const std::vector<std::string>& v) {
    std::string s;
    for (auto& w : v) s += w + " ";
    return s;
}

// true: no violation below
static bool node(World& w, std::vector<std::string>& seq, int depth) {
    bool ok = true;
    par::current(w.it.line, join(seq));
    auto nested = [&](const std::function<void()>& f) {
        int rc = par::in_child([&] {
            try { f(); } catch (Bad& b) {
                par::violation("database", b.why + "\n" + w.log);
                _exit(42);
            }
        }, 20);
        if (rc > 128) par::violation(rc == 128 + SIGPROF ? "hang" : "crash", "signal " + std::to_string(rc - 128));
        return rc;
    };
    int rc = nested([&] {
        ++par::S->executions;
        par::S->transitions += seq.size();
        auto shown = show(w.now());
        w.final_check();
        if (par::sig_add(par::hash(shown + std::to_string(w.dead.size()), par::hash(w.it.line)))) {
            ++par::S->distinct;
            if (w.hist.size() > 1 || !w.now().tabs.empty() || !w.now().seqs.empty()) ++par::S->nontrivial;
        }
    });
    if (rc != 0) return false;
    if (depth == w.it.n) return true;
    for (auto& tk : w.it.tok) {
        if (par::S->stop) return false;
        seq.push_back(tk);
        par::current(w.it.line, join(seq));
        rc = nested([&] {
            if (!w.step(tk)) _exit(43);
            ++par::S->states;
            if (!node(w, seq, depth + 1)) _exit(44);
        });
        seq.pop_back();
        if (rc != 0 && rc != 43) ok = false;
    }
    return ok;
}

int main(int argc, char** argv) {
    auto a = par::parse_args(argc, argv);
    quiet_logging();
    par::setup();
    yakushima::impl::set_capacity(static_cast<std::size_t>(a.cap));
    limestone::api::datastore::set_event_hook([](const char* e) { if (e[0] == 's') ++World::switches; });
    limestone::api::datastore::set_closed_hook([](const medium& m) { World::KEEP = m; });
    auto boot = [&](World& w) {
        w.cfg.iscan = a.iscan;
        w.cfg.workers = a.bgworkers;
        w.cfg.restore_threads = w.it.threads;
        w.up(false, {});
        for (int i = 0; i < 3; ++i) { w.epoch(); vt::tick_bg(); }
        for (auto& t : w.it.pre) w.step(t);
    };
    if (!a.replay.empty()) {
        Item it = parse_item(a.replay);
        World w{it};
        bool ok = true;
        par::current(it.line, a.rest.at(0));
        try {
            boot(w);
            for (auto& t : words(a.rest.at(0), ' ')) {
                bool e = w.step(t);
                std::cout << t << (e ? "" : " (nothing)") << ": " << show(w.now()) << "\n";
            }
            w.final_check();
        } catch (Bad& b) { std::cout << b.why << "\n"; ok = false; }
        std::cout << (ok ? "holds\n" : "violated\n");
        par::leave(ok ? 0 : 1);
    }
    std::vector<Item> items;
    {
        std::ifstream f(a.suite);
        std::string l;
        while (std::getline(f, l)) if (!l.empty() && l[0] != '#') items.push_back(parse_item(l));
    }
    // a job is an alphabet and its first two tokens
    struct Job { std::size_t item; int a, b; };
    std::vector<Job> jobs;
    for (std::size_t i = 0; i < items.size(); ++i) {
        jobs.push_back({i, -1, -1});
        for (int x = 0; x < static_cast<int>(items[i].tok.size()); ++x) {
            if (items[i].n < 1) continue;
            jobs.push_back({i, x, -1});
            if (items[i].n < 2) continue;
            for (int y = 0; y < static_cast<int>(items[i].tok.size()); ++y) jobs.push_back({i, x, y});
        }
    }
    std::fprintf(stderr, "%zu alphabets, %zu jobs\n", items.size(), jobs.size());
    bool done = par::run(jobs.size(), a.workers, a.deadline, [&](std::uint64_t j) {
        auto& job = jobs[j];
        World w{items[job.item]};
        std::vector<std::string> seq;
        try {
            par::current(w.it.line, "");
            boot(w);
            for (int x : {job.a, job.b}) {
                if (x < 0) continue;
                seq.push_back(w.it.tok[static_cast<std::size_t>(x)]);
                par::current(w.it.line, join(seq));
                if (!w.step(seq.back())) return;
            }
        } catch (Bad& b) {
            // a violation of a shorter sequence is reported by the job that has it as its last step
            if (job.b >= 0 && seq.size() < 2) return;
            par::violation("database", b.why + "\n" + w.log);
            return;
        }
        if (!seq.empty()) ++par::S->states;
        // shorter sequences only check themselves
        node(w, seq, job.b < 0 && w.it.n > static_cast<int>(seq.size()) ? w.it.n : static_cast<int>(seq.size()));
        if (j % 53 == 0) par::sample(w.it.line + " @ " + join(seq) + ": " + show(w.now()));
    }, 800);
    par::leave(par::finish(a, done && par::S->stop == 0, "sequences"));
}
