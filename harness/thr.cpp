// Enumerates the thread schedules of small scripts of API calls (sessions, table and sequence
// operations, operations of several threads on one transaction). The reference is the engine itself,
// used by one thread: all orders of the same calls are executed one call at a time first, and the
// answers of every schedule must be the answers of one of them.
//   [e1] [o1] [B2] [keep=N] [weak] :: <initial contents> || setup || thread | thread || closing calls
// calls:  D0 request a commit, W0 wait for the decision
//         N0 enter  V0 leave  b0S b0L:AB b0R begin  0.gAa operation  C0 commit  X0 abort
//         0.y read key  0.v read value  0.x next  0.z close (of the thread's open scan)
//         cx create table  c.5x with id  dx delete  lx look up  ox set options  L list
//         q create sequence  q0 read  0+0 update of sequence by session   Q0 delete
//         E epoch  G background work  (not in threads)
//         zS stop the engine (setup)  z2 start it with two recovery threads  zO open sessions and tables again (closing)
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include "lib/h.h"
#include "lib/par.h"

#include "shirakami/api_sequence.h"
#include "shirakami/api_storage.h"

using namespace h;
using namespace shirakami;

struct Item {
    std::string line;
    Prog p;
    int epochs{0}, others{0}, bound{-1}, keep{0};
    bool weak{false};         // operations may be refused or the transaction given up because of concurrency
    std::vector<std::string> setup, post;
    std::vector<std::vector<std::string>> th;
    std::vector<std::vector<int>> orders;
};
static std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> v;
    std::istringstream is(s);
    std::string w;
    while (is >> w) v.push_back(w);
    return v;
}
static std::vector<std::string> cut(const std::string& s, const std::string& sep) {
    std::vector<std::string> v;
    std::size_t b = 0;
    for (;;) {
        auto e = s.find(sep, b);
        v.push_back(s.substr(b, e == std::string::npos ? e : e - b));
        if (e == std::string::npos) return v;
        b = e + sep.size();
    }
}
static Item parse_item(const std::string& l) {
    Item it;
    it.line = l;
    auto c = l.find("::");
    for (auto& w : words(l.substr(0, c))) {
        if (w[0] == 'e') it.epochs = std::stoi(w.substr(1));
        if (w[0] == 'o') it.others = std::stoi(w.substr(1));
        if (w[0] == 'B') it.bound = std::stoi(w.substr(1));
        if (w == "weak") it.weak = true;
        if (w.rfind("keep=", 0) == 0) it.keep = std::stoi(w.substr(5));
    }
    auto part = cut(l.substr(c + 2), "||");
    it.setup = words(part.at(1));
    for (auto& t : cut(part.at(2), "|")) it.th.push_back(words(t));
    if (part.size() > 3) it.post = words(part[3]);
    // tables and keys named anywhere
    std::string ops = " || S";
    auto add = [&](const std::vector<std::string>& v) {
        for (auto& w : v) if (w.size() > 3 && w[1] == '.' && w[0] >= '0' && w[0] <= '9') ops += " " + w.substr(2);
    };
    add(it.setup);
    for (auto& t : it.th) add(t);
    add(it.post);
    it.p = parse(part[0] + (ops == " || S" ? " || S gAa" : ops));
    std::vector<int> o;
    for (std::size_t i = 0; i < it.th.size(); ++i) o.push_back(static_cast<int>(i));
    do it.orders.push_back(o); while (std::next_permutation(o.begin(), o.end()));
    return it;
}

static EngineCfg CFG;
static bool LOBS;                           // judge the large objects of every log entry
static limestone::api::medium KEEP;         // the log of the stopped engine

struct World {
    const Item& it;
    Env e;
    std::vector<Token> slot = std::vector<Token>(8, nullptr);
    std::map<std::string, Storage> tab;
    std::set<Storage> gone;
    std::vector<SequenceId> seqs;
    std::vector<std::map<std::size_t, std::size_t>> ver = std::vector<std::map<std::size_t, std::size_t>>(4);
    std::vector<Token> kept;
    std::vector<int> cb = std::vector<int>(64, 0);
    int ncb{0};
    std::vector<int> asked;
    std::map<std::size_t, Status> decided;
    Status os_refused{Status::OK};
    std::vector<std::string> res;         // per thread, then closing calls
    std::vector<TxRes> scan;              // per thread: the open scan
    std::vector<std::size_t> opno;
    std::string bad;
    std::uint32_t refused{0};             // calls refused because of concurrency
    bool alone{true};                     // one call at a time
    bool aborted{false};                  // the engine gave up the transaction
    Tables last;                          // contents at the end
    std::string after;

    explicit World(const Item& i) : it(i) {}
    void ready() {
        prepare(e, it.p, "t");
        for (int i = 0; i < it.keep; ++i) { Token t{}; if (enter(t) == Status::OK) kept.push_back(t); }
        res.assign(it.th.size() + 2, "");
        scan.assign(it.th.size() + 2, {});
        for (auto& w : it.setup) call(it.th.size() + 1, w);
    }
    std::string name_of(Storage s) {
        for (auto& t : tab) if (t.second == s) return t.first;
        return "?";
    }
    // the n-th call of a thread writes a value of its own
    std::string value(std::size_t th) { return "v" + std::to_string(th) + "." + std::to_string(std::count(res[th].begin(), res[th].end(), ';')); }
    void refuse(std::size_t th) { if (th < it.th.size()) refused |= 1u << (th * 8 + static_cast<std::size_t>(std::count(res[th].begin(), res[th].end(), ';'))); }
    void call(std::size_t th, const std::string& w) {
        std::ostringstream os;
        char c = w[0];
        std::size_t k = w.size() > 1 && w[1] >= '0' && w[1] <= '9' ? static_cast<std::size_t>(w[1] - '0') : 0;
        if (std::strchr("bCXDW", c) && !slot[k]) os << "-";
        else if (w.size() > 2 && (w[1] == '.' || w[1] == '+') && c >= '0' && c <= '9' && !slot[static_cast<std::size_t>(c - '0')]) os << "-";
        else if (w.size() == 3 && w[1] == '.' && std::strchr("yvxz", w[2])) {
            Token t = slot[static_cast<std::size_t>(c - '0')];
            auto h = scan[th].sh;
            std::string v;
            Status s = w[2] == 'y' ? read_key_from_scan(t, h, v) : w[2] == 'v' ? read_value_from_scan(t, h, v) : w[2] == 'x' ? next(t, h) : close_scan(t, h);
            if (is_err(s)) aborted = true;
            if (it.weak && (s == Status::WARN_CONCURRENT_INSERT || s == Status::WARN_CONCURRENT_UPDATE)) os << "refused", refuse(th);
            else os << s << " " << v;
        } else if (w.size() > 2 && w[1] == '.' && c >= '0' && c <= '9') {
            Op o = parse_op(w.substr(2), 0, 0);
            o.val = value(th);
            OpRes r;
            Token t = slot[static_cast<std::size_t>(c - '0')];
            for (int n = 0;; ++n) {
                r = {};
                if (o.k == 'o' || o.k == 'n') scan_op(t, e.st[static_cast<std::size_t>(o.st)], o, r, scan[th]);
                else do_op(t, e.st[static_cast<std::size_t>(o.st)], o, r);
                if (r.st != Status::WARN_PREMATURE || n > 60) break;
                vt_pause();
            }
            if (is_err(r.st)) aborted = true;
            if (it.weak && (r.partial || r.st == Status::WARN_CONCURRENT_INSERT || r.st == Status::WARN_CONCURRENT_UPDATE)) os << "refused", refuse(th);
            else {
                os << r.st;
                for (auto& x : r.rows) os << " " << x.first << "=" << x.second;
                if (r.partial) os << " partial";
                if (r.ended) os << " end";
            }
        } else if (w.size() > 2 && w[1] == '+') {
            auto s = static_cast<std::size_t>(w[2] - '0');
            auto v = ++ver[s][static_cast<std::size_t>(c - '0')];
            auto me = static_cast<std::size_t>(c - '0');
            os << update_sequence(slot[me], seqs.at(s), 10 * v + me, static_cast<SequenceValue>(100 * (me + 1) + v));
        } else switch (c) {
            case 'z': {
                if (w[1] == 'S') {
                    for (auto*& t : slot) t = nullptr;
                    kept.clear();
                    e.tok.clear();
                    KEEP = {};
                    fin(false);
                    KEEP.crash();
                } else if (w[1] == 'O') {
                    for (std::size_t i = 0; i < e.st.size(); ++i) os << get_storage(std::string("t") + static_cast<char>('A' + i), e.st[i]);
                    for (auto& t : tab) os << get_storage(t.first, t.second);
                    while (e.tok.size() < 2) { Token t{}; os << enter(t); e.tok.push_back(t); }
                    for (int i = 0; i < 2; ++i) { vt::tick_epoch(); vt::tick_bg(); }
                } else {
                    EngineCfg cf = CFG;
                    cf.restore = true;
                    cf.restore_threads = w[1] - '0';
                    os << start(cf, KEEP);
                }
                break;
            }
            case 'E': vt::tick_epoch(); break;
            case 'G': vt::tick_bg(); break;
            case 'N': {
                Token t{};
                Status s = enter(t);
                os << s;
                if (alone) {
                    auto n = kept.size() + e.tok.size() + static_cast<std::size_t>(std::count_if(slot.begin(), slot.end(), [](Token x) { return x != nullptr; }));
                    if (s != (n < KVS_MAX_PARALLEL_THREADS ? Status::OK : Status::ERR_SESSION_LIMIT)) bad = "enter with " + std::to_string(n) + " open sessions does not answer as documented";
                }
                if (s == Status::OK) {
                    for (auto o : slot) if (o == t && o) bad = "enter returned a session that is open";
                    for (auto o : kept) if (o == t) bad = "enter returned a session that is open";
                    for (auto o : e.tok) if (o == t) bad = "enter returned a session that is open";
                    slot[k] = t;
                }
                break;
            }
            case 'V': {
                Token t = slot[k];
                if (!t) { os << "-"; break; }
                slot[k] = nullptr;
                os << leave(t);
                break;
            }
            case 'b': {
                transaction_options o{slot[k]};
                if (w[2] == 'R') o = transaction_options{slot[k], transaction_options::transaction_type::READ_ONLY};
                if (w[2] == 'L') {
                    transaction_options::write_preserve_type wp;
                    for (std::size_t i = 4; i < w.size(); ++i) wp.push_back(e.st[static_cast<std::size_t>(w[i] - 'A')]);
                    o = transaction_options{slot[k], transaction_options::transaction_type::LONG, wp};
                }
                os << tx_begin(o);
                break;
            }
            case 'C': {
                int me = ncb++;
                Status st{};
                bool d = commit(slot[k], [this, me, &st, d = &st](Status s, reason_code, durability_marker_type) { (void) d; ++cb[static_cast<std::size_t>(me)]; st = s; });
                if (!d) { for (int n = 0; n < 8 && cb[static_cast<std::size_t>(me)] == 0; ++n) { vt::tick_epoch(); vt::tick_bg(); } os << "later "; }
                if (cb[static_cast<std::size_t>(me)] != 1) bad = "commit made " + std::to_string(cb[static_cast<std::size_t>(me)]) + " callbacks";
                os << st;
                break;
            }
            // request a commit without waiting for the decision / wait for it
            case 'D': {
                int me = ncb++;
                bool d = commit(slot[k], [this, me, k](Status s, reason_code, durability_marker_type) { ++cb[static_cast<std::size_t>(me)]; if (s != Status::WARN_ILLEGAL_OPERATION) decided[k] = s; else os_refused = s; });
                if (d != (cb[static_cast<std::size_t>(me)] > 0) && alone) bad = "commit does not say whether it called back";
                asked.push_back(me);
                if (d) os << "now";
                break;
            }
            case 'W': {
                for (int n = 0; n < 8; ++n) { vt::tick_epoch(); vt::tick_bg(); }
                for (int m : asked) if (cb[static_cast<std::size_t>(m)] != 1) bad = "commit made " + std::to_string(cb[static_cast<std::size_t>(m)]) + " callbacks";
                os << decided[k];
                break;
            }
            case 'X': os << abort(slot[k]); break;
            case 'c': {
                storage_option o;
                std::string n = w.substr(1);
                if (n[0] == '.') { o.id(static_cast<std::uint64_t>(n[1] - '0')); n = n.substr(2); }
                Storage s{};
                Status r = create_storage(n, s, o);
                os << r;
                if (r == Status::OK) {
                    if (o.id() != storage_id_undefined && s != o.id()) os << " wrong-id";
                    gone.erase(s);
                    for (auto& x : tab) if (x.second == s && x.first != n && !gone.count(s)) bad = "two live tables have one handle";
                    tab[n] = s;
                }
                break;
            }
            case 'd': {
                auto i = tab.find(w.substr(1));
                if (i == tab.end()) { os << "-"; break; }
                Storage s = i->second;
                Status r = delete_storage(s);
                os << r;
                if (r == Status::OK) gone.insert(s);
                break;
            }
            case 'l': { Storage s{}; Status r = get_storage(w.substr(1), s); os << r; break; }
            case 'o': {
                auto i = tab.find(w.substr(1));
                if (i == tab.end()) { os << "-"; break; }
                storage_option o;
                o.id(i->second);
                o.payload("p" + std::to_string(th));
                os << storage_set_options(i->second, o);
                break;
            }
            case 'P': {
                auto i = tab.find(w.substr(1));
                if (i == tab.end()) { os << "-"; break; }
                storage_option o;
                os << storage_get_options(i->second, o) << " " << o.payload();
                break;
            }
            case 'L': {
                std::vector<std::string> v;
                os << list_storage(v);
                std::sort(v.begin(), v.end());
                std::set<Storage> hs;
                for (auto& n : v) {
                    Storage s{};
                    os << " " << n;
                    if (th == it.th.size()) {
                        if (get_storage(n, s) != Status::OK) bad = "listed table " + n + " is not found";
                        else if (!hs.insert(s).second) bad = "two live tables have one handle";
                        else if (tab.count(n) && tab[n] != s) bad = "table " + n + " has another handle than was returned";
                    }
                }
                break;
            }
            // reads one table through a short transaction of its own
            case 'r': {
                auto i = tab.find(w.substr(1));
                if (i == tab.end()) { os << "-"; break; }
                Op o;
                o.k = 's';
                OpRes r;
                tx_begin({e.tok.back()});
                do_op(e.tok.back(), i->second, o, r);
                os << r.st;
                for (auto& x : r.rows) os << " " << x.first << "=" << x.second;
                if (!is_err(r.st)) os << commit(e.tok.back());
                break;
            }
            case 'q': {
                if (w.size() == 1) {
                    SequenceId id{};
                    os << create_sequence(&id);
                    for (auto s : seqs) if (s == id) bad = "two sequences have one id";
                    seqs.push_back(id);
                } else {
                    SequenceVersion v{};
                    SequenceValue x{};
                    os << read_sequence(seqs.at(k), &v, &x);
                    os << " " << v << "/" << x;
                }
                break;
            }
            case 'Q': os << delete_sequence(seqs.at(k)); break;
            default: std::fprintf(stderr, "unknown call %s\n", w.c_str()); _exit(9);
        }
        res[th] += w + "=" + os.str() + ";";
    }
    void closing() {
        for (auto& w : it.post) call(it.th.size(), w);
        last = read_back(e, it.p);
        after = dump(last);
        res[it.th.size()] += after;
    }
    std::string sig() const {
        std::string s;
        for (std::size_t i = 0; i + 1 < res.size(); ++i) s += res[i] + "\n";
        return s;
    }
};

struct Pipe {
    std::uint32_t n, done;
    std::uint32_t nseq;
    std::uint32_t refused;                // calls refused in a schedule whose reference is missing
    std::uint64_t seq[4096];
    char text[4096];
    std::uint8_t alts[70000];
};
static Pipe* OUTP;
static vt::PcFilter* FIL;

constexpr int BG = 8, EP = 9;          // background work in a sequential order
// skip: calls (numbered in the merged order's threads) that are refused instead
static void run_sequential(World& w, const std::vector<int>& order, std::uint32_t skip = 0) {
    std::vector<std::size_t> pos(w.it.th.size(), 0);
    for (int t : order) {
        if (t == BG) { vt::tick_bg(); continue; }
        if (t == EP) { vt::tick_epoch(); continue; }
        auto a = static_cast<std::size_t>(t);
        auto& c = w.it.th[a][pos[a]];
        if (skip >> (a * 8 + pos[a]) & 1) w.res[a] += c + "=refused;";
        else w.call(a, c);
        ++pos[a];
    }
    w.closing();
}
static void execute(World& w, const std::vector<int>& order, const std::vector<vt::Dev>& d, std::uint64_t progh, bool show) {
    std::vector<int> list;
    vt::ExploreCfg cfg;
    for (int o : order) {
        auto a = static_cast<std::size_t>(o);
        list.push_back(vt::spawn([&w, a] { for (auto& c : w.it.th[a]) w.call(a, c); }, "thr"));
        cfg.order.push_back(list.back());
    }
    cfg.bg_budget_epoch = w.it.epochs;
    cfg.bg_budget_other = w.it.others;
    cfg.plain_points = true;
    w.alone = false;
    vt::set_pc_filter(FIL);
    auto out = vt::explore_run(list, cfg, d.data(), static_cast<int>(d.size()));
    vt::set_pc_filter(nullptr);
    w.alone = true;
    OUTP->n = std::min<std::uint32_t>(static_cast<std::uint32_t>(out.alts.size()), sizeof OUTP->alts);
    std::memcpy(OUTP->alts, out.alts.data(), OUTP->n);
    w.closing();
    if (show) std::cout << w.sig() << "\n";
    if (LOBS) {
        std::uint64_t n = 0;
        std::string why;
        bool good = lobs_good(w.last, &why, &n);
        par::S->refs += n;
        if (!good) { par::violation("large-objects", why + "\n" + w.sig()); OUTP->done = 1; return; }
    }
    if (!w.bad.empty()) { par::violation("identity", w.bad + "\n" + w.sig()); OUTP->done = 1; return; }
    std::uint64_t h = par::hash(w.sig());
    bool found = false;
    for (std::uint32_t i = 0; i < OUTP->nseq; ++i) found |= OUTP->seq[i] == h;
    // a transaction given up leaves nothing behind
    if (!found && w.it.weak && w.aborted) found = w.after == dump(w.it.p.init);
    if (!found && w.refused && !OUTP->refused) { OUTP->refused = w.refused; return; }
    if (!found) par::violation("not-sequential", "no order of the same calls, one at a time, gives\n" + w.sig() + "\none of the " + std::to_string(OUTP->nseq) + " sequential outcomes:\n" + OUTP->text);
    else if (par::sig_add(h ^ progh)) { ++par::S->distinct; if (OUTP->nseq > 1) ++par::S->nontrivial; }
    OUTP->done = 1;
}
// all merges of the threads' call sequences and the background work
static void merges(const Item& it, std::vector<std::size_t>& pos, std::vector<int>& cur, std::vector<std::vector<int>>& out, int bg, int ep) {
    bool any = false;
    for (std::size_t t = 0; t < pos.size(); ++t)
        if (pos[t] < it.th[t].size()) {
            any = true;
            ++pos[t];
            cur.push_back(static_cast<int>(t));
            merges(it, pos, cur, out, bg, ep);
            cur.pop_back();
            --pos[t];
        }
    if (!any) { out.push_back(cur); return; }
    if (bg && (cur.empty() || cur.back() != BG)) { cur.push_back(BG); merges(it, pos, cur, out, bg - 1, ep); cur.pop_back(); }
    if (ep) { cur.push_back(EP); merges(it, pos, cur, out, bg, ep - 1); cur.pop_back(); }
}
static bool child(const std::function<void()>& f) {
    pid_t pid = fork();
    if (pid == 0) {
        par::die_with_parent();
        f();
        _exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) return true;
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 42) return false;
    if (WIFSIGNALED(ws)) {
        int sg = WTERMSIG(ws);
        if (sg == SIGKILL) { std::fprintf(stderr, "execution killed\n"); _exit(9); }
        par::violation(sg == SIGPROF || sg == SIGALRM ? "hang" : "crash", "engine terminated by signal " + std::to_string(sg));
        return false;
    }
    std::fprintf(stderr, "execution ended with %d\n", WEXITSTATUS(ws));
    _exit(9);
}
static std::string sched_text(const std::vector<int>& order, const std::vector<vt::Dev>& d) {
    std::string s;
    for (int o : order) s += static_cast<char>('0' + o);
    for (auto& x : d) s += "," + std::to_string(x.point) + ":" + std::to_string(x.alt);
    return s;
}

struct Explorer {
    const Item& it;
    World w;
    std::uint64_t progh;
    double deadline;
    std::uint64_t ex{0}, tr{0}, st{0}, sequential{0};
    bool cut{false}, failed{false};
    std::uint32_t part{0}, parts{1};
    bool split{false};
    Explorer(const Item& i, double dl) : it(i), w(i), progh(par::hash(i.line)), deadline(dl) {}

    void reference() {
        std::vector<std::size_t> pos(it.th.size(), 0);
        std::vector<int> cur;
        merges(it, pos, cur, all, it.others, it.epochs);
        OUTP->nseq = 0;
        OUTP->refused = 0;
        reference(0);
    }
    // all orders of the calls, without the ones that were refused
    std::vector<std::vector<int>> all;
    std::set<std::uint32_t> have;
    void reference(std::uint32_t skip) {
        if (!have.insert(skip).second) return;
        for (auto& o : all) {
            std::string t;
            for (int x : o) t += static_cast<char>('0' + x);
            par::current(it.line, "=" + t);
            ++sequential;
            bool ok = child([&] {
                run_sequential(w, o, skip);
                if (!w.bad.empty()) { par::violation("identity", w.bad + "\n" + w.sig()); return; }
                std::uint64_t h = par::hash(w.sig());
                for (std::uint32_t i = 0; i < OUTP->nseq; ++i) if (OUTP->seq[i] == h) return;
                if (OUTP->nseq == 0) std::snprintf(OUTP->text, sizeof OUTP->text, "%s", w.sig().c_str());
                if (OUTP->nseq < 4096) OUTP->seq[OUTP->nseq++] = h;
            });
            if (!ok) { failed = true; return; }
        }
    }
    bool one(const std::vector<int>& order, const std::vector<vt::Dev>& d) {
        OUTP->done = 0;
        OUTP->n = 0;
        OUTP->refused = 0;
        par::current(it.line, sched_text(order, d));
        bool ok = child([&] { execute(w, order, d, progh, false); });
        if (ok && OUTP->refused) {
            reference(OUTP->refused);
            par::current(it.line, sched_text(order, d));
            ok = !failed && child([&] { execute(w, order, d, progh, false); });
        }
        ok = ok && OUTP->done;
        ++ex;
        tr += OUTP->n;
        if (!ok) failed = true;
        return ok;
    }
    void dfs(const std::vector<int>& order, std::vector<vt::Dev>& d, int left) {
        if (cut || failed) return;
        if (par::now() - par::started() > deadline || par::S->stop.load()) { cut = true; par::S->timeout = 1; return; }
        if (!one(order, d)) return;
        if (par::S->nviol.load() > 8) { failed = true; return; }
        std::uint32_t from = d.empty() ? 0 : d.back().point + 1;
        std::uint32_t n = OUTP->n;
        if (!d.empty() || part == 0) st += n > from ? n - from : 0;
        bool top = split && d.empty();
        std::uint32_t idx = 0;
        if (left == 0) return;
        std::vector<std::uint8_t> alts(OUTP->alts, OUTP->alts + n);
        for (std::uint32_t p = from; p < n; ++p)
            for (std::uint32_t k = 1; k < alts[p]; ++k) {
                if (top && idx++ % parts != part) continue;
                d.push_back({p, k});
                dfs(order, d, left - 1);
                d.pop_back();
                if (cut || failed) return;
            }
    }
};

int main(int argc, char** argv) {
    auto a = par::parse_args(argc, argv);
    quiet_logging();
    par::setup();
    LOBS = a.mode.find("lobs") != std::string::npos;
    if (LOBS) lobs_on();
    auto shared = [](std::size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    OUTP = static_cast<Pipe*>(shared(sizeof(Pipe)));
    yakushima::impl::set_capacity(static_cast<std::size_t>(a.cap));
    EngineCfg cfg;
    cfg.iscan = a.iscan;
    cfg.workers = a.bgworkers;
    CFG = cfg;
    limestone::api::datastore::set_closed_hook([](const limestone::api::medium& m) { KEEP = m; });
    if (start(cfg) != Status::OK) { std::fprintf(stderr, "engine does not start\n"); return 3; }
    for (int i = 0; i < 3; ++i) { vt::tick_epoch(); vt::tick_bg(); }
    if (!a.replay.empty()) {
        Item it = parse_item(a.replay);
        std::string s = a.rest.at(0);
        FIL = static_cast<vt::PcFilter*>(shared(sizeof(vt::PcFilter)));
        par::set_in_job();
        Explorer x{it, 600};
        par::current(it.line, s);
        x.w.ready();
        int rc = 0;
        if (s[0] == '=') {
            std::vector<int> o;
            for (char c : s.substr(1)) o.push_back(c - '0');
            rc = par::in_child([&] { run_sequential(x.w, o); std::cout << x.w.sig() << x.w.bad << "\n"; std::cout.flush(); });
        } else {
            x.reference();
            std::vector<int> order;
            std::vector<vt::Dev> d;
            std::istringstream is(s);
            std::string w;
            std::getline(is, w, ',');
            for (char c : w) order.push_back(c - '0');
            while (std::getline(is, w, ',')) d.push_back({static_cast<std::uint32_t>(std::stoul(w)), static_cast<std::uint32_t>(std::stoul(w.substr(w.find(':') + 1)))});
            if (a.rest.size() > 1) {
                std::ifstream f(a.rest[1], std::ios::binary);
                f.read(reinterpret_cast<char*>(FIL->active), sizeof FIL->active);
            } else FIL->all = 1;
            par::current(it.line, s);
            rc = par::in_child([&] { execute(x.w, order, d, 1, true); std::cout.flush(); });
            if (OUTP->refused) {
                x.reference(OUTP->refused);
                par::current(it.line, s);
                rc = par::in_child([&] { execute(x.w, order, d, 1, false); std::cout.flush(); });
            }
        }
        if (par::S->nviol) std::cout << par::S->viol[0] << "\n";
        else std::cout << (rc == 0 ? "holds\n" : "failed " + std::to_string(rc) + "\n");
        par::leave(par::S->nviol ? 1 : rc);
    }
    std::vector<Item> items;
    {
        std::ifstream f(a.suite);
        std::string l;
        while (std::getline(f, l)) if (!l.empty() && l[0] != '#') items.push_back(parse_item(l));
    }
    struct Job { std::size_t i, o; std::uint32_t part, parts; };
    std::vector<Job> jobs;
    for (std::size_t i = 0; i < items.size(); ++i)
        for (std::size_t o = 0; o < items[i].orders.size(); ++o) {
            int bound = items[i].bound >= 0 ? items[i].bound : a.bound;
            std::uint32_t parts = bound >= 2 ? 6 : 1;
            for (std::uint32_t k = 0; k < parts; ++k) jobs.push_back({i, o, k, parts});
        }
    std::fprintf(stderr, "%zu programs, %zu jobs\n", items.size(), jobs.size());
    bool done = par::run(jobs.size(), a.workers, a.deadline, [&](std::uint64_t j) {
        auto& it = items[jobs[j].i];
        auto& order = it.orders[jobs[j].o];
        int bound = it.bound >= 0 ? it.bound : a.bound;
        OUTP = static_cast<Pipe*>(shared(sizeof(Pipe)));
        FIL = static_cast<vt::PcFilter*>(shared(sizeof(vt::PcFilter)));
        Explorer x{it, a.deadline};
        x.part = jobs[j].part;
        x.parts = jobs[j].parts;
        par::current(it.line, "prefix");
        x.w.ready();
        x.reference();
        int rounds = 0;
        if (!x.failed)
            for (int b = std::min(bound, 1);;) {
                x.st = 0;
                x.split = b > 1;
                std::vector<vt::Dev> d;
                x.dfs(order, d, b);
                ++rounds;
                if (x.cut || x.failed) break;
                bool grown = false;
                for (std::uint32_t i = 0; i < vt::PcFilter::N; ++i)
                    if (FIL->found[i] && !FIL->active[i]) { FIL->active[i] = 1; grown = true; }
                if (grown && rounds < 12) continue;
                if (b == bound) { if (grown) par::S->timeout = 1; break; }
                b = bound;
            }
        if (x.failed && !a.out.empty()) {
            std::ofstream f(a.out + ".points." + std::to_string(j), std::ios::binary);
            f.write(reinterpret_cast<const char*>(FIL->active), sizeof FIL->active);
        }
        par::S->executions += x.ex;
        par::S->transitions += x.tr;
        par::S->states += x.st;
        par::S->aux += static_cast<std::uint64_t>(rounds);
        par::S->aux2 += x.sequential;
        if (j % 53 == 0) par::sample(it.line + " order " + sched_text(order, {}) + ": " + std::to_string(x.ex) + " schedules, " + std::to_string(OUTP->nseq) + " different sequential outcomes");
    }, 900);
    par::leave(par::finish(a, done && par::S->stop == 0, "schedules", "\"extra\":{\"sequential_reference_runs\":" + std::to_string(par::S->aux2.load()) + (LOBS ? ",\"log_entries_judged\":" + std::to_string(par::S->refs.load()) : std::string()) + "}"));
}
