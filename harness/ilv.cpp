// Enumerates the thread schedules of a few transactions: after an optional sequential prefix every
// transaction is a thread; every priority order of the threads and every placement of at most
// `bound` deviations (preemptions, other choices at blocking points, starts of background rounds).
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include "lib/h.h"
#include "lib/par.h"

using namespace h;

struct Item {
    Prog p;
    std::string line, head;
    History pre;
    int epochs{0}, others{0};
    int bound{-1};
    std::vector<std::vector<int>> orders;
};

static bool same(const TxP& a, const TxP& b) {
    if (a.type != b.type || a.wp != b.wp || a.ra_pos != b.ra_pos || a.ra_neg != b.ra_neg || a.user_abort != b.user_abort || a.whole != b.whole || a.ops.size() != b.ops.size()) return false;
    for (std::size_t i = 0; i < a.ops.size(); ++i) if (a.ops[i].text != b.ops[i].text) return false;
    return true;
}
static Item parse_item(const std::string& l) {
    Item it;
    auto c = l.find("::");
    it.line = l;
    it.head = l.substr(0, c);
    std::istringstream is(it.head);
    std::string w;
    while (is >> w) {
        if (w[0] == 'H') it.pre = parse_history(w.substr(1));
        if (w[0] == 'e') it.epochs = std::stoi(w.substr(1));
        if (w[0] == 'o') it.others = std::stoi(w.substr(1));
        if (w[0] == 'B') it.bound = std::stoi(w.substr(1));
    }
    it.p = parse(l.substr(c + 2));
    std::vector<int> o;
    for (std::size_t i = 0; i < it.p.txs.size(); ++i) o.push_back(static_cast<int>(i));
    do {
        // identical transactions that have not started yet are interchangeable
        bool ok = true;
        for (std::size_t i = 0; i < o.size() && ok; ++i)
            for (std::size_t j = i + 1; j < o.size() && ok; ++j)
                if (o[i] > o[j] && it.pre.act.empty() && same(it.p.txs[static_cast<std::size_t>(o[i])], it.p.txs[static_cast<std::size_t>(o[j])])) ok = false;
        if (ok) it.orders.push_back(o);
    } while (std::next_permutation(o.begin(), o.end()));
    return it;
}
static std::vector<Item> load(const std::string& path) {
    std::vector<Item> v;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l))
        if (!l.empty() && l[0] != '#') v.push_back(parse_item(l));
    return v;
}

struct Pipe {                 // answers of one execution
    std::uint32_t n;
    std::uint32_t done;
    std::uint8_t alts[70000];
};
static Pipe* OUTP;
static vt::PcFilter* FIL;
static std::string MODE;
static bool PLAIN = true;

static std::string sched_text(const std::vector<int>& order, const std::vector<vt::Dev>& d) {
    std::string s;
    for (int o : order) s += static_cast<char>('0' + o);
    for (auto& x : d) s += "," + std::to_string(x.point) + ":" + std::to_string(x.alt);
    return s;
}

static bool judge(const Prog& p, const ExecOut& x, std::uint64_t progh) {
    if (x.stuck) { par::violation("undecided", "a commit is never decided:\n" + describe(p, x.r, nullptr)); return false; }
    int nc = 0;
    for (auto& t : x.r) {
        if (!t.bad.empty()) { par::violation("report", t.bad + "\n" + describe(p, x.r, &x.fin)); return false; }
        if (t.commit_called && t.callbacks != 1) { par::violation("callback", std::to_string(t.callbacks) + " callbacks\n" + describe(p, x.r, &x.fin)); return false; }
        if (t.out == COMMITTED) { ++nc; ++par::S->committed; }
        else ++par::S->aborted;
        if (t.waited) ++par::S->waited;
    }
    if (!x.crash.empty()) { par::violation("crash", x.crash + "\n" + describe(p, x.r, &x.fin)); return false; }
    std::string why;
    auto on = [&](const char* m) { return MODE.find(m) != std::string::npos; };
    if (on("dirty") && !clean_reads(p, x.r, &why)) { par::violation("uncommitted-value", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("prio") && !ltx_priority(p, x.r, &why)) { par::violation("priority", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("area") && !ltx_areas(p, x.r, &why)) { par::violation("area", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("rtx") && !rtx_unfailing(p, x.r, &why)) { par::violation("read-only-failed", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (on("lobs")) {
        std::uint64_t n = 0;
        bool good = lobs_good(x.fin, &why, &n);
        par::S->refs += n;
        if (!good) { par::violation("large-objects", why + "\n" + describe(p, x.r, &x.fin)); return false; }
    }
    std::uint64_t sg = par::hash(signature(p, x.r, &x.fin, true), progh);
    if (par::sig_known(sg)) return true;
    auto o = serializable(p, x.r, &x.fin, true);
    if (!o.ok) { par::violation("not-serializable", o.why + "\n" + describe(p, x.r, &x.fin)); return false; }
    if (par::sig_add(sg)) {
        ++par::S->distinct;
        if (nc >= 2) ++par::S->nontrivial;
    }
    return true;
}

struct Prepared {
    Env e;
    ExecOut x;
    Crash cr;
    std::vector<std::size_t> pos;
};
// tables, sessions, sequential prefix; identical for all executions of an item
static void ready(const Item& it, Prepared& r) {
    bool crash = MODE.find("crash") != std::string::npos;
    if (crash) r.cr.before();
    prepare(r.e, it.p, "i");
    std::size_t n = it.p.txs.size();
    r.x.r.assign(n, {});
    r.e.all = &r.x.r;
    r.e.watch = MODE.find("state") != std::string::npos;
    if (crash) {
        vt::tick_epoch();
        vt::tick_bg();
        for (int k = 0; k < 2; ++k) vt::tick_epoch();
        r.e.crash = &r.cr;
        r.cr.attach(r.e, it.p, r.x.r);
    }
    r.pos.assign(n, 0);
    auto step = [&](std::size_t a) {
        auto& t = it.p.txs[a];
        auto& x = r.x.r[a];
        ++r.e.clock;
        if (x.out == NOT_BEGUN) {
            begin_tx(r.e, it.p, static_cast<int>(a), x);
            if (t.type != 'S') { vt::tick_epoch(); return; }
        }
        if (r.pos[a] < t.ops.size()) run_op(r.e, it.p, static_cast<int>(a), r.pos[a]++, x);
        else end_tx(r.e, it.p, static_cast<int>(a), x);
    };
    for (auto a : it.pre.act) {
        if (a == ACT_E) vt::tick_epoch();
        else if (a == ACT_G) vt::tick_bg();
        else step(a);
    }
}
static void thread_body(const Item& it, Prepared& r, std::size_t a) {
    auto& t = it.p.txs[a];
    auto& x = r.x.r[a];
    int ia = static_cast<int>(a);
    if (x.out == NOT_BEGUN) begin_tx(r.e, it.p, ia, x);
    while (r.pos[a] < t.ops.size() && x.out == RUNNING) {
        std::size_t o = r.pos[a]++;
        for (int k = 0;; ++k) {
            x.r[o] = {};
            run_op(r.e, it.p, ia, o, x);
            if (x.r[o].st != Status::WARN_PREMATURE || k > 60) break;
            vt_pause();
        }
    }
    if (x.out == RUNNING) {
        for (int k = 0; x.out == RUNNING; ++k) {
            end_tx(r.e, it.p, ia, x);
            if (x.out == RUNNING) { if (k > 60) break; vt_pause(); }
        }
        if (t.type == 'S') x.te = ++r.e.clock;   // the commit has returned
    }
}
// runs one schedule in this process and judges it
static void execute(const Item& it, Prepared& r, const std::vector<int>& order, const std::vector<vt::Dev>& d, std::uint64_t progh, bool show) {
    std::vector<int> fib(it.p.txs.size(), -1), list;
    vt::ExploreCfg cfg;
    for (int o : order) {
        auto a = static_cast<std::size_t>(o);
        auto& x = r.x.r[a];
        if (x.out == COMMITTED || x.out == ABORTED || x.out == WAITING) continue;
        list.push_back(vt::spawn([&it, &r, a] { thread_body(it, r, a); }, "tx"));
        cfg.order.push_back(list.back());
    }
    cfg.bg_budget_epoch = it.epochs;
    cfg.bg_budget_other = it.others;
    cfg.plain_points = PLAIN;
    vt::set_pc_filter(FIL);
    auto out = vt::explore_run(list, cfg, d.data(), static_cast<int>(d.size()));
    vt::set_pc_filter(nullptr);
    OUTP->n = std::min<std::uint32_t>(static_cast<std::uint32_t>(out.alts.size()), sizeof OUTP->alts);
    std::memcpy(OUTP->alts, out.alts.data(), OUTP->n);
    r.x.stuck = !resolve(r.e, r.x.r);
    if (!r.x.stuck) r.x.fin = read_back(r.e, it.p);
    if (r.e.crash && !r.x.stuck) {
        r.cr.settle();
        r.cr.judge(&r.x.crash);
        par::S->durable_pts.fetch_add(r.cr.seen, std::memory_order_relaxed);
    }
    if (r.e.watch && !r.x.stuck) release_states(r.x.r);
    if (show) std::cout << describe(it.p, r.x.r, r.x.stuck ? nullptr : &r.x.fin);
    judge(it.p, r.x, progh);
    OUTP->done = 1;
}

struct Explorer {
    const Item& it;
    Prepared r;
    std::uint64_t progh;
    double deadline;
    std::uint64_t ex{0}, tr{0}, st{0};
    bool cut{false}, failed{false};
    std::uint32_t part{0}, parts{1};      // this job takes every parts-th first deviation
    bool split{false};

    bool one(const std::vector<int>& order, const std::vector<vt::Dev>& d) {
        OUTP->done = 0;
        OUTP->n = 0;
        par::current(it.line, sched_text(order, d));
        pid_t pid = fork();
        if (pid == 0) {
            par::die_with_parent();
            execute(it, r, order, d, progh, false);
            _exit(0);
        }
        int ws = 0;
        waitpid(pid, &ws, 0);
        ++ex;
        tr += OUTP->n;
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && OUTP->done) {
            return true;
        }
        failed = true;
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 42) return false;   // reported by the runtime
        if (WIFSIGNALED(ws)) {
            int sg = WTERMSIG(ws);
            if (sg == SIGKILL) { std::fprintf(stderr, "execution killed\n"); _exit(9); }
            par::violation(sg == SIGPROF || sg == SIGALRM ? "hang" : "crash", "engine terminated by signal " + std::to_string(sg));
            return false;
        }
        std::fprintf(stderr, "execution ended with %d\n", WEXITSTATUS(ws));
        _exit(9);
    }
    // all extensions of d by at most `left` more deviations
    void dfs(const std::vector<int>& order, std::vector<vt::Dev>& d, int left) {
        if (cut || failed) return;
        if (par::now() - par::started() > deadline || par::S->stop.load()) { cut = true; par::S->timeout = 1; return; }
        auto before = par::S->nviol.load();
        if (!one(order, d)) return;
        if (par::S->nviol.load() != before && par::S->nviol.load() > 8) { failed = true; return; }
        std::uint32_t from = d.empty() ? 0 : d.back().point + 1;
        std::uint32_t n = OUTP->n;
        if (!d.empty() || part == 0) st += n > from ? n - from : 0;
        bool top = split && d.empty();
        std::uint32_t idx = 0;
        if (left == 0) return;
        std::vector<std::uint8_t> alts(OUTP->alts, OUTP->alts + n);
        for (std::uint32_t p = from; p < n; ++p)
            for (std::uint32_t k = 1; k < alts[p]; ++k) {
                if (top && idx++ % parts != part) continue;
                d.push_back({p, k});
                dfs(order, d, left - 1);
                d.pop_back();
                if (cut || failed) return;
            }
    }
};

int main(int argc, char** argv) {
    auto a = par::parse_args(argc, argv);
    quiet_logging();
    par::setup();
    MODE = a.mode;
    if (MODE.find("lobs") != std::string::npos) lobs_on();
    OUTP = static_cast<Pipe*>(mmap(nullptr, sizeof(Pipe), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    yakushima::impl::set_capacity(static_cast<std::size_t>(a.cap));
    EngineCfg cfg;
    cfg.iscan = a.iscan;
    cfg.workers = a.bgworkers;
    if (start(cfg) != Status::OK) { std::fprintf(stderr, "engine does not start\n"); return 3; }
    for (int i = 0; i < 3; ++i) { vt::tick_epoch(); vt::tick_bg(); }
    auto new_filter = [] { return static_cast<vt::PcFilter*>(mmap(nullptr, sizeof(vt::PcFilter), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); };

    if (!a.replay.empty()) {
        // --replay "head :: program" "order,point:alt,...": the points are those of the converged filter
        Item it = parse_item(a.replay);
        std::vector<int> order;
        std::vector<vt::Dev> d;
        std::istringstream is(a.rest.at(0));
        std::string w;
        std::getline(is, w, ',');
        for (char c : w) order.push_back(c - '0');
        while (std::getline(is, w, ',')) d.push_back({static_cast<std::uint32_t>(std::stoul(w)), static_cast<std::uint32_t>(std::stoul(w.substr(w.find(':') + 1)))});
        FIL = new_filter();
        Explorer x{it, {}, 1, 600};
        ready(it, x.r);
        if (a.rest.size() > 1) {
            std::ifstream f(a.rest[1], std::ios::binary);
            f.read(reinterpret_cast<char*>(FIL->active), sizeof FIL->active);
        } else FIL->all = 1;
        par::current(it.line, a.rest.at(0));
        par::set_in_job();
        int rc = par::in_child([&] { execute(it, x.r, order, d, 1, true); std::cout.flush(); });
        if (par::S->nviol) std::cout << par::S->viol[0] << "\n";
        else std::cout << (rc == 0 ? "holds\n" : "failed " + std::to_string(rc) + "\n");
        par::leave(par::S->nviol ? 1 : rc);
    }
    auto items = load(a.suite);
    struct Job { std::size_t i, o; std::uint32_t part, parts; };
    std::vector<Job> jobs;
    for (std::size_t i = 0; i < items.size(); ++i)
        for (std::size_t o = 0; o < items[i].orders.size(); ++o) {
            int bound = items[i].bound >= 0 ? items[i].bound : a.bound;
            std::uint32_t parts = bound >= 2 ? 6 : 1;
            for (std::uint32_t k = 0; k < parts; ++k) jobs.push_back({i, o, k, parts});
        }
    std::fprintf(stderr, "%zu programs, %zu jobs\n", items.size(), jobs.size());
    bool done = par::run(jobs.size(), a.workers, a.deadline, [&](std::uint64_t j) {
        auto& it = items[jobs[j].i];
        auto& order = it.orders[jobs[j].o];
        int bound = it.bound >= 0 ? it.bound : a.bound;
        OUTP = static_cast<Pipe*>(mmap(nullptr, sizeof(Pipe), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        FIL = new_filter();
        Explorer x{it, {}, par::hash(it.p.text), a.deadline};
        x.part = jobs[j].part;
        x.parts = jobs[j].parts;
        par::current(it.line, "prefix");
        ready(it, x.r);
        // the set of points is the set of accesses that were seen to conflict; it grows until it is stable
        int rounds = 0;
        for (int b = std::min(bound, 1);;) {
            x.st = 0;
            x.split = b > 1;
            std::vector<vt::Dev> d;
            x.dfs(order, d, b);
            ++rounds;
            if (x.cut || x.failed) break;
            bool grown = false;
            for (std::uint32_t i = 0; i < vt::PcFilter::N; ++i)
                if (FIL->found[i] && !FIL->active[i]) { FIL->active[i] = 1; grown = true; }
            if (grown && rounds < 12) continue;
            if (b == bound) { if (grown) par::S->timeout = 1; break; }
            b = bound;
        }
        if (x.failed) {
            // keep the points used, for the replay
            std::string fn = a.out.empty() ? "" : a.out + ".points." + std::to_string(j);
            if (!fn.empty()) {
                std::ofstream f(fn, std::ios::binary);
                f.write(reinterpret_cast<const char*>(FIL->active), sizeof FIL->active);
            }
        }
        par::S->executions += x.ex;
        par::S->transitions += x.tr;
        par::S->states += x.st;
        par::S->aux += static_cast<std::uint64_t>(rounds);
        if (j % 53 == 0) par::sample(it.line + " order " + sched_text(order, {}) + ": " + std::to_string(x.ex) + " schedules, default schedule has " + std::to_string(OUTP->n) + " points");
    }, 900);
    par::leave(par::finish(a, done && par::S->stop == 0, "schedules", par::extra()));
}
