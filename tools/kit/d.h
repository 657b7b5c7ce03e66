// Helpers of the demonstration programs: engine start, terse calls, schedule enumeration.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "glog/logging.h"
#include "limestone/api/limestone_standin.h"
#include "rt/rt.h"
#include "shirakami/interface.h"
#include "yakushima/include/kvs.h"
using namespace shirakami;
#define OK_(e) do { auto s_ = (e); if (s_ != Status::OK) { std::fprintf(stderr, "line %d: %s answered %d\n", __LINE__, #e, static_cast<int>(s_)); std::fflush(nullptr); _exit(2); } } while (0)
#define MUST(c) do { if (!(c)) { std::fprintf(stderr, "line %d: not true: %s\n", __LINE__, #c); std::fflush(nullptr); _exit(1); } } while (0)
inline void up(bool restore = false, limestone::api::medium m = {}, std::function<void(database_options&)> f = {}) {
    static bool once = false;
    if (!once) { google::InitGoogleLogging("demo"); FLAGS_minloglevel = 3; FLAGS_logtostderr = true; once = true; }
    database_options o;
    o.set_epoch_time(1000);
    o.set_waiting_resolver_threads(1);
    if (restore) o.set_open_mode(database_options::open_mode::RESTORE);
    if (f) f(o);
    limestone::api::datastore::set_initial(std::move(m));
    auto* ds = new limestone::api::datastore();
    if (restore) ds->recover();
    OK_(init(o, ds));
    for (int i = 0; i < 3; ++i) { vt::tick_epoch(); vt::tick_bg(); }
}
inline void epoch() { vt::tick_epoch(); }
inline void background() { vt::tick_bg(); }
inline void settle() { for (int i = 0; i < 4; ++i) { vt::tick_epoch(); vt::tick_bg(); } }
inline Storage table(const char* n) { Storage s{}; OK_(create_storage(n, s)); return s; }
inline Token session() { Token t{}; OK_(enter(t)); return t; }
inline void put(Token t, Storage s, const std::string& k, const std::string& v) { OK_(tx_begin({t})); OK_(upsert(t, s, k, v)); OK_(commit(t)); }
inline std::string get_(Token t, Storage s, const std::string& k) {      // "-" when absent, "!n" on another answer
    std::string v;
    auto r = search_key(t, s, k, v);
    if (r == Status::OK) return v;
    if (r == Status::WARN_NOT_FOUND) return "-";
    return "!" + std::to_string(static_cast<int>(r));
}
inline std::string now(Token t, Storage s, const std::string& k) { OK_(tx_begin({t})); auto v = get_(t, s, k); commit(t); return v; }
[[noreturn]] inline void good() { std::fprintf(stderr, "as expected\n"); std::fflush(nullptr); _exit(0); }

// Runs the bodies as threads under every schedule with at most `bound` deviations from running them
// one after the other; `check` runs afterwards.  Each schedule runs in a child process.
inline int enumerate(const std::vector<std::function<void()>>& bodies, const std::function<void()>& check, int bound, int epochs = 0, int others = 0) {
    struct Out { std::uint32_t n; std::uint8_t alts[70000]; };
    auto shared = [](std::size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    auto* out = static_cast<Out*>(shared(sizeof(Out)));
    auto* fil = static_cast<vt::PcFilter*>(shared(sizeof(vt::PcFilter)));
    int runs = 0;
    std::vector<vt::Dev> d;
    std::function<void(int)> dfs = [&](int left) {
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            std::vector<int> f;
            vt::ExploreCfg c;
            for (auto& b : bodies) { f.push_back(vt::spawn(b, "tx")); c.order.push_back(f.back()); }
            c.bg_budget_epoch = epochs;
            c.bg_budget_other = others;
            c.plain_points = true;
            vt::set_pc_filter(fil);
            auto o = vt::explore_run(f, c, d.data(), static_cast<int>(d.size()));
            vt::set_pc_filter(nullptr);
            out->n = static_cast<std::uint32_t>(o.alts.size());
            std::memcpy(out->alts, o.alts.data(), o.alts.size());
            check();
            _exit(0);
        }
        int ws = 0;
        waitpid(pid, &ws, 0);
        ++runs;
        if (!WIFEXITED(ws) || WEXITSTATUS(ws) != 0) {
            std::fprintf(stderr, "wrong in schedule");
            for (auto& x : d) std::fprintf(stderr, " %u:%u", x.point, x.alt);
            std::fprintf(stderr, " (%s %d)\n", WIFEXITED(ws) ? "exit" : "signal", WIFEXITED(ws) ? WEXITSTATUS(ws) : WTERMSIG(ws));
            _exit(1);
        }
        if (left == 0) return;
        std::vector<std::uint8_t> alts(out->alts, out->alts + out->n);
        for (std::uint32_t p = d.empty() ? 0 : d.back().point + 1; p < alts.size(); ++p)
            for (std::uint32_t k = 1; k < alts[p]; ++k) { d.push_back({p, k}); dfs(left - 1); d.pop_back(); }
    };
    for (int b = bound < 1 ? bound : 1;;) {
        dfs(b);
        bool grown = false;
        for (std::uint32_t i = 0; i < vt::PcFilter::N; ++i) if (fil->found[i] && !fil->active[i]) { fil->active[i] = 1; grown = true; }
        if (grown) continue;
        if (b == bound) break;
        b = bound;
    }
    std::fprintf(stderr, "%d schedules\n", runs);
    return runs;
}
