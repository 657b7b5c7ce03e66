// Controlled runtime: every thread of the engine is a fiber of one OS thread; all
// synchronisation, atomics, sleeps and (optionally) racing plain accesses are scheduling points.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

extern "C" void vt_pause(void);

namespace vt {

// ---- fibers ---------------------------------------------------------------
// creates a foreground (harness) fiber; returns its id
int spawn(std::function<void()> fn, const char* name);
int current();                 // id of the running fiber (0 = main)
int fiber_count();
bool fiber_done(int id);

// one loop iteration of sleeping background fibers (direct mode only).
// mask: 1 = epoch fiber, 2 = every other background fiber
void round(int mask);
// run the epoch fiber once / everything else once
inline void tick_epoch() { round(1); }
inline void tick_bg() { round(2); }
// which fiber is the epoch fiber (told by the log stand-in)
void note_epoch_fiber();
int epoch_fiber();

// explicit scheduling point used by the stand-ins; site is a stable small id
void point(const void* addr, bool write, unsigned site);
// forbid / allow preemption
struct no_preempt {
    no_preempt();
    ~no_preempt();
};

// ---- exploration ------------------------------------------------------------
struct Dev { uint32_t point; uint32_t alt; };

struct ExploreCfg {
    std::vector<int> order;        // priority order of foreground fibers
    int bg_budget_epoch = 0;       // rounds of the epoch fiber that may start at any point
    int bg_budget_other = 0;       // rounds of each other background fiber that may start at any point
    uint32_t max_points = 60000;   // horizon
    bool plain_points = false;
};

struct ExploreOut {
    std::vector<uint8_t> alts;     // number of alternatives at each recorded point
    uint32_t points = 0;
    bool hang = false;
    std::string hang_why;
};

// runs the spawned foreground fibers to completion under control; returns when all are done
ExploreOut explore_run(const std::vector<int>& fibers, const ExploreCfg& cfg,
                       const Dev* devs, int ndevs);

// pc filter shared between processes (MAP_SHARED); active = points enabled this round,
// found = conflicting pcs seen so far
struct PcFilter {
    static constexpr uint32_t N = 1u << 16;
    uint8_t active[N];
    uint8_t found[N];
    uint8_t all;                   // treat every pc as active
};
void set_pc_filter(PcFilter* f);

// ---- failures ---------------------------------------------------------------
// called with a description when the runtime itself sees a violation
// (use after free, double free, hang, ...). Must not return for fatal ones.
using fail_fn = void (*)(const char* kind, const char* what);
void set_fail_handler(fail_fn f);
[[noreturn]] void fail(const char* kind, const std::string& what);

// ---- memory -----------------------------------------------------------------
void set_quarantine(bool on);      // freed blocks are never re-used and accesses are checked
size_t heap_used();
size_t live_blocks();
size_t live_bytes();
uint64_t steps();                  // scheduling points executed so far
void set_spin_limit(uint64_t n);
std::string describe_fibers();
} // namespace vt
