// Controlled runtime. Compiled WITHOUT instrumentation.
#include "rt.h"

#include <map>
#include <cxxabi.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <deque>
#include <map>

extern "C" char __executable_start;
extern "C" void vt_switch_ctx(void** save_sp, void* new_sp);
asm(R"(
.text
.globl vt_switch_ctx
.type vt_switch_ctx,@function
vt_switch_ctx:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vt_switch_ctx,.-vt_switch_ctx
)");

namespace vt {

// ============================================================================
// heap
namespace heap {
static constexpr uintptr_t base = 0x100000000000ull;
static constexpr size_t span = 16ull << 30;
static constexpr uintptr_t shbase = 0x180000000000ull;
static uintptr_t cur = 0;
static bool quarantine = false;
static size_t nlive = 0, blive = 0;
enum : uint8_t { FRESH = 0, LIVE = 1, FREED = 0xFD, HDR = 0xFA };
struct Hdr { uint32_t magic; uint32_t off; uint64_t size; }; // off: distance from block start to user
static constexpr uint32_t MAGIC = 0xA110C8ED;
static void* bins[260];     // size classes of 16 bytes up to 4096
static void* big[48];       // power-of-two classes
static void init() {
    if (cur != 0) return;
    void* p = mmap((void*) base, span, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void* q = mmap((void*) shbase, span / 16, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != (void*) base || q != (void*) shbase) { abort(); }
    cur = base + 4096;
}
static inline uint8_t* sh(uintptr_t a) { return (uint8_t*) (shbase + ((a - base) >> 4)); }
static inline bool in(uintptr_t a) { return a - base < span; }
static int bigclass(size_t n) {
    int c = 12;
    while ((1ull << c) < n) ++c;
    return c;
}
static void* alloc(size_t n, size_t align = 16) {
    init();
    if (n == 0) n = 1;
    size_t r = (n + 15) & ~15ull;
    if (align <= 16) {
        void** slot = nullptr;
        if (r <= 4096) slot = &bins[r >> 4];
        else { r = 1ull << bigclass(r); slot = &big[bigclass(r)]; }
        if (!quarantine && *slot) {
            void* u = *slot;
            *slot = *(void**) u;
            Hdr* h = (Hdr*) u - 1;
            h->magic = MAGIC; h->size = n;
            memset(sh((uintptr_t) u), LIVE, r >> 4);
            ++nlive; blive += n;
            return u;
        }
        uintptr_t b = cur;
        cur += r + 16;
        if (cur > base + span) { static const char m[] = "vt heap exhausted\n"; (void) !write(2, m, sizeof m); _exit(97); }
        Hdr* h = (Hdr*) b;
        h->magic = MAGIC; h->off = 16; h->size = n;
        *sh(b) = HDR;
        memset(sh(b + 16), LIVE, r >> 4);
        ++nlive; blive += n;
        return (void*) (b + 16);
    }
    uintptr_t b = cur;
    uintptr_t u = (b + 16 + align - 1) & ~(align - 1);
    cur = u + r;
    if (cur > base + span) _exit(97);
    Hdr* h = (Hdr*) (u - 16);
    h->magic = MAGIC; h->off = 0; h->size = n;
    *sh(u - 16) = HDR;
    memset(sh(u), LIVE, r >> 4);
    ++nlive; blive += n;
    return (void*) u;
}
static size_t cap(Hdr* h) {
    size_t r = (h->size + 15) & ~15ull;
    if (r == 0) r = 16;
    if (h->off == 16 && r > 4096) r = 1ull << bigclass(r);
    return r;
}
static void release(void* p) {
    if (!p) return;
    uintptr_t u = (uintptr_t) p;
    if (!in(u)) return;
    Hdr* h = (Hdr*) u - 1;
    if (h->magic != MAGIC || *sh(u) != LIVE) {
        char b[96];
        snprintf(b, sizeof b, "free of invalid or already released block (state %02x)", *sh(u));
        fail("double-free", b);
    }
    size_t r = cap(h);
    --nlive; blive -= h->size;
    if (quarantine || h->off != 16) {
        memset(sh(u), FREED, r >> 4);
        memset(p, 0xDD, r > 2048 ? 2048 : r);
        return;
    }
    memset(sh(u), FREED, r >> 4);
    size_t rr = (h->size + 15) & ~15ull;
    void** slot;
    if (rr <= 4096) slot = &bins[rr >> 4];
    else slot = &big[bigclass(rr)];
    *(void**) p = *slot;
    *slot = p;
}
} // namespace heap

void set_quarantine(bool on) {
    heap::init();
    heap::quarantine = on;
}
size_t heap_used() { return heap::cur - heap::base; }
size_t live_blocks() { return heap::nlive; }
size_t live_bytes() { return heap::blive; }

// ============================================================================
// fibers
enum State : uint8_t { RUN, SLEEP, BLOCK, DONE };
static constexpr int MAXF = 64;
static constexpr size_t STK = 512 * 1024;
struct Fiber {
    void* sp = nullptr;
    char* stack = nullptr;
    State st = DONE;
    bool bg = false;
    bool yielded = false;
    bool used = false;
    const void* waiting = nullptr;
    const char* why = "";
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    std::function<void()>* func = nullptr;
    uint64_t eh[2] = {0, 0};
    int budget = 0;
    bool joined = false;
    int prio = 0;
    uintptr_t lastpc = 0;
    const char* name = "";
};
static Fiber F[MAXF];
static int NF = 1;
static int CUR = 0;
static int EPF = -1;
static int NOPRE = 0;
static uint64_t STEPS = 0;
static bool inited_main = false;
static void ensure_main() {
    if (!inited_main) {
        inited_main = true;
        F[0].st = RUN;
        F[0].used = true;
        F[0].name = "main";
    }
}
static fail_fn FAILH = nullptr;
void set_fail_handler(fail_fn f) { FAILH = f; }
static bool FAILING = false;
void fail(const char* kind, const std::string& what) {
    if (!FAILING) {
        FAILING = true;
        if (FAILH) FAILH(kind, what.c_str());
    }
    fprintf(stderr, "vt: %s: %s\n", kind, what.c_str());
    _exit(96);
}
uint64_t steps() { return STEPS; }
int current() { return CUR; }
int fiber_count() { return NF; }
bool fiber_done(int id) { return F[id].st == DONE; }
void note_epoch_fiber() { if (F[CUR].bg) EPF = CUR; }
int epoch_fiber() { return EPF; }
std::string describe_fibers() {
    std::string s;
    char b[200];
    for (int i = 0; i < NF; ++i) {
        if (!F[i].used || (F[i].st == DONE && i != 0)) continue;
        static const char* sn[] = {"run", "sleep", "block", "done"};
        snprintf(b, sizeof b, "[%d:%s %s%s%s pc=%lx] ", i, F[i].name, sn[F[i].st], F[i].st == BLOCK ? "/" : "",
                 F[i].st == BLOCK ? F[i].why : (F[i].yielded ? " spinning" : ""), (unsigned long) F[i].lastpc);
        s += b;
    }
    return s;
}

// mode
enum Mode : uint8_t { DIRECT, EXPL };
static Mode MODE = DIRECT;
static int ROUND_TARGET = -1;      // direct: run this fiber until it sleeps/blocks/ends
static int ROUND_CALLER = -1;
static uint64_t SPIN = 0, SPIN_LIMIT = 40000;
static int ROT = 0;
void set_spin_limit(uint64_t n) { SPIN_LIMIT = n; SPIN = 0; }

// exploration state
static ExploreCfg CFG;
static std::vector<int> FG;
static const Dev* DEVS = nullptr;
static int NDEVS = 0, DEVI = 0;
static ExploreOut* OUT = nullptr;
static uint32_t PCNT = 0;
static int FORCED = 0;
static PcFilter* PCF = nullptr;
static bool TRACE = false;
void set_pc_filter(PcFilter* f) { PCF = f; TRACE = getenv("VT_TRACE") != nullptr; }

static void do_switch(int to) {
    if (to == CUR) return;
    int from = CUR;
    uint64_t* g = (uint64_t*) abi::__cxa_get_globals();
    F[from].eh[0] = g[0]; F[from].eh[1] = g[1];
    g[0] = F[to].eh[0]; g[1] = F[to].eh[1];
    CUR = to;
    if (TRACE && MODE == EXPL)
        fprintf(stderr, "TRACE p=%u %s(%d)@%lx -> %s(%d)@%lx\n", PCNT, F[from].name, from, (unsigned long) F[from].lastpc,
                F[to].name, to, (unsigned long) F[to].lastpc);
    vt_switch_ctx(&F[from].sp, F[to].sp);
}

enum Reason : uint8_t { PREEMPT, YIELD, BLOCKED, SLEEPING, FINISHED };

static bool all_fg_done() {
    for (int f : FG) if (F[f].st != DONE) return false;
    return true;
}

static int direct_next(Reason r) {
    // a round in progress
    if (ROUND_TARGET >= 0) {
        int t = ROUND_TARGET;
        if (CUR == t && (r == SLEEPING || r == FINISHED)) {
            ROUND_TARGET = -1;
            int c = ROUND_CALLER;
            ROUND_CALLER = -1;
            return c;
        }
        if (r == YIELD || r == BLOCKED || r == SLEEPING || r == FINISHED) {
            // the target (or a helper) waits: run any other runnable fiber but the caller
            ++SPIN;
            if (SPIN > SPIN_LIMIT) fail("hang", "background round does not finish: " + describe_fibers());
            for (int k = 0; k < NF; ++k) {
                ROT = (ROT + 1) % NF;
                if (ROT == CUR || ROT == ROUND_CALLER) continue;
                if (F[ROT].st == RUN) return ROT;
            }
            if (F[CUR].st == RUN) return CUR;
            // nothing but the caller can run: give up the round, the target continues later
            for (int k = 0; k < NF; ++k) {
                ROT = (ROT + 1) % NF;
                if (ROT == ROUND_CALLER || ROT == t) continue;
                if (F[ROT].st == SLEEP) { F[ROT].st = RUN; return ROT; }
            }
            ROUND_TARGET = -1;
            int c = ROUND_CALLER;
            ROUND_CALLER = -1;
            return c;
        }
        return CUR;
    }
    if (r == PREEMPT) return CUR;
    ++SPIN;
    if (SPIN > SPIN_LIMIT) fail("hang", "call does not return: " + describe_fibers());
    if (CUR != 0 && F[0].st == RUN) { F[0].yielded = false; return 0; }
    for (int k = 0; k < NF; ++k) {
        ROT = (ROT + 1) % NF;
        if (ROT == CUR) continue;
        if (F[ROT].st == RUN) return ROT;
    }
    for (int k = 0; k < NF; ++k) {
        ROT = (ROT + 1) % NF;
        if (ROT == CUR && r == SLEEPING) continue;
        if (F[ROT].st == SLEEP) { F[ROT].st = RUN; return ROT; }
    }
    if (F[CUR].st == RUN) return CUR;
    if (F[CUR].st == SLEEP) { F[CUR].st = RUN; return CUR; }
    fail("deadlock", "no thread can run: " + describe_fibers());
}

static int explore_next(Reason r) {
    if (r == PREEMPT && NOPRE) return CUR;
    if (r == FINISHED && all_fg_done()) { return 0; }
    if (++STEPS > 40000000ull) fail("hang", "step limit: " + describe_fibers());
    int cand[MAXF];
    int n = 0;
    if (r == PREEMPT) cand[n++] = CUR;
    for (int f : FG)
        if (f != CUR && F[f].st == RUN && !F[f].yielded) cand[n++] = f;
    for (int f = 1; f < NF; ++f)
        if (f != CUR && F[f].bg && F[f].st == RUN && !F[f].yielded) cand[n++] = f;
    if (EPF >= 0 && EPF != CUR && F[EPF].st == SLEEP && F[EPF].budget > 0) cand[n++] = EPF;
    for (int f = 1; f < NF; ++f)
        if (f != CUR && f != EPF && F[f].bg && F[f].st == SLEEP && F[f].budget > 0) cand[n++] = f;
    if (n == 0) {
        // nobody can make progress by itself: spinning fibers get another look, sleepers wake
        ++FORCED;
        if (FORCED > 4000) {
            fail("hang", "no progress: " + describe_fibers());
        }
        bool woke = false;
        for (int k = 0; k < NF; ++k) {
            ROT = (ROT + 1) % NF;
            if (F[ROT].bg && F[ROT].st == SLEEP) { F[ROT].st = RUN; F[ROT].yielded = false; woke = true; cand[n++] = ROT; break; }
        }
        (void) woke;
        for (int f = 1; f < NF; ++f) F[f].yielded = false;
        if (n == 0) {
            for (int f : FG) if (F[f].st == RUN && (f != CUR || r == YIELD)) { cand[n++] = f; }
            for (int f = 1; f < NF; ++f) if (F[f].bg && F[f].st == RUN) cand[n++] = f;
        }
        if (n == 0) fail("deadlock", "no thread can run: " + describe_fibers());
        n = 1;
    }
    int alt = 0;
    if (n > 1) {
        uint32_t p = PCNT++;
        if (OUT) OUT->alts.push_back((uint8_t) n);
        if (p >= CFG.max_points) fail("hang", "horizon reached: " + describe_fibers());
        if (DEVI < NDEVS && DEVS[DEVI].point == p) {
            alt = (int) DEVS[DEVI].alt;
            ++DEVI;
            if (alt >= n) fail("replay-divergence", "alternative out of range");
        }
    }
    int f = cand[alt];
    if (F[f].st == SLEEP) { --F[f].budget; F[f].st = RUN; }
    F[f].yielded = false;
    return f;
}

static void resched(Reason r) {
    ensure_main();
    int n = (MODE == DIRECT) ? direct_next(r) : explore_next(r);
    do_switch(n);
}
static void clear_yields() {
    for (int f = 0; f < NF; ++f)
        if (f != CUR) F[f].yielded = false;
}

static void fiber_main() {
    Fiber& f = F[CUR];
    if (f.func) {
        (*f.func)();
    } else {
        f.ret = f.fn(f.arg);
    }
    f.st = DONE;
    for (int i = 0; i < NF; ++i)
        if (F[i].st == BLOCK && F[i].waiting == &f) { F[i].st = RUN; F[i].waiting = nullptr; }
    clear_yields();
    resched(FINISHED);
    // explore: all foreground done -> main
    fail("internal", "finished fiber resumed");
}
static void fiber_entry() { fiber_main(); }

static uintptr_t STKNEXT = 0x190000000000ull;
static std::vector<char*>* FREESTK = nullptr;
static int new_fiber() {
    ensure_main();
    int id = -1;
    for (int i = 1; i < NF; ++i)
        if (!F[i].used) { id = i; break; }
    if (id < 0) {
        if (NF >= MAXF) fail("internal", "too many fibers");
        id = NF++;
    }
    char* keep = F[id].stack;
    F[id] = Fiber{};
    F[id].stack = keep;
    if (!F[id].stack) {
        void* p = mmap((void*) STKNEXT, STK, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        STKNEXT += STK + 65536;
        F[id].stack = (char*) p;
    }
    uintptr_t* sp = (uintptr_t*) (F[id].stack + STK - 64);
    *--sp = 0;                       // alignment / fake return
    *--sp = (uintptr_t) &fiber_entry; // ret target
    for (int i = 0; i < 6; ++i) *--sp = 0;
    F[id].sp = sp;
    F[id].st = RUN;
    F[id].used = true;
    return id;
}
int spawn(std::function<void()> fn, const char* name) {
    int id = new_fiber();
    F[id].func = new std::function<void()>(std::move(fn));
    F[id].bg = false;
    F[id].name = name;
    return id;
}

void round(int mask) {
    if (MODE != DIRECT) fail("internal", "round in explore mode");
    SPIN = 0;
    int nf = NF;
    std::vector<int> t;
    if ((mask & 1) && EPF >= 0) t.push_back(EPF);
    for (int f = 1; f < nf; ++f)
        if (F[f].used && F[f].bg && ((f == EPF) ? false : (mask & 2) != 0)) t.push_back(f);
    if ((mask & 1) && EPF < 0)
        for (int f = 1; f < nf; ++f)
            if (F[f].used && F[f].bg) t.push_back(f);
    for (int f : t) {
        if (F[f].st != SLEEP && F[f].st != RUN) continue;
        F[f].st = RUN;
        ROUND_TARGET = f;
        ROUND_CALLER = CUR;
        do_switch(f);
        ROUND_TARGET = -1;
    }
    SPIN = 0;
}

no_preempt::no_preempt() { ++NOPRE; }
no_preempt::~no_preempt() { --NOPRE; }

// ---- conflict tracking --------------------------------------------------------
struct Loc { uintptr_t key; uint32_t rd, wr; uint16_t pcs[8]; uint8_t npc; bool conf; };
static constexpr uint32_t LOCN = 1u << 15;
static Loc LOCS[LOCN];
static inline uint16_t pcidx(uintptr_t pc) {
    uintptr_t o = pc - (uintptr_t) &__executable_start;
    return (uint16_t) ((o * 0x9E3779B97F4A7C15ull) >> 48);
}
static inline void track(uintptr_t a, bool w, uint16_t pi) {
    uintptr_t k = (a >> 3) + 1;
    uint32_t h = (uint32_t) ((k * 0x9E3779B97F4A7C15ull) >> 49) & (LOCN - 1);
    for (uint32_t i = 0; i < 64; ++i, h = (h + 1) & (LOCN - 1)) {
        Loc& l = LOCS[h];
        if (l.key == 0) l.key = k;
        if (l.key != k) continue;
        uint32_t me = 1u << (CUR & 31);
        if (w) l.wr |= me; else l.rd |= me;
        if (!l.conf) {
            uint32_t allm = l.rd | l.wr;
            if (l.wr && (allm & (allm - 1))) {
                l.conf = true;
                for (int i2 = 0; i2 < l.npc; ++i2) PCF->found[l.pcs[i2]] = 1;
            } else {
                bool have = false;
                for (int i2 = 0; i2 < l.npc; ++i2) have |= l.pcs[i2] == pi;
                if (!have && l.npc < 8) l.pcs[l.npc++] = pi;
            }
        }
        if (l.conf && !PCF->found[pi]) PCF->found[pi] = 1;
        return;
    }
}

static inline void vpoint(const void* addr, bool write, uintptr_t pc) {
    if (__builtin_expect(MODE != EXPL, 1)) { F[CUR].lastpc = pc; return; }
    F[CUR].lastpc = pc;
    if (PCF) {
        uint16_t pi = pcidx(pc);
        track((uintptr_t) addr, write, pi);
        if (!PCF->all && !PCF->active[pi]) { if (write) clear_yields(); return; }
    }
    resched(PREEMPT);
    if (write) clear_yields();
}
void point(const void* addr, bool write, unsigned site) {
    vpoint(addr, write, (uintptr_t) &__executable_start + 0x7f000000ull + site * 16);
}

ExploreOut explore_run(const std::vector<int>& fibers, const ExploreCfg& cfg, const Dev* devs, int ndevs) {
    ExploreOut out;
    CFG = cfg;
    FG = cfg.order.empty() ? fibers : cfg.order;
    DEVS = devs; NDEVS = ndevs; DEVI = 0;
    out.alts.reserve(4096);
    OUT = &out;
    PCNT = 0;
    FORCED = 0;
    STEPS = 0;
    for (int f = 1; f < NF; ++f) {
        if (!F[f].bg) continue;
        F[f].budget = (f == EPF) ? cfg.bg_budget_epoch : cfg.bg_budget_other;
    }
    MODE = EXPL;
    F[0].st = BLOCK;
    F[0].why = "explore";
    // first choice: which foreground fiber starts
    int n = explore_next(BLOCKED);
    do_switch(n);
    // back in main: all foreground fibers finished
    MODE = DIRECT;
    F[0].st = RUN;
    OUT = nullptr;
    out.points = PCNT;
    if (DEVI != NDEVS) fail("replay-divergence", "schedule shorter than the recorded one");
    for (int f : FG) { delete F[f].func; F[f].func = nullptr; F[f].used = false; }
    SPIN = 0;
    return out;
}

// ============================================================================
// blocking primitives
static void block_on(const void* a, const char* why) {
    F[CUR].st = BLOCK;
    F[CUR].waiting = a;
    F[CUR].why = why;
    resched(BLOCKED);
}
static void wake(const void* a) {
    for (int i = 0; i < NF; ++i)
        if (F[i].st == BLOCK && F[i].waiting == a) { F[i].st = RUN; F[i].waiting = nullptr; }
    clear_yields();
}

struct Mtx { int owner; int count; };
static Mtx* M(pthread_mutex_t* m) { return reinterpret_cast<Mtx*>(m); }
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == 1; }
struct RW { int writer; int readers; };
static RW* R(pthread_rwlock_t* m) { return reinterpret_cast<RW*>(m); }

static void check_access(uintptr_t a, size_t n, uintptr_t pc, bool w) {
    if (!heap::in(a)) return;
    uint8_t s = *heap::sh(a);
    if (s == heap::LIVE) {
        if (n > 1) {
            uint8_t s2 = *heap::sh(a + n - 1);
            if (s2 == heap::LIVE) return;
            s = s2;
        } else return;
    }
    if (s == heap::FRESH) return;
    char b[160];
    snprintf(b, sizeof b, "%s of %zu bytes at pc=%lx in %s", w ? "write" : "read", n, (unsigned long) pc,
             s == heap::FREED ? "a released block" : "a block header");
    F[CUR].lastpc = pc;
    fail(s == heap::FREED ? "use-after-free" : "out-of-bounds", std::string(b) + " by thread " + F[CUR].name);
}
} // namespace vt

using namespace vt;

#define PC ((uintptr_t) __builtin_return_address(0))

extern "C" {

// ---- heap --------------------------------------------------------------------
void* malloc(size_t n) { return heap::alloc(n); }
void free(void* p) { heap::release(p); }
void* calloc(size_t a, size_t b) {
    void* p = heap::alloc(a * b);
    memset(p, 0, a * b);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return heap::alloc(n);
    heap::Hdr* h = (heap::Hdr*) p - 1;
    void* q = heap::alloc(n);
    memcpy(q, p, h->size < n ? h->size : n);
    heap::release(p);
    return q;
}
void* memalign(size_t a, size_t n) { return heap::alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return heap::alloc(n, a); }
int posix_memalign(void** o, size_t a, size_t n) {
    *o = heap::alloc(n, a);
    return 0;
}
void* valloc(size_t n) { return heap::alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((heap::Hdr*) p - 1)->size : 0; }

// ---- threads -----------------------------------------------------------------
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    int id = new_fiber();
    F[id].fn = fn;
    F[id].arg = arg;
    F[id].bg = true;
    F[id].name = "bg";
    *t = (pthread_t) (id + 1);
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    int id = (int) t - 1;
    while (F[id].st != DONE) block_on(&F[id], "join");
    if (ret) *ret = F[id].ret;
    F[id].used = false;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return (pthread_t) (CUR + 1); }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int pthread_getname_np(pthread_t, char* b, size_t n) { if (n) b[0] = 0; return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int sched_yield(void) { vt_pause(); return 0; }

// ---- mutex -------------------------------------------------------------------
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    int ty = 0;
    if (a) { pthread_mutexattr_gettype(a, &ty); m->__data.__kind = ty; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    uintptr_t pc = PC;
    check_access((uintptr_t) m, 8, pc, true);
    vpoint(m, true, pc);
    Mtx* x = M(m);
    if (x->owner == CUR + 1 && recursive(m)) { ++x->count; return 0; }
    while (x->owner != 0) {
        if (x->owner == CUR + 1) fail("deadlock", "thread locks a mutex it already holds");
        block_on(m, "mutex");
    }
    x->owner = CUR + 1;
    x->count = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    uintptr_t pc = PC;
    check_access((uintptr_t) m, 8, pc, true);
    vpoint(m, true, pc);
    Mtx* x = M(m);
    if (x->owner == CUR + 1 && recursive(m)) { ++x->count; return 0; }
    if (x->owner != 0) return EBUSY;
    x->owner = CUR + 1;
    x->count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    Mtx* x = M(m);
    if (--x->count > 0) return 0;
    x->count = 0;
    x->owner = 0;
    wake(m);
    return 0;
}
// ---- rwlock ------------------------------------------------------------------
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    uintptr_t pc = PC;
    check_access((uintptr_t) m, 8, pc, true);
    vpoint(m, true, pc);
    RW* x = R(m);
    while (x->writer != 0) {
        if (x->writer == CUR + 1) fail("deadlock", "thread read-locks a lock it holds exclusively");
        block_on(m, "rwlock(r)");
    }
    ++x->readers;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    vpoint(m, true, PC);
    RW* x = R(m);
    if (x->writer) return EBUSY;
    ++x->readers;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    uintptr_t pc = PC;
    check_access((uintptr_t) m, 8, pc, true);
    vpoint(m, true, pc);
    RW* x = R(m);
    while (x->writer != 0 || x->readers != 0) {
        if (x->writer == CUR + 1) fail("deadlock", "thread write-locks a lock it already holds exclusively");
        block_on(m, "rwlock(w)");
    }
    x->writer = CUR + 1;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    vpoint(m, true, PC);
    RW* x = R(m);
    if (x->writer || x->readers) return EBUSY;
    x->writer = CUR + 1;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    RW* x = R(m);
    if (x->writer) x->writer = 0;
    else if (x->readers) --x->readers;
    wake(m);
    return 0;
}
// ---- spin lock -----------------------------------------------------------------
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
    vpoint((void*) l, true, PC);
    while (*l) block_on((void*) l, "spinlock");
    *l = 1;
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
    vpoint((void*) l, true, PC);
    if (*l) return EBUSY;
    *l = 1;
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) { *l = 0; wake((void*) l); return 0; }
// ---- condition variables ---------------------------------------------------------
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    pthread_mutex_unlock(m);
    block_on(c, "cond");
    pthread_mutex_lock(m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m); }
// timed waits: treated as a sleep that may end by signal or by time
static int cond_timed(pthread_cond_t* c, pthread_mutex_t* m) {
    pthread_mutex_unlock(m);
    F[CUR].waiting = c;
    if (F[CUR].bg) { F[CUR].st = SLEEP; resched(SLEEPING); }
    else { F[CUR].yielded = true; resched(YIELD); F[CUR].yielded = false; }
    bool timed = F[CUR].waiting == c;
    F[CUR].waiting = nullptr;
    pthread_mutex_lock(m);
    return timed ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_timed(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_timed(c, m); }
int pthread_cond_signal(pthread_cond_t* c) {
    for (int i = 0; i < NF; ++i)
        if (F[i].waiting == c && (F[i].st == BLOCK || F[i].st == SLEEP)) { F[i].st = RUN; F[i].waiting = nullptr; break; }
    clear_yields();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    for (int i = 0; i < NF; ++i)
        if (F[i].waiting == c && (F[i].st == BLOCK || F[i].st == SLEEP)) { F[i].st = RUN; F[i].waiting = nullptr; }
    clear_yields();
    return 0;
}
// ---- time ----------------------------------------------------------------------
static int vt_sleep() {
    if (F[CUR].bg) { F[CUR].st = SLEEP; clear_yields(); resched(SLEEPING); }
    else vt_pause();
    return 0;
}
int nanosleep(const struct timespec*, struct timespec*) { return vt_sleep(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return vt_sleep(); }
int usleep(useconds_t) { return vt_sleep(); }
unsigned sleep(unsigned) { vt_sleep(); return 0; }
void vt_pause(void) {
    F[CUR].lastpc = PC;
    F[CUR].yielded = true;
    resched(YIELD);
    F[CUR].yielded = false;
}
// ---- static initialisation guards --------------------------------------------------
int __cxa_guard_acquire(uint64_t* g) {
    if (*(char*) g) return 0;
    ++NOPRE;
    return 1;
}
void __cxa_guard_release(uint64_t* g) { *(char*) g = 1; --NOPRE; }
void __cxa_guard_abort(uint64_t*) { --NOPRE; }

// ---- instrumentation entry points ----------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
static inline void plain(void* a, size_t n, bool w, uintptr_t pc) {
    check_access((uintptr_t) a, n, pc, w);
    if (__builtin_expect(MODE == EXPL && CFG.plain_points, 0)) {
        uintptr_t x = (uintptr_t) a;
        if (x - (uintptr_t) 0x190000000000ull < 0x10000000000ull) return; // fiber stacks
        vpoint(a, w, pc);
    }
}
#define RW_(n)                                                                    \
    void __tsan_read##n(void* a) { plain(a, n, false, PC); }                      \
    void __tsan_write##n(void* a) { plain(a, n, true, PC); }                      \
    void __tsan_volatile_read##n(void* a) { plain(a, n, false, PC); }             \
    void __tsan_volatile_write##n(void* a) { plain(a, n, true, PC); }             \
    void __tsan_unaligned_read##n(void* a) { plain(a, n, false, PC); }            \
    void __tsan_unaligned_write##n(void* a) { plain(a, n, true, PC); }            \
    void __tsan_unaligned_volatile_read##n(void* a) { plain(a, n, false, PC); }   \
    void __tsan_unaligned_volatile_write##n(void* a) { plain(a, n, true, PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_vptr_update(void** a, void*) { plain(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { plain(a, 8, false, PC); }
void __tsan_read_range(void* a, size_t n) { if (n) plain(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) plain(a, n, true, PC); }

#define AT(bits, T)                                                                                          \
    T __tsan_atomic##bits##_load(const volatile T* a, int) {                                                 \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, false); vpoint((const void*) a, false, pc); return *(const T*) a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                              \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); *(T*) a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                              \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); T o = *(T*) a; *(T*) a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                                             \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); T o = *(T*) a; *(T*) a = (T) (o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                                             \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); T o = *(T*) a; *(T*) a = (T) (o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                                             \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); T o = *(T*) a; *(T*) a = (T) (o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                              \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); T o = *(T*) a; *(T*) a = (T) (o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                                             \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); T o = *(T*) a; *(T*) a = (T) (o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) {                                            \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); T o = *(T*) a; *(T*) a = (T) ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                  \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); \
        T o = *(T*) a; if (o == *c) { *(T*) a = v; return 1; } *c = o; return 0; }                            \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                    \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); \
        T o = *(T*) a; if (o == *c) { *(T*) a = v; return 1; } *c = o; return 0; }                            \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                        \
        uintptr_t pc = PC; check_access((uintptr_t) a, bits / 8, pc, true); vpoint((const void*) a, true, pc); \
        T o = *(T*) a; if (o == c) { *(T*) a = v; } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// byte copies made by the engine (its objects are linked with these names)
void* vt_memcpy(void* d, const void* s, size_t n) {
    if (n) { uintptr_t pc = PC; plain(const_cast<void*>(s), n, false, pc); plain(d, n, true, pc + 1); }
    return memcpy(d, s, n);
}
void* vt_memmove(void* d, const void* s, size_t n) {
    if (n) { uintptr_t pc = PC; plain(const_cast<void*>(s), n, false, pc); plain(d, n, true, pc + 1); }
    return memmove(d, s, n);
}
int vt_memcmp(const void* d, const void* s, size_t n) {
    if (n) { uintptr_t pc = PC; plain(const_cast<void*>(s), n, false, pc); plain(const_cast<void*>(d), n, false, pc + 1); }
    return memcmp(d, s, n);
}
void* vt_memset(void* d, int c, size_t n) {
    if (n) plain(d, n, true, PC);
    return memset(d, c, n);
}

// tree containers: the parts that live in the library (not instrumented there)
void vt_rb_insert(bool left, std::_Rb_tree_node_base* x, std::_Rb_tree_node_base* p, std::_Rb_tree_node_base& h) {
    uintptr_t pc = PC;
    plain(&p->_M_left, 16, true, pc);
    plain(&h._M_parent, 24, true, pc + 1);
    std::_Rb_tree_insert_and_rebalance(left, x, p, h);
}
std::_Rb_tree_node_base* vt_rb_erase(std::_Rb_tree_node_base* z, std::_Rb_tree_node_base& h) {
    uintptr_t pc = PC;
    plain(&z->_M_parent, 24, true, pc);
    plain(&h._M_parent, 24, true, pc + 1);
    return std::_Rb_tree_rebalance_for_erase(z, h);
}
#define RB_(name, step)                                                             \
    std::_Rb_tree_node_base* vt_rb_##name(std::_Rb_tree_node_base* x) {             \
        plain(&x->_M_parent, 24, false, PC);                                        \
        return std::_Rb_tree_##step(x);                                             \
    }
RB_(inc, increment) RB_(cinc, increment) RB_(dec, decrement) RB_(cdec, decrement)
} // extern "C"

// called by glog headers when they are compiled with thread instrumentation
extern "C" void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) {}
