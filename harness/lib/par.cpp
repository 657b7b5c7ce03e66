#include "par.h"

#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <iostream>

#include "../../rt/rt.h"

namespace par {
Shared* S = nullptr;
static double T0;
static std::string CUR_PROG, CUR_SCHED;
static bool IN_JOB = false;

double now() {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
double started() { return T0; }
void die_with_parent() { prctl(PR_SET_PDEATHSIG, SIGKILL); }
void set_in_job() { IN_JOB = true; }

static void on_fail(const char* kind, const char* what) {
    if (!IN_JOB) return;
    violation(kind, what);
    _exit(42);
}

void setup() {
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    T0 = now();
    vt::set_fail_handler(on_fail);
}
std::string extra() {
    std::string o;
    if (S->durable_pts) o += ",\"crash_points_judged\":" + std::to_string(S->durable_pts.load());
    if (S->refs) o += ",\"log_entries_judged\":" + std::to_string(S->refs.load());
    return o.empty() ? o : "\"extra\":{" + o.substr(1) + "}";
}
bool sig_known(uint64_t hh) {
    if (hh == 0) hh = 1;
    uint64_t i = hh & (Shared::SIGN - 1);
    for (int k = 0; k < 128; ++k, i = (i + 1) & (Shared::SIGN - 1)) {
        uint64_t v = S->sig[i].load(std::memory_order_relaxed);
        if (v == 0) return false;
        if (v == hh) return true;
    }
    return false;
}
bool sig_add(uint64_t hh) {
    if (hh == 0) hh = 1;
    uint64_t i = hh & (Shared::SIGN - 1);
    for (int k = 0; k < 128; ++k, i = (i + 1) & (Shared::SIGN - 1)) {
        uint64_t v = S->sig[i].load(std::memory_order_relaxed);
        if (v == hh) return false;
        if (v == 0) {
            if (S->sig[i].compare_exchange_strong(v, hh)) return true;
            if (v == hh) return false;
        }
    }
    return false;
}
uint64_t hash(const std::string& s, uint64_t seed) {
    uint64_t x = seed;
    for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; }
    x ^= x >> 29;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 32;
    return x;
}
void current(const std::string& program, const std::string& schedule) {
    CUR_PROG = program;
    CUR_SCHED = schedule;
}
void violation(const char* kind, const std::string& msg) {
    uint32_t i = S->nviol.fetch_add(1);
    if (i < Shared::MAXV) snprintf(S->viol[i], sizeof S->viol[i], "%s\n%s\n%s\n%s", kind, CUR_PROG.c_str(), CUR_SCHED.c_str(), msg.c_str());
    if (i + 1 >= 20 || i >= Shared::MAXV) S->stop = 1;
}
void sample(const std::string& s) {
    if (S->nsamples.load() >= 6) return;
    uint32_t i = S->nsamples.fetch_add(1);
    if (i < 6) snprintf(S->samples[i], sizeof S->samples[i], "%s", s.c_str());
}

int in_child(const std::function<void()>& fn, int cpu) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        IN_JOB = true;
        struct itimerval it{};
        it.it_value.tv_sec = cpu;
        setitimer(ITIMER_PROF, &it, nullptr); // SIGPROF ends the child
        fn();
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    return 128 + WTERMSIG(st);
}

struct ChildNote { char prog[3000]; char sched[3000]; };

bool run(uint64_t n, int workers, double deadline, const std::function<void(uint64_t)>& job, int cpu) {
    S->next_job = 0;
    std::vector<pid_t> w;
    fflush(nullptr);
    for (int k = 0; k < workers; ++k) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (;;) {
                if (S->stop.load()) _exit(0);
                if (now() - T0 > deadline) { S->timeout = 1; _exit(0); }
                uint64_t j = S->next_job.fetch_add(1);
                if (j >= n) _exit(0);
                uint64_t before = S->nviol.load();
                (void) before;
                // where a dying child says what it was doing
                static ChildNote* note = nullptr;
                if (!note) note = static_cast<ChildNote*>(mmap(nullptr, sizeof(ChildNote), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
                int rc = in_child([&] {
                    static ChildNote* nn;
                    nn = note;
                    auto h = [](int sig) {
                        snprintf(nn->prog, sizeof nn->prog, "%s", CUR_PROG.c_str());
                        snprintf(nn->sched, sizeof nn->sched, "%s", CUR_SCHED.c_str());
                        signal(sig, SIG_DFL);
                        raise(sig);
                    };
                    static char altstk[65536];
                    stack_t ss{};
                    ss.ss_sp = altstk;
                    ss.ss_size = sizeof altstk;
                    sigaltstack(&ss, nullptr);
                    struct sigaction sa{};
                    sa.sa_handler = h;
                    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
                    for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF}) sigaction(sg, &sa, nullptr);
                    job(j);
                }, cpu);
                if (rc == 0 || rc == 42) continue;
                if (rc > 128 && rc != 128 + SIGKILL) {
                    CUR_PROG = note->prog;
                    CUR_SCHED = note->sched;
                    int sg = rc - 128;
                    violation(sg == SIGPROF ? "hang" : "crash", sg == SIGPROF ? "execution does not finish" : std::string("engine terminated by signal ") + std::to_string(sg));
                    continue;
                }
                fprintf(stderr, "job %lu ended with code %d\n", (unsigned long) j, rc);
                S->stop = 2;
                _exit(3);
            }
        }
        w.push_back(pid);
    }
    bool bad = false;
    for (auto pid : w) {
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = true;
    }
    if (bad) {
        fprintf(stderr, "a worker process failed\n");
        exit(3);
    }
    return S->timeout.load() == 0;
}

void leave(int code) {
    std::cout.flush();
    fflush(nullptr);
    _exit(code);
}
std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

Args parse_args(int argc, char** argv) {
    Args a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto v = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", k.c_str()); exit(2); } return std::string(argv[++i]); };
        if (k == "--property") a.property = v();
        else if (k == "--out") a.out = v();
        else if (k == "--suite") a.suite = v();
        else if (k == "--replay") a.replay = v();
        else if (k == "--mode") a.mode = v();
        else if (k == "--deadline") a.deadline = std::stod(v());
        else if (k == "--workers") a.workers = std::stoi(v());
        else if (k == "--iscan") a.iscan = v() == "1";
        else if (k == "--cap") a.cap = std::stoi(v());
        else if (k == "--bound") a.bound = std::stoi(v());
        else if (k == "--bgworkers") a.bgworkers = std::stoi(v());
        else a.rest.push_back(k);
    }
    return a;
}

int finish(const Args& a, bool complete, const std::string& rule, const std::string& extra) {
    FILE* f = a.out.empty() ? stdout : fopen(a.out.c_str(), "w");
    if (!f) { perror("out"); return 2; }
    fprintf(f, "{\"executions\":%lu,\"transitions\":%lu,\"states\":%lu,\"distinct\":%lu,\"nontrivial\":%lu,\"committed\":%lu,\"aborted\":%lu,\"waited\":%lu,\"aux\":%lu,\"aux2\":%lu,",
            S->executions.load(), S->transitions.load(), S->states.load(), S->distinct.load(), S->nontrivial.load(),
            S->committed.load(), S->aborted.load(), S->waited.load(), S->aux.load(), S->aux2.load());
    fprintf(f, "\"complete\":%s,\"rule\":%s,\"wall\":%.2f,", complete ? "true" : "false", jstr(rule).c_str(), now() - T0);
    if (!extra.empty()) fprintf(f, "%s,", extra.c_str());
    fprintf(f, "\"samples\":[");
    for (uint32_t i = 0; i < S->nsamples.load() && i < 6; ++i) fprintf(f, "%s%s", i ? "," : "", jstr(S->samples[i]).c_str());
    fprintf(f, "],\"violations\":[");
    uint32_t n = S->nviol.load();
    if (n > Shared::MAXV) n = Shared::MAXV;
    for (uint32_t i = 0; i < n; ++i) {
        std::string v = S->viol[i];
        std::vector<std::string> p;
        std::size_t pos = 0;
        for (int k = 0; k < 3; ++k) {
            auto e = v.find('\n', pos);
            if (e == std::string::npos) e = v.size();
            p.push_back(v.substr(pos, e - pos));
            pos = e < v.size() ? e + 1 : e;
        }
        p.push_back(v.substr(pos));
        fprintf(f, "%s{\"kind\":%s,\"program\":%s,\"schedule\":%s,\"message\":%s}", i ? "," : "", jstr(p[0]).c_str(), jstr(p[1]).c_str(), jstr(p[2]).c_str(), jstr(p[3]).c_str());
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return n ? 1 : 0;
}
} // namespace par
