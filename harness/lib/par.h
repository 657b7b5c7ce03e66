// Parallel driver: numbered jobs are executed in forked children of prepared worker processes.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace par {
struct Shared {
    std::atomic<uint64_t> next_job;
    std::atomic<uint64_t> executions, transitions, states, distinct, nontrivial, committed, aborted, waited, durable_pts, refs, aux, aux2;
    std::atomic<uint32_t> nviol, stop, timeout, lock;
    static constexpr int MAXV = 64;
    char viol[MAXV][6000];     // kind \n program \n schedule \n message
    char samples[6][1500];
    std::atomic<uint32_t> nsamples;
    char scratch[8192];
    static constexpr uint64_t SIGN = 1u << 25;
    std::atomic<uint64_t> sig[SIGN];
};
extern Shared* S;
void setup();
// signature set; returns true when new
// counts that only some monitors have
std::string extra();
bool sig_known(uint64_t h);
bool sig_add(uint64_t h);
uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ull);

// what is being executed right now, reported when the child dies
void current(const std::string& program, const std::string& schedule);
// records a violation; the child goes on unless fatal
void violation(const char* kind, const std::string& msg);
void sample(const std::string& s);

// runs job numbers [0,n) on `workers` processes; every job in its own child; `deadline` wall seconds from start
// returns false when the deadline cut it short
bool run(uint64_t n, int workers, double deadline, const std::function<void(uint64_t)>& job, int cpu_limit_s = 60);
double now();
void die_with_parent();
void set_in_job();
double started();
// forks, runs fn, waits; returns exit code or 128+signal
int in_child(const std::function<void()>& fn, int cpu_limit_s = 60);

struct Args {
    std::string property, out, suite, replay, mode;
    double deadline{600};
    int workers{8};
    bool iscan{false};
    int cap{15};
    int bound{1};
    int bgworkers{1};
    std::vector<std::string> rest;
};
Args parse_args(int argc, char** argv);
// writes the result file; returns process exit code (0 or 1)
int finish(const Args& a, bool complete, const std::string& rule, const std::string& extra_json = "");
// ends the process without running engine destructors
[[noreturn]] void leave(int code);
std::string jstr(const std::string& s);
} // namespace par
