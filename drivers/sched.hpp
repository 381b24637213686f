// Controlled scheduler: the code under test is compiled with -fsanitize=thread (instrumentation only) and linked
// with the runtime in sched.cpp, which lets exactly one thread run at a time and decides at every synchronisation
// operation which one goes on. It also tracks happens-before and reports unordered conflicting accesses.
#pragma once
#include <cstdint>
#include <functional>

namespace sched {

enum mode { RANDOM = 0, PCT = 1, DFS = 2 };

struct plan {
    int mode = RANDOM;
    uint64_t seed = 1;
    int param = 50;         // RANDOM: percent chance to switch; PCT: number of change points
    bool spurious = false;  // wake waiting threads spuriously now and then
};

// Log file of the run; events are written in the order in which they happen.
void open_log(const char *path);
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void close_log();

// Run one execution of `body` (as the main thread) under the plan.
void execute(const plan &p, void (*body)(void *), void *arg);

// Depth-first enumeration of schedules with at most `preemptions` preemptions, at most `limit` executions.
// Returns the number of executions; *complete tells whether all were enumerated.
long enumerate(int preemptions, long limit, void (*body)(void *), void *arg, bool *complete, long (*before)(void *) = nullptr);

// Called by the body: block until no other thread can make a step.
void wait_idle();
// Scheduling point of the driver's own.
void point();
// Small id of the calling thread (0 is main).
int self();
// Sequence number of scheduling points in this execution.
long steps();

}
