// Controlled scheduler: the code under test is compiled with -fsanitize=thread
// and linked against the runtime in thr.cc instead of libtsan, so that every
// atomic operation, lock operation and (optionally) plain memory access is a
// point at which the running thread can be preempted.  One thread runs at a
// time; explore() enumerates all schedules up to a bound on preemptions.
#pragma once
#include "mc.h"
#include "simrt.h"
#include <functional>
#include <string>
#include <vector>

namespace sched {
enum {
    LOCK = 1,        // mutex lock, condition variable operations
    UNLOCK = 2,      // after a mutex was released
    ATOMIC_RD = 4,
    ATOMIC_WR = 8,
    PLAIN = 16,      // plain accesses, except to the own stack
    USER = 32,       // sched::userPoint()
    ATOMIC = ATOMIC_RD | ATOMIC_WR,
    ALL = 63,
};
struct Options {
    int bound = 2;               // preemptions
    unsigned points = ALL;
    bool delay = false;          // deviating from round-robin at a blocking point costs one as well
    bool timers = false;         // a timed wait may also run out early, at the cost of one
    uint64_t spin = 0;           // steps after which a thread that does not yield is descheduled
    uint64_t maxSteps = 400000;  // per execution; beyond: no progress
};
// One execution under the given schedule.
class Run {
public:
    // Runs the functions concurrently; returns when all are finished.
    void go(const std::vector<std::function<void()>>& fns);
    // Position in the execution, usable as a timestamp inside the threads.
    static uint64_t now();
    struct Impl;
    Impl* im;
};
// Executes body under every schedule whose first preemption is at a position
// congruent to chunk modulo chunks.
void explore(mc::CaseCtx& ctx, const Options& o, uint64_t chunk, uint64_t chunks,
             const std::function<void(Run&)>& body);
// Number of executions of the last explore().
uint64_t executions();
// Whether this execution deviates from the default schedule.
bool preempted();
// Timed waits that ran out in the current execution.
uint64_t timeouts();
extern std::function<int()> randFn;   // if set, what rand() returns
void userPoint();
// While on, no choices: the default schedule is followed (for set-up inside of Run::go).
void quiet(bool on);
bool active();
int self();            // index of the calling thread, -1 outside of Run::go
}
