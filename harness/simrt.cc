#include "simrt.h"

#include <chrono>
#include <condition_variable>
#include <errno.h>
#include <mutex>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace simrt {
static uint64_t g_us = 1700000000ULL * 1000000;
static uint64_t g_yields = 0;
uint64_t yieldLimit = 2000000;
static std::vector<int> g_rand;
static size_t g_randPos = 0;
static uint64_t g_threads = 0;
static std::function<void()> g_idle;

void reset() {
    g_us = 1700000000ULL * 1000000;
    g_yields = 0;
    g_rand.clear();
    g_randPos = 0;
    g_threads = 0;
    g_idle = nullptr;
}
void advanceUs(uint64_t us) { g_us += us; }
uint64_t nowUs() { return g_us; }
void setRand(std::vector<int> s) { g_rand = s; g_randPos = 0; }
uint64_t threadsRequested() { return g_threads; }
void setIdle(std::function<void()> f) { g_idle = f; }
static void spin() {
    if (g_idle) { auto f = g_idle; f(); }
    if (++g_yields > yieldLimit) {
        fprintf(stderr, "simrt: single-threaded run spins forever\n");
        abort();
    }
}
} // namespace simrt

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    ++simrt::g_us;
    return time_point(duration_cast<duration>(microseconds(simrt::g_us)));
}
steady_clock::time_point steady_clock::now() noexcept {
    ++simrt::g_us;
    return time_point(duration_cast<duration>(microseconds(simrt::g_us)));
}
}
}
void thread::_M_start_thread(_State_ptr st, void (*)()) {
    // Threads never run here: the harness performs their work explicitly.
    ++simrt::g_threads;
    st.release();
    _M_id = id((pthread_t)0x1000 + simrt::g_threads);
}
void thread::join() { _M_id = id(); }
void thread::detach() { _M_id = id(); }
}

extern "C" {
int __real_pthread_setname_np(pthread_t, const char*);
int __wrap_pthread_setname_np(pthread_t, const char*) { return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) {
    ++simrt::g_us;
    tv->tv_sec = simrt::g_us / 1000000;
    tv->tv_usec = simrt::g_us % 1000000;
    return 0;
}
int __wrap_nanosleep(const struct timespec* r, struct timespec*) {
    simrt::g_us += r->tv_sec * 1000000ULL + r->tv_nsec / 1000 + 1;
    simrt::spin();
    return 0;
}
int __wrap_usleep(useconds_t us) {
    simrt::g_us += us + 1;
    simrt::spin();
    return 0;
}
int __wrap_sched_yield(void) {
    ++simrt::g_us;
    simrt::spin();
    return 0;
}
int __wrap_rand(void) {
    using namespace simrt;
    if (g_rand.empty()) return 0;
    return g_rand[g_randPos++ % g_rand.size()];
}
}
// Condition variables: a timed wait advances the clock, nobody can signal.
namespace std {
void condition_variable::wait(unique_lock<mutex>&) {
    simrt::spin();
}
void condition_variable::notify_all() noexcept {}
void condition_variable::notify_one() noexcept {}
}
extern "C" int __wrap_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                                             const struct timespec*) {
    simrt::g_us += 1000000;
    simrt::spin();
    return ETIMEDOUT;
}
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*,
                                             const struct timespec*) {
    simrt::g_us += 1000000;
    simrt::spin();
    return ETIMEDOUT;
}
