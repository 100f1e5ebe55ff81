#include "thr.h"

#include <chrono>
#include <condition_variable>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <malloc.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" void __real_free(void*);

namespace simrt {
static uint64_t g_us = 1700000000ULL * 1000000;
static uint64_t g_yields = 0;
uint64_t yieldLimit = 2000000;
static std::vector<int> g_rand;
static size_t g_randPos = 0;
static uint64_t g_threads = 0;
void reset() {
    g_us = 1700000000ULL * 1000000;
    g_yields = 0;
    g_rand.clear();
    g_randPos = 0;
    g_threads = 0;
}
void advanceUs(uint64_t us) { g_us += us; }
uint64_t nowUs() { return g_us; }
void setRand(std::vector<int> s) { g_rand = s; g_randPos = 0; }
uint64_t threadsRequested() { return g_threads; }
void setIdle(std::function<void()>) {}
static void spin() {
    if (++g_yields > yieldLimit) {
        fprintf(stderr, "single-threaded run spins forever\n");
        abort();
    }
}
}

namespace sched {
enum State { IDLE, READY, YIELDED, BLOCKED, TIMED, DONE };
struct Dec { uint32_t mask, timed; uint8_t cur, chosen, forced; };
struct Slot {
    State st = IDLE;
    const void* waitOn = nullptr;     // mutex, condition variable or slot (join)
    bool signalled = false;
    bool main = false;
    std::function<void()> fn;
    char *lo = nullptr, *hi = nullptr;    // stack
    void* sp = nullptr;
    void* eh[2] = {nullptr, nullptr};     // exception handling state
};
// Threads are coroutines on one OS thread.
static const size_t STACK = 512 * 1024;
static const int MAXT = 16;
extern "C" void thrSwitch(void** save, void* to);
asm(R"(
.text
.globl thrSwitch
.type thrSwitch,@function
thrSwitch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
static void* mainSp;
static void* mainEh[2];
static Slot slots[MAXT];
static int nSlots = 0;
static int tSelf = -1;
static bool g_active = false;
std::function<int()> randFn;
static unsigned g_mask = 0;
static uint64_t g_steps = 0, g_maxSteps = 0, g_execs = 0, g_timeouts = 0;
static bool g_timers = false;
static std::vector<Dec> decs;
static std::vector<std::pair<uint32_t, uint8_t>> plan;   // position -> thread
static size_t planPos = 0;
static uint64_t g_spin = 0, g_since = 0;
static int mainsLeft = 0;
static bool failed = false;
static std::string failMsg;
static bool trace = false, g_quiet = false;
static const bool g_stack = getenv("SCHED_STACK") != nullptr;
struct Lock { int owner = -1, depth = 0; };
static std::unordered_map<const void*, Lock> locks;

bool active() { return g_active && tSelf >= 0; }
int self() { return tSelf; }
uint64_t executions() { return g_execs; }
bool preempted() { return !plan.empty(); }
uint64_t timeouts() { return g_timeouts; }
uint64_t Run::now() { return decs.size(); }

static void ehSwap(void** save, void** load) {
    void** g = (void**)abi::__cxa_get_globals();
    save[0] = g[0]; save[1] = g[1];
    g[0] = load[0]; g[1] = load[1];
}
static void toMain() {
    int me = tSelf;
    tSelf = -1;
    ehSwap(slots[me].eh, mainEh);
    thrSwitch(&slots[me].sp, mainSp);
}
static void fail(const std::string& m) {
    if (g_stack) { void* b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
    if (!failed) { failed = true; failMsg = m; }
    toMain();
    abort();
}
static uint32_t maskOf(State s) {
    uint32_t m = 0;
    for (int i = 0; i < nSlots; ++i) if (slots[i].st == s) m |= 1u << i;
    return m;
}
static void switchTo(int t) {
    int me = tSelf;
    g_since = 0;
    slots[t].st = READY;
    if (t == me) return;
    tSelf = t;
    ehSwap(slots[me].eh, slots[t].eh);
    thrSwitch(&slots[me].sp, slots[t].sp);
}
// Decides which thread continues.  forced: the current one cannot.
static void decide(bool forced) {
    uint32_t en = maskOf(READY), timed = 0;
    if (forced) {
        en &= ~(1u << tSelf);
        if (!en) en = (maskOf(YIELDED) | maskOf(TIMED));
        if (!en) {
            std::string m = "deadlock: all threads are blocked";
            fail(m);
        }
        // a yielding thread may continue itself only if nobody else can
        if (en & ~(1u << tSelf)) en &= ~(1u << tSelf);
    }
    // Timers may run out early, at the cost of a preemption.
    if (g_timers) { timed = maskOf(TIMED) & ~en & ~(1u << tSelf); }
    int def = tSelf;
    if (forced) {
        def = (tSelf + 1) % nSlots;
        while (!(en >> def & 1)) def = (def + 1) % nSlots;
    }
    if (g_quiet) { en = 1u << def; timed = 0; }
    int ch = def;
    if (planPos < plan.size() && plan[planPos].first == decs.size()) {
        ch = plan[planPos++].second;
        if (!((en | timed) >> ch & 1)) {
            fprintf(stderr, "sched: the execution is not deterministic\n");
            _exit(2);
        }
    }
    decs.push_back(Dec{en | timed, timed, (uint8_t)tSelf, (uint8_t)ch, (uint8_t)forced});
    if (ch == tSelf && !forced) return;
    if (trace) fprintf(stderr, "[%zu] T%d -> T%d%s\n", decs.size() - 1, tSelf, ch, forced ? " (forced)" : "");
    if (ch != tSelf && g_stack && !forced) {
        void* b[24]; int n = backtrace(b, 24); backtrace_symbols_fd(b, n, 2);
    }
    switchTo(ch);
}
static inline void point(unsigned kind) {
    if (!g_active || tSelf < 0) return;
    if (++g_steps > g_maxSteps) fail("no progress: the threads spin forever");
    if (kind & (ATOMIC_WR | UNLOCK))
        for (int i = 0; i < nSlots; ++i) if (slots[i].st == YIELDED) slots[i].st = READY;
    if (g_spin && ++g_since > g_spin) {
        // A busy loop that does not yield: let the others run.
        g_since = 0;
        int t = (tSelf + 1) % nSlots;
        while (t != tSelf && slots[t].st != READY && slots[t].st != YIELDED) t = (t + 1) % nSlots;
        if (t != tSelf) { switchTo(t); return; }
    }
    if ((kind & g_mask) && !g_quiet) decide(false);
}
void quiet(bool on) { g_quiet = on; }
void userPoint() { point(USER); }
static void yieldNow(uint64_t us) {
    simrt::g_us += us + 1;
    if (!active()) { simrt::spin(); return; }
    if (++g_steps > g_maxSteps) fail("no progress: the threads spin forever");
    slots[tSelf].st = YIELDED;
    decide(true);
    slots[tSelf].st = READY;
}
static void block(const void* on) {
    slots[tSelf].st = BLOCKED;
    slots[tSelf].waitOn = on;
    decide(true);
}
static void wake(const void* on, bool all = true) {
    for (int i = 0; i < nSlots; ++i)
        if ((slots[i].st == BLOCKED || slots[i].st == TIMED) && slots[i].waitOn == on) {
            slots[i].st = READY;
            slots[i].signalled = true;
            slots[i].waitOn = nullptr;
            if (!all) break;
        }
}

static void threadMain() {
    {
        Slot& s = slots[tSelf];
        try {
            s.fn();
        } catch (mc::Violation& v) {
            fail(v.msg);
        } catch (std::exception& e) {
            fail(std::string("uncaught exception: ") + e.what());
        }
        s.fn = nullptr;
        s.st = DONE;
        wake(&s);
        if (s.main) mainsLeft--;
    }
    bool left = false;
    for (int i = 0; i < nSlots; ++i) if (slots[i].st != DONE && slots[i].st != IDLE) left = true;
    if (!left) toMain();
    if (!(maskOf(READY) | maskOf(YIELDED) | maskOf(TIMED))) fail("deadlock: all threads are blocked");
    decide(true);
    abort();
}
static int newSlot(std::function<void()> fn, bool main) {
    int i = 0;
    while (i < nSlots && slots[i].st != IDLE) ++i;
    if (i == MAXT) { fprintf(stderr, "too many threads\n"); abort(); }
    if (i == nSlots) nSlots++;
    Slot& s = slots[i];
    s.fn = fn;
    s.main = main;
    s.st = READY;
    s.waitOn = nullptr;
    s.signalled = false;
    s.eh[0] = s.eh[1] = nullptr;
    if (!s.lo) {
        s.lo = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        s.hi = s.lo + STACK;
        mprotect(s.lo, 4096, PROT_NONE);
    }
    void** sp = (void**)(s.hi - 64);
    *--sp = nullptr;                  // keeps the stack aligned at function entry
    *--sp = (void*)threadMain;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    s.sp = sp;
    return i;
}

// ---- freed memory: kept until the end of the execution, accesses reported ----
static uint64_t* qTab = nullptr;      // open addressing set of 16-byte granules
static size_t qCap = 0, qN = 0;
static void** qBlocks = nullptr;
static size_t qBlocksN = 0, qBlocksCap = 0;
static inline size_t qHash(uint64_t g) { return (g * 0x9E3779B97F4A7C15ULL) >> 20; }
static void qInsert(uint64_t g) {
    size_t i = qHash(g) & (qCap - 1);
    while (qTab[i] && qTab[i] != g) i = (i + 1) & (qCap - 1);
    if (!qTab[i]) { qTab[i] = g; qN++; }
}
static bool qHas(uint64_t g) {
    size_t i = qHash(g) & (qCap - 1);
    while (qTab[i]) { if (qTab[i] == g) return true; i = (i + 1) & (qCap - 1); }
    return false;
}
static void quarantine(void* p) {
    size_t n = malloc_usable_size(p);
    uint64_t a = (uint64_t)p >> 4, e = ((uint64_t)p + n + 15) >> 4;
    if (n > 4096) e = a + 256;            // the beginning of big blocks
    if (!qCap) { qCap = 1 << 10; qTab = (uint64_t*)calloc(qCap, 8); }
    if (qN && qHas(a)) fail("memory is freed twice");
    if ((qN + (e - a)) * 2 > qCap) {
        uint64_t* o = qTab;
        size_t oc = qCap;
        qCap *= 4;
        qTab = (uint64_t*)calloc(qCap, 8);
        qN = 0;
        for (size_t i = 0; i < oc; ++i) if (o[i]) qInsert(o[i]);
        __real_free(o);
    }
    for (; a < e; ++a) qInsert(a);
    if (qBlocksN == qBlocksCap) {
        qBlocksCap = qBlocksCap ? 2 * qBlocksCap : 4096;
        qBlocks = (void**)realloc(qBlocks, qBlocksCap * sizeof(void*));
    }
    qBlocks[qBlocksN++] = p;
}
static void qRelease() {
    for (size_t i = 0; i < qBlocksN; ++i) __real_free(qBlocks[i]);
    qBlocksN = 0;
    if (qN) {
        if (qCap > (1 << 18)) { __real_free(qTab); qTab = nullptr; qCap = 0; }
        else memset(qTab, 0, qCap * 8);
    }
    qN = 0;
}
static inline void checkAddr(const void* p) {
    if (qN && qHas((uint64_t)p >> 4)) {
        fail("access to freed memory");
    }
}

void Run::go(const std::vector<std::function<void()>>& fns) {
    if (failed) {
        failed = false;
        failMsg.clear();
        qN = 0;
        if (qTab) memset(qTab, 0, qCap * 8);
        qBlocksN = 0;
    }
    locks.clear();
    for (int i = 0; i < MAXT; ++i) slots[i].st = IDLE;
    nSlots = 0;
    decs.clear();
    planPos = 0;
    g_steps = 0;
    g_timeouts = 0;
    mainsLeft = 0;
    for (auto& f : fns) { newSlot(f, true); mainsLeft++; }
    g_active = true;
    g_quiet = false;
    // The first thread is a free choice as well.
    int first = 0;
    if (planPos < plan.size() && plan[planPos].first == 0) first = plan[planPos++].second;
    decs.push_back(Dec{maskOf(READY), 0, 255, (uint8_t)first, 1});
    tSelf = first;
    g_since = 0;
    ehSwap(mainEh, slots[first].eh);
    thrSwitch(&mainSp, slots[first].sp);
    g_active = false;
    if (!failed)
        for (auto& l : locks) if (l.second.depth) { failed = true; failMsg = "a lock is still held at the end"; }
    if (failed) {
        std::string s;
        for (auto& d : plan) s += mc::fmt("%s@%u:T%d", s.empty() ? "" : " ", d.first, d.second);
        throw mc::Violation{failMsg + "  [schedule " + (s.empty() ? "default" : s) + "]"};
    }
    qRelease();
}

void explore(mc::CaseCtx& ctx, const Options& o, uint64_t chunk, uint64_t chunks,
             const std::function<void(Run&)>& body) {
    g_mask = o.points;
    g_maxSteps = o.maxSteps;
    g_spin = o.spin;
    g_timers = o.timers;
    g_execs = 0;
    trace = ctx.verbose && getenv("SCHED_TRACE");
    std::string d0 = ctx.desc;
    Run run;
    struct Rec {
        const Options& o; uint64_t chunk, chunks; const std::function<void(Run&)>& body;
        mc::CaseCtx& ctx; Run& run; std::string d0;
        uint64_t n = 0;
        void exec() {
            ctx.desc = d0;
            try {
                body(run);
            } catch (mc::Violation& v) {
                if (v.msg.find("[schedule") == std::string::npos) {
                    std::string s;
                    for (auto& d : plan) s += mc::fmt("%s@%u:T%d", s.empty() ? "" : " ", d.first, d.second);
                    throw mc::Violation{v.msg + "  [schedule " + (s.empty() ? "default" : s) + "]"};
                }
                throw;
            }
            ++g_execs;
            ctx.validated++;
            ctx.transitions += decs.size();
        }
        void rec(uint64_t last, int cost, bool top) {
            exec();
            std::vector<Dec> ds = decs;
            auto base = plan;
            for (uint64_t p = top ? 0 : last + 1; p < ds.size(); ++p) {
                const Dec& d = ds[p];
                for (int t = 0; t < MAXT; ++t) {
                    if (!(d.mask >> t & 1) || t == d.chosen) continue;
                    int c = cost + (d.forced && !o.delay && !(d.timed >> t & 1) ? 0 : 1);
                    if (c > o.bound) continue;
                    if (!cost && c && p % chunks != chunk) continue;
                    plan = base;
                    plan.push_back({(uint32_t)p, (uint8_t)t});
                    rec(p, c, false);
                }
            }
            plan = base;
        }
    };
    plan.clear();
    if (const char* s = ctx.verbose ? getenv("SCHED_PLAN") : nullptr) {
        // "@pos:Tn @pos:Tn": that schedule only
        unsigned p, t;
        int n = 0;
        while (sscanf(s, " @%u:T%u%n", &p, &t, &n) >= 2) { plan.push_back({p, (uint8_t)t}); s += n; }
        Rec r{o, chunk, chunks, body, ctx, run, d0};
        r.exec();
        return;
    }
    Rec r{o, chunk, chunks, body, ctx, run, d0};
    r.rec(0, 0, true);
    plan.clear();
}
} // namespace sched
using namespace sched;

// ---- threads, locks and time ------------------------------------------------
namespace std {
int schedCondWait(void*, pthread_mutex_t*, bool);
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    ++simrt::g_us;
    return time_point(duration_cast<duration>(microseconds(simrt::g_us)));
}
steady_clock::time_point steady_clock::now() noexcept {
    ++simrt::g_us;
    return time_point(duration_cast<duration>(microseconds(simrt::g_us)));
}
}
}
void thread::_M_start_thread(_State_ptr st, void (*)()) {
    ++simrt::g_threads;
    if (!sched::active()) {
        // Threads created outside of an execution never run.
        st.release();
        _M_id = id((pthread_t)0x1000);
        return;
    }
    _State* raw = st.release();
    int i = newSlot([raw]() { raw->_M_run(); delete raw; }, false);
    _M_id = id((pthread_t)(0x2000 + i));
    point(LOCK);
}
void thread::join() {
    pthread_t h;
    memcpy(&h, &_M_id, sizeof(h));
    _M_id = id();
    if ((uint64_t)h < 0x2000 || !sched::active()) return;
    Slot& s = slots[(uint64_t)h - 0x2000];
    while (s.st != DONE) block(&s);
}
void thread::detach() { _M_id = id(); }
void condition_variable::wait(unique_lock<mutex>& l) {
    if (!sched::active()) { simrt::spin(); return; }
    schedCondWait(this, l.mutex()->native_handle(), false);
}
void condition_variable::notify_all() noexcept {
    if (!sched::active()) return;
    point(LOCK);
    wake(this);
}
void condition_variable::notify_one() noexcept {
    if (!sched::active()) return;
    point(LOCK);
    wake(this, false);
}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
static bool ptry(pthread_mutex_t* m) {
    Lock& l = locks[m];
    if (l.depth && !(l.owner == tSelf && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP)) return false;
    l.owner = tSelf;
    l.depth++;
    return true;
}
static int plock(pthread_mutex_t* m) {
    while (!ptry(m)) block(m);
    return 0;
}
static int punlock(pthread_mutex_t* m) {
    Lock& l = locks[m];
    if (!l.depth || l.owner != tSelf) fail("a thread unlocks a mutex it does not hold");
    if (--l.depth == 0) wake(m);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!sched::active()) return __real_pthread_mutex_lock(m);
    checkAddr(m);
    point(LOCK);
    return plock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!sched::active()) return __real_pthread_mutex_trylock(m);
    checkAddr(m);
    point(LOCK);
    return ptry(m) ? 0 : EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!sched::active()) return __real_pthread_mutex_unlock(m);
    checkAddr(m);
    punlock(m);
    point(UNLOCK);
    return 0;
}
}
namespace std {
int schedCondWait(void* c, pthread_mutex_t* m, bool timed) {
    point(LOCK);
    punlock(m);
    Slot& s = slots[tSelf];
    s.signalled = false;
    s.st = timed ? TIMED : BLOCKED;
    s.waitOn = c;
    decide(true);
    bool sig = slots[tSelf].signalled;
    slots[tSelf].waitOn = nullptr;
    if (timed && !sig) { simrt::g_us += 1000000; ++g_timeouts; }
    plock(m);
    return sig ? 0 : ETIMEDOUT;
}
}
extern "C" {
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                                  const struct timespec*) {
    if (!sched::active()) { simrt::g_us += 1000000; simrt::spin(); return ETIMEDOUT; }
    return std::schedCondWait(c, m, true);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
    if (!sched::active()) { simrt::g_us += 1000000; simrt::spin(); return ETIMEDOUT; }
    return std::schedCondWait(c, m, true);
}
int __wrap_pthread_setname_np(pthread_t, const char*) { return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) {
    ++simrt::g_us;
    tv->tv_sec = simrt::g_us / 1000000;
    tv->tv_usec = simrt::g_us % 1000000;
    return 0;
}
int __wrap_nanosleep(const struct timespec* r, struct timespec*) {
    yieldNow(r->tv_sec * 1000000ULL + r->tv_nsec / 1000);
    return 0;
}
int __wrap_usleep(useconds_t us) { yieldNow(us); return 0; }
int __wrap_sched_yield(void) { yieldNow(0); return 0; }
int __wrap_rand(void) {
    using namespace simrt;
    if (randFn) return randFn();
    if (g_rand.empty()) return 0;
    return g_rand[g_randPos++ % g_rand.size()];
}
void __wrap_free(void* p) {
    if (p && sched::active()) { quarantine(p); return; }
    __real_free(p);
}
}
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

// ---- the runtime the instrumented code calls ---------------------------------
static inline void plain(const void* p) {
    if (!g_active || tSelf < 0) return;
    Slot& s = slots[tSelf];
    if ((char*)p >= s.lo && (char*)p < s.hi) return;
    checkAddr(p);
    if (g_mask & PLAIN) point(PLAIN);
}
static inline void aread(const volatile void* p) {
    if (!g_active || tSelf < 0) return;
    checkAddr((const void*)p);
    point(ATOMIC_RD);
}
static inline void awrite(const volatile void* p) {
    if (!g_active || tSelf < 0) return;
    checkAddr((const void*)p);
    point(ATOMIC_WR);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** vp, void* v) { plain(vp); }
void __tsan_vptr_read(void** vp) { plain(vp); }
#define RW(n) void __tsan_read##n(void* p) { plain(p); } void __tsan_write##n(void* p) { plain(p); } \
    void __tsan_unaligned_read##n(void* p) { plain(p); } void __tsan_unaligned_write##n(void* p) { plain(p); } \
    void __tsan_volatile_read##n(void* p) { plain(p); } void __tsan_volatile_write##n(void* p) { plain(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { plain(p); }
void __tsan_write_range(void* p, unsigned long) { plain(p); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T* a, int) { aread(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##n##_store(volatile T* a, T v, int) { awrite(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { awrite(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { awrite(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { awrite(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { awrite(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { awrite(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { awrite(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { awrite(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { awrite(a); \
    return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { awrite(a); \
    return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) { awrite(a); \
    __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
}
