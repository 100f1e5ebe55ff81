// BUILD: tseq
// INST
// P27: workers, event awaiters, the task pool and table writers never lose a wakeup.
#include "dbh.h"
#include "thr.h"
#include "event_awaiter.h"
#include "simple_thread_pool.h"
#include "worker_mgr.h"
#include "table_writer.h"
#include "db_mgr.h"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace dbh;
using mc::fmt;
namespace stp = simple_thread_pool;
namespace {
// Something to wait for without the classes under test, and without a time limit.
struct Gate {
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
    void up() { std::unique_lock<std::mutex> l(m); ++n; cv.notify_all(); }
    void until(int k) { std::unique_lock<std::mutex> l(m); while (n < k) cv.wait(l); }
};

// ---- event awaiter ----
// Waiter programs: w = wait, r = reset, t = timed wait; invoker programs: i = invoke.
template<class EA>
void awaiterCase(mc::CaseCtx& ctx, int rounds, int invokers, bool timed, bool pingpong, const sched::Options& o) {
    ctx.desc = fmt("%d rounds, %d invokers%s%s", rounds, invokers, timed ? ", timed" : "", pingpong ? ", handshake" : "");
    sched::explore(ctx, o, 0, 1, [&](sched::Run& run) {
        EA ea, back;
        // Items are published before invoke(); the waiter consumes all that it
        // sees after reset(), so that none may be left behind.
        std::atomic<int> items(0);
        int consumed = 0, waits = 0, early = 0;
        int total = invokers * rounds;
        std::vector<std::function<void()>> fns;
        fns.push_back([&]() {
            while (consumed < total) {
                uint64_t t0 = sched::timeouts();
                if (timed) ea.wait_ms(1000); else ea.wait();
                ++waits;
                ea.reset();
                int k = items.load();
                if (k == consumed && sched::timeouts() == t0) ++early;
                MC_CHECK(k <= total, "too many items");
                consumed = k;
                MC_CHECK(waits < 200, "wait() keeps returning");
                if (pingpong) back.invoke();
            }
        });
        for (int t = 0; t < invokers; ++t)
            fns.push_back([&]() {
                for (int r = 0; r < rounds; ++r) {
                    items.fetch_add(1);
                    ea.invoke();
                    if (pingpong) { back.wait(); back.reset(); }
                }
            });
        run.go(fns);
        MC_CHECK(consumed == total, "%d of %d items consumed", consumed, total);
        // A wait() that returned without a new item is owed to an invoke() whose
        // item an earlier round has already seen.
        MC_CHECK(early <= total, "%d of %d waits returned without any invoke()", early, waits);
        MC_CHECK(o.timers || !timed || sched::timeouts() == 0, "woken up by the time limit only");
        ctx.observe(waits);
        ctx.observe(sched::timeouts());
    });
    ctx.state();
}
// wait() must not return unless invoked.
template<class EA>
void blockCase(mc::CaseCtx& ctx, const sched::Options& o) {
    ctx.desc = "wait() returns only after invoke()";
    sched::explore(ctx, o, 0, 1, [&](sched::Run& run) {
        EA ea;
        std::atomic<int> started(0);
        bool second = false;
        run.go({[&]() {
                    ea.wait();
                    MC_CHECK(started.load() == 1, "wait() returned before any invoke()");
                    ea.reset();
                    // The one invocation is used up: a second wait ends by its time limit.
                    uint64_t t0 = sched::timeouts();
                    ea.wait_ms(1000);
                    second = sched::timeouts() > t0;
                },
                [&]() { started = 1; ea.invoke(); }});
        MC_CHECK(second, "one invoke() ended two waits");
    });
    ctx.state();
}

// ---- workers ----
struct TW : WorkerBase {
    TW(const std::string& n, Gate& g) : gate(g) {
        workerName = n;
        status = NO_INSTANCE;
        handle = std::thread(&WorkerBase::loop, this);
    }
    ~TW() { gone++; }
    static int gone;
    Gate& gate;
    std::atomic<int> requests{0};
    std::atomic<bool> stopped{false};
    std::atomic<bool> inWork{false};
    std::atomic<bool> terminated{false};
    int runs = 0, batch = 1000, applied = 0;
    size_t lastCfg = 0;
    void work() {
        MC_CHECK(!inWork.exchange(true), "work() runs twice at the same time");
        MC_CHECK(!stopped.load(), "work() started after stop() had returned");
        ++runs;
        int n = batch;
        while (requests.load() > 0 && n-- > 0) {
            requests.fetch_sub(1);
            gate.up();
        }
        if (requests.load() > 0) doNotSleepNextTime = true;     // as the flusher does
        inWork = false;
    }
    void applyNewGlobalConfig(const GlobalConfig& g) {
        MC_CHECK(!inWork.load(), "configuration applied in the middle of work()");
        ++applied;
        lastCfg = g.numFlusherThreads;
    }
    void submit() { requests.fetch_add(1); invoke(); }
};
int TW::gone = 0;

enum WProg { W_ONE, W_TWO, W_BATCH, W_TWOINV, W_MGR, W_CONFIG, W_RESTART, W_STOP, W_TWOWORKERS, W_DESTROY, W_N };
const char* wNames[] = {"one request", "two requests, one after the other is done", "two requests, one per round",
                        "two requesting threads", "invoked through the manager", "configuration update",
                        "stop and run again", "stop while requests arrive", "two workers",
                        "destroyed while working"};
void workerCase(mc::CaseCtx& ctx, int prog, const sched::Options& o, uint64_t chunk, uint64_t chunks) {
    ctx.desc = wNames[prog];
    sched::explore(ctx, o, chunk, chunks, [&](sched::Run& run) {
        Gate gate;
        TW::gone = 0;
        int workers = prog == W_TWOWORKERS ? 2 : 1;
        TW* w = nullptr;
        std::atomic<int> ready(0);
        Gate go2, done2;
        std::vector<std::function<void()>> fns;
        fns.push_back([&]() {
            WorkerMgr* mgr = new WorkerMgr();
            w = new TW("w0", gate);
            OKS(mgr->addWorker(w));
            TW* x = nullptr;
            if (workers == 2) { x = new TW("w1", gate); OKS(mgr->addWorker(x)); x->run(); }
            MC_CHECK(mgr->getWorker("w0") == w && !mgr->getWorker("w"), "getWorker returned another worker");
            w->run();
            uint64_t t0 = sched::timeouts();
            switch (prog) {
            case W_ONE: w->submit(); gate.until(1); break;
            case W_TWO: w->submit(); gate.until(1); w->submit(); gate.until(2); break;
            case W_BATCH: w->batch = 1; w->submit(); w->submit(); gate.until(2); break;
            case W_TWOINV: go2.up(); w->submit(); gate.until(2); break;
            case W_MGR: w->requests.fetch_add(1); OKS(mgr->invokeWorker("w")); gate.until(1); break;
            case W_CONFIG: {
                GlobalConfig g = gcfg();
                g.numFlusherThreads = 5;
                w->submit();
                OKS(mgr->updateGlobalConfig(g));
                gate.until(1);
                g.numFlusherThreads = 6;
                OKS(mgr->updateGlobalConfig(g));
                w->submit();
                gate.until(2);
                // What was passed before a round is in force in the next one at the latest.
                while (w->inWork.load()) std::this_thread::yield();
                w->submit();
                gate.until(3);
                MC_CHECK(w->lastCfg == 6 && w->applied >= 1 && w->applied <= 2, "the new configuration was not applied");
                break;
            }
            case W_RESTART:
                w->submit(); gate.until(1);
                w->stop();
                w->run();
                w->submit(); gate.until(2);
                break;
            case W_STOP:
                go2.up();
                w->stop();
                // A round that had begun may go on; when it is over, no other may begin.
                while (w->inWork.load()) std::this_thread::yield();
                break;
            case W_TWOWORKERS:
                w->requests.fetch_add(1); x->requests.fetch_add(1);
                OKS(mgr->invokeWorker("w", true));
                gate.until(2);
                break;
            case W_DESTROY: go2.up(); break;
            }
            uint64_t late = sched::timeouts() - t0;
            if (prog == W_STOP) done2.until(1);
            if (prog == W_DESTROY || prog == W_TWOINV) done2.until(1);
            ctx.observe(w->runs);
            delete mgr;
            MC_CHECK(TW::gone == workers, "%d of %d workers ended", TW::gone, workers);
            MC_CHECK(o.timers || prog == W_STOP || late == 0, "a request waited for the end of the sleep (%llu times)", (unsigned long long)late);
        });
        if (prog == W_TWOINV || prog == W_DESTROY || prog == W_STOP)
            fns.push_back([&]() { go2.until(1); w->submit(); done2.up(); });
        run.go(fns);
    });
    ctx.state();
}

// ---- task pool ----
struct Task { int runs = 0, cancelled = 0; uint64_t at = 0, added = 0, delay = 0; bool recur = false; std::shared_ptr<stp::TaskHandle> h; };
enum PProg { P_ONE, P_TWO, P_NEST, P_TWOTHR, P_DELAY, P_DELAY2, P_CANCEL, P_CANCELD, P_RECUR, P_DOWN, P_DOWND, P_RESCHED, P_N };
const char* pNames[] = {"one task", "two tasks", "a task adds a task", "tasks of two threads", "a delayed task",
                        "a delayed and an immediate task", "a task is cancelled", "a delayed task is cancelled", "a recurring task",
                        "shutdown right after adding", "shutdown with a delayed task", "a delayed task is rescheduled"};
void poolCase(mc::CaseCtx& ctx, int prog, int nthr, bool callCancelled, const sched::Options& o, uint64_t chunk, uint64_t chunks) {
    ctx.desc = fmt("%d threads%s: %s", nthr, callCancelled ? ", cancelled tasks are told" : "", pNames[prog]);
    sched::explore(ctx, o, chunk, chunks, [&](sched::Run& run) {
        Gate gate, go2, done2;
        std::vector<Task> t(4);
        stp::ThreadPoolMgr* mgr = nullptr;
        std::atomic<bool> down(false);
        std::atomic<int> inside(0);
        auto body = [&](int i) {
            return [&, i](const stp::TaskResult& r) {
                MC_CHECK(!down.load(), "a task runs after shutdown() has returned");
                if (r.value() == stp::TaskResult::CANCELED) { t[i].cancelled++; return; }
                MC_CHECK(r.ok(), "task result %d", (int)r);
                MC_CHECK(nthr > 1 || inside.fetch_add(1) == 0, "two tasks at the same time");
                t[i].at = simrt::nowUs();
                MC_CHECK(t[i].at >= t[i].added + t[i].delay, "a delayed task runs %llu us early", (unsigned long long)(t[i].added + t[i].delay - t[i].at));
                t[i].runs++;
                if (prog == P_NEST && i == 0) t[1].h = mgr->addTask([&](const stp::TaskResult&) { t[1].runs++; gate.up(); });
                if (nthr <= 1) inside--;
                gate.up();
            };
        };
        auto add = [&](int i, uint64_t delay = 0, bool recur = false) {
            t[i].added = simrt::nowUs();
            t[i].delay = delay;
            t[i].recur = recur;
            t[i].h = mgr->addTask(body(i), delay, recur ? stp::RECURRING : stp::ONE_TIME);
        };
        std::vector<std::function<void()>> fns;
        fns.push_back([&]() {
            mgr = new stp::ThreadPoolMgr();
            stp::ThreadPoolOptions po;
            po.numInitialThreads = nthr;
            po.invokeCanceledTask = callCancelled;
            po.busyWaitingIntervalUs = 20;
            mgr->init(po);
            uint64_t t0 = sched::timeouts(), maxT = 0;
            const uint64_t D = 500000;
            bool c = false;
            switch (prog) {
            case P_ONE: add(0); gate.until(1); break;
            case P_TWO: add(0); add(1); gate.until(2); break;
            case P_NEST: add(0); gate.until(2); break;
            case P_TWOTHR: go2.up(); add(0); gate.until(2); break;
            case P_DELAY: add(0, D); gate.until(1); maxT = 2; break;
            case P_DELAY2: add(0, D); add(1); gate.until(2); maxT = 2; break;
            case P_CANCEL: add(0); c = t[0].h->cancel(); add(1); gate.until(c ? 1 : 2); break;
            case P_CANCELD: add(0, D); c = t[0].h->cancel(); add(1); gate.until(c ? 1 : 2); break;
            case P_RECUR: add(0, D, true); gate.until(2); t[0].h->cancel(); maxT = 100; break;
            case P_DOWN: add(0); add(1); break;
            case P_DOWND: add(0, D); add(1); gate.until(1); break;
            case P_RESCHED: {
                add(0, D);
                uint64_t at = simrt::nowUs();
                t[0].h->reschedule(2 * D);
                // With another schedule the task may have been chosen to run already.
                if (!sched::preempted()) { t[0].added = at; t[0].delay = 2 * D; }
                gate.until(1); maxT = 4;
                break;
            }
            }
            uint64_t late = sched::timeouts() - t0;
            if (prog == P_TWOTHR) done2.until(1);
            if (nthr && prog != P_DOWN && prog != P_DOWND) {
                // All threads have to be idle when the pool goes down.
                for (int k = 0; k < 40; ++k) std::this_thread::yield();
            }
            mgr->shutdown();
            down = true;
            for (int i = 0; i < 4; ++i) {
                if (!t[i].h) { MC_CHECK(!t[i].runs || prog == P_NEST, "unknown task"); continue; }
                if (!t[i].recur) {
                    MC_CHECK(t[i].runs <= 1, "one-time task %d ran %d times", i, t[i].runs);
                    MC_CHECK(t[i].runs + (t[i].h->isDone() ? 0 : 1) <= 1 && t[i].h->isDone(), "task %d: %d runs, done %d", i, t[i].runs, (int)t[i].h->isDone());
                    MC_CHECK(t[i].cancelled == (callCancelled && !t[i].runs ? 1 : 0), "task %d: %d runs, %d times told that it was cancelled", i, t[i].runs, t[i].cancelled);
                }
            }
            if (prog == P_CANCEL || prog == P_CANCELD)
                MC_CHECK(t[0].runs == (c ? 0 : 1), "cancel() returned %d and the task ran %d times", (int)c, t[0].runs);
            if (prog != P_DOWN && prog != P_DOWND)
                MC_CHECK(o.timers || late <= maxT, "a task waited for the end of the sleep (%llu times)", (unsigned long long)late);
            ctx.observe(t[0].runs * 10 + t[1].runs);
            for (auto& x : t) x.h.reset();
            delete mgr;
        });
        if (prog == P_TWOTHR) fns.push_back([&]() { go2.until(1); add(1); done2.up(); });
        run.go(fns);
    });
    ctx.state();
}

// ---- table writers ----
enum TProg { T_FLUSH, T_L0, T_LEVEL, T_SPLIT, T_TWO, T_SEQ, T_N };
const char* tNames[] = {"flush to 3 partitions", "compact L0", "compact a level", "split", "flushes of two databases", "flush, compact L0, compact in place"};
void writerCase(mc::CaseCtx& ctx, int prog, int nw, const sched::Options& o, uint64_t chunk, uint64_t chunks) {
    ctx.desc = fmt("%d writers: %s", nw, tNames[prog]);
    sched::explore(ctx, o, chunk, chunks, [&](sched::Run& run) {
        freshWorld();
        mc::CaseCtx quiet;
        World w(quiet), v(quiet);
        auto mk = [&](World& x, const char* path) {
            x.path = path;
            x.cfg = baseConfig(prog == T_L0 || prog == T_LEVEL || prog == T_SPLIT ? 1 : 3, 16384);
            x.cfg.bloomFilterBitsPerUnit = 0;
            x.cfg.maxParallelWritesPerJob = 3;
            x.cfg.maxL1TableSize = prog == T_SPLIT ? 1 << 20 : 4096;
            x.cfg.maxL1Size = 4096;
            x.open();
            // As many keys as are needed to fill several tables.
            for (int k = 0; k < (prog == T_FLUSH || prog == T_TWO ? 6 : 24); ++k) x.setv(fmt("k%02d", k), std::string(512, 'a' + k % 26));
            if (prog == T_FLUSH || prog == T_TWO || prog == T_SEQ) { x.sync(); return; }
            x.syncFlush();
            if (prog == T_SPLIT) {
                x.compactL0All();
                x.close();
                x.cfg.maxL1TableSize = 4096;
                x.open();
            }
            if (prog == T_LEVEL) { x.compactL0All(); x.compactLevel(1); x.setv("k00", "n"); x.setv("k23", "n"); x.syncFlush(); x.compactL0All(); }
        };
        mk(w, "/sim/db");
        if (prog == T_TWO) mk(v, "/sim/db2");
        std::vector<std::function<void()>> fns;
        TableWriterMgr* tw = DBMgr::getWithoutInit()->tableWriterMgr();
        size_t& num = DBMgr::getWithoutInit()->getGlobalConfig()->numTableWriters;
        Gate up, done;
        CompactOptions co;
        co.ignoreThreshold = true;
        FlushOptions fo;
        fns.push_back([&]() {
            num = nw;
            OKS(tw->init());
            MC_CHECK(tw->tableWriters.size() == (size_t)nw, "%zu writers", tw->tableWriters.size());
            up.up();
            switch (prog) {
            case T_FLUSH: case T_TWO: OKS(w.db->flushLogs(fo)); break;
            case T_L0: OKS(w.db->compactL0(co, 0)); break;
            case T_LEVEL: OKS(w.db->compactLevel(co, 1)); break;
            case T_SPLIT: OKS(w.db->splitLevel(co, 1)); break;
            case T_SEQ: OKS(w.db->flushLogs(fo)); OKS(w.db->compactL0(co, 0)); OKS(w.db->compactInplace(co, 1)); break;
            }
            if (prog == T_TWO) done.until(1);
            for (auto* p : tw->tableWriters) {
                MC_CHECK(!p->inUse.load(), "a writer was not returned");
                MC_CHECK(p->writerArgs.payload.isEmpty(), "a writer has work left");
            }
            uint64_t late = sched::timeouts();
            OKS(tw->shutdown());
            num = 0;
            MC_CHECK(o.timers || late == 0, "a table was written only after the end of a sleep (%llu times)", (unsigned long long)late);
        });
        if (prog == T_TWO) fns.push_back([&]() { up.until(1); OKS(v.db->flushLogs(fo)); done.up(); });
        run.go(fns);
        for (World* x : {&w, &v}) {
            if (!x->db) continue;
            if (prog == T_FLUSH || prog == T_TWO || prog == T_SEQ) x->flushedSeq = x->maxSeq;
            x->checkGets(x->db, x->view());
            x->checkKeyIter(x->db, x->view());
        }
        ctx.observe(simfs::list("/sim/db").size());
        if (getenv("P27_LS")) fprintf(stderr, "%s: %zu files\n", ctx.desc.c_str(), simfs::list("/sim/db").size());
    });
    ctx.state();
}
} // namespace

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P27", "model_checking",
                  "every schedule of the thread programs up to the preemption bound");
    chk.hangSecs = chk.thorough() ? 300 : 60;
    auto init = []() { initEngine(); };
    bool th = chk.thorough();
    {
        sched::Options o;
        o.bound = th ? 4 : 3;
        o.points = sched::ALL;
        struct C { int r, n; bool timed, pp, early; };
        std::vector<C> cs;
        for (int timed = 0; timed < 2; ++timed)
            for (int early = 0; early <= timed; ++early)
                for (int r = 1; r <= 2; ++r) {
                    cs.push_back({r, 1, !!timed, false, !!early});
                    cs.push_back({r, 1, !!timed, true, !!early});
                    cs.push_back({r, 2, !!timed, false, !!early});
                }
        chk.add("awaiter", cs.size() * 2, [=](uint64_t i, mc::CaseCtx& ctx) {
            C c = cs[i / 2];
            sched::Options p = o;
            p.timers = c.early;
            if (c.n == 2) { p.delay = true; p.points = sched::ALL & ~sched::PLAIN; p.bound = th ? 3 : 2; }
            if (i % 2) awaiterCase<EventAwaiter>(ctx, c.r, c.n, c.timed, c.pp, p);
            else awaiterCase<stp::EventAwaiter>(ctx, c.r, c.n, c.timed, c.pp, p);
        });
        chk.add("awaiter_blocks", 2, [=](uint64_t i, mc::CaseCtx& ctx) {
            if (i) blockCase<EventAwaiter>(ctx, o);
            else blockCase<stp::EventAwaiter>(ctx, o);
        });
    }
    {
        sched::Options o;
        o.bound = 2;
        o.delay = true;
        o.spin = 3000;
        o.points = sched::LOCK | sched::UNLOCK | sched::ATOMIC;
        const uint64_t CH = th ? 32 : 16;
        if (th) {
            sched::Options p = o;
            p.bound = 3;
            p.points = sched::LOCK | sched::ATOMIC_WR;
            chk.add("worker_3", W_N * CH, [=](uint64_t i, mc::CaseCtx& ctx) { workerCase(ctx, i / CH, p, i % CH, CH); }, init);
        }
        chk.add("worker", W_N * CH, [=](uint64_t i, mc::CaseCtx& ctx) { workerCase(ctx, i / CH, o, i % CH, CH); }, init);
        o.timers = true;
        chk.add("worker_timers", W_N * CH, [=](uint64_t i, mc::CaseCtx& ctx) { workerCase(ctx, i / CH, o, i % CH, CH); }, init);
        o.timers = false;
        o.bound = th ? 4 : 3;
        chk.add("pool", P_N * 2 * CH, [=](uint64_t i, mc::CaseCtx& ctx) { poolCase(ctx, i / CH / 2, 0, i / CH % 2, o, i % CH, CH); }, init);
        o.timers = true;
        o.bound--;
        chk.add("pool_timers", P_N * 2 * CH, [=](uint64_t i, mc::CaseCtx& ctx) { poolCase(ctx, i / CH / 2, 0, i / CH % 2, o, i % CH, CH); }, init);
    }
    {
        sched::Options o;
        o.bound = 1;
        o.delay = true;
        o.spin = 30000;
        o.points = sched::LOCK | sched::UNLOCK | sched::ATOMIC_WR;
        if (th) { o.bound = 2; o.points = sched::LOCK; }
        const uint64_t CH = 8;
        chk.add("table_writers", T_N * 3 * CH, [=](uint64_t i, mc::CaseCtx& ctx) {
            uint64_t k = i / CH;
            writerCase(ctx, k / 3, 1 + k % 3, o, i % CH, CH);
        }, init);
    }
    return chk.run();
}
