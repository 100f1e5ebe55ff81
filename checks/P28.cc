// BUILD: tseq
// P28: asynchronous flush and sync requests do what their handlers report, exactly once.
#include "crash.h"
#include "thr.h"
#include "db_internal.h"
#include "db_mgr.h"
#include "flusher.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
using namespace crash;
namespace {
const uint64_t ALLSEQ = (uint64_t)-1;

// ---- histories: requests are queued, the worker serves them later ----
struct Req {
    std::string name;
    FlushOptions o;
    uint64_t upto = ALLSEQ;
    uint64_t maxAt = 0, syncedAt = 0;     // when it was requested
    int gen = 0;
    int calls = 0;
    int result = 1;
    bool ctxOk = false;
    bool done = false;
};
struct Async {
    std::vector<std::shared_ptr<Req>> reqs;
    int gen = 0;
    uint64_t order = 0;
};
Async g_a;
Flusher* g_worker[2];

size_t pending() { return DBMgr::getWithoutInit()->flusherQueue()->size(); }
void request(World& w, const std::string& name, const FlushOptions& o, uint64_t upto = ALLSEQ) {
    auto r = std::make_shared<Req>();
    r->name = name;
    r->o = o;
    r->upto = upto;
    r->maxAt = w.maxSeq;
    // (After flushing more than was synced and reopening, the log reports its own, lower number.)
    if (!w.db->getLastSyncedSeqNum(r->syncedAt).ok()) r->syncedAt = 0;
    r->syncedAt = std::min(r->syncedAt, w.maxSeq);
    r->gen = g_a.gen;
    w.ctx.transitions++;
    Status s = w.db->flushLogsAsync(o, [r](Status s, void* c) {
        r->calls++;
        r->result = s;
        r->ctxOk = c == r.get();
    }, r.get(), upto);
    w.ctx.note("request %s -> %s", name.c_str(), s.toString().c_str());
    MC_CHECK(s.ok(), "requesting %s returned %s", name.c_str(), s.toString().c_str());
    g_a.reqs.push_back(r);
}
// What the handlers that have been called so far allow one to rely on.
void settle(World& w, bool all) {
    uint64_t fl = 0, sy = 0;
    if (w.db && !w.db->getLastFlushedSeqNum(fl).ok()) fl = 0;
    if (w.db && !w.db->getLastSyncedSeqNum(sy).ok()) sy = 0;
    bool nofsync = w.extra["nofsync"];
    for (auto& r : g_a.reqs) {
        const char* n = r->name.c_str();
        MC_CHECK(r->calls <= 1, "the handler of '%s' was called %d times", n, r->calls);
        if (!r->calls) { MC_CHECK(!all, "the handler of '%s' was not called", n); continue; }
        MC_CHECK(r->ctxOk, "the handler of '%s' received another context", n);
        if (r->done) continue;
        r->done = true;
        w.ctx.note("handler of %s: %s", n, Status((Status::Value)r->result).toString().c_str());
        w.ctx.observe(r->result);
        if (r->gen != g_a.gen) {
            // (The new handle may have the address of the old one.)
            if (r->result == Status::DB_HANDLE_NOT_FOUND) continue;
            if (!w.db) MC_CHECK(false, "'%s' on a closed database reported %d", n, r->result);
        }
        if (r->result != Status::OK) {
            MC_CHECK(!r->o.syncOnly || !r->maxAt, "'%s' failed with %d", n, r->result);
            MC_CHECK(r->o.syncOnly || r->o.purgeOnly || r->upto == 0 || !r->syncedAt || fl >= std::min(r->upto, r->syncedAt), "'%s' failed with %d although records were synced but not flushed", n, r->result);
            continue;
        }
        if (r->o.syncOnly) {
            MC_CHECK(sy >= r->maxAt, "'%s' succeeded: #%llu had been written before it, but only #%llu is synced", n, (unsigned long long)r->maxAt, (unsigned long long)sy);
            w.syncedSeq = std::max(w.syncedSeq, r->maxAt);
            if (r->o.callFsync) { w.durableSeq = std::max(w.durableSeq, r->maxAt); nofsync = false; }
            else if (w.maxSeq > w.durableSeq) nofsync = true;      // (a sync writes all there is)
        } else if (!r->o.purgeOnly) {
            uint64_t t = std::min(r->upto, r->o.beyondLastSync ? r->maxAt : r->syncedAt);
            MC_CHECK(fl >= t, "'%s' succeeded, but only #%llu of #%llu is flushed", n, (unsigned long long)fl, (unsigned long long)t);
            w.flushedSeq = std::max(w.flushedSeq, t);
            w.durableSeq = std::max(w.durableSeq, t);
        }
    }
    w.extra["nofsync"] = nofsync;
}
void serve(World& w, int worker) {
    if (!pending()) throw Prune{};
    size_t rounds = 0;
    while (pending()) {
        w.ctx.transitions++;
        g_worker[worker]->work();
        settle(w, false);
        MC_CHECK(++rounds <= g_a.reqs.size(), "the queue holds more requests than were made");
    }
    settle(w, true);
}
FlushOptions opts(bool syncOnly, bool fsync, bool beyond = false, bool purge = false) {
    FlushOptions o;
    o.syncOnly = syncOnly;
    o.callFsync = fsync;
    o.beyondLastSync = beyond;
    o.purgeOnly = purge;
    return o;
}
void setupHist(World& w) {
    // Requests left over by the previous case belong to closed databases.
    while (pending()) { auto* e = DBMgr::getWithoutInit()->flusherQueue()->pop(); delete e; }
    g_a = Async();
    w.cfg = baseConfig(1, 3);
    w.open();
}

// ---- schedules: the real workers ----
struct Gate {
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
    void up() { std::unique_lock<std::mutex> l(m); ++n; cv.notify_all(); }
    void until(int k) { std::unique_lock<std::mutex> l(m); while (n < k) cv.wait(l); }
};
enum { A_SET, A_SYNC, A_SYNCF, A_FLUSH, A_FLUSHD, A_FLUSH1, A_BSYNC, A_WAIT, A_CLOSE, A_UNSYNC };
struct Act { int kind; int db; };
typedef std::vector<std::vector<Act>> Prog;
const char* actName[] = {"set", "async sync", "async sync+fsync", "async flush", "async delayed flush", "async flush of the first", "sync", "wait", "close", "async sync delayed"};

struct SReq { std::atomic<int> calls; int result; int kind; uint64_t maxAt, syncedAt, delayAt; uint64_t at; bool closing; int db; SReq() : calls(0), result(1), kind(0), maxAt(0), syncedAt(0), delayAt(0), at(0), closing(false), db(0) {} };

void runProg(mc::CaseCtx& ctx, const Prog& p, int nworkers, int dedicated, bool autoSync, const sched::Options& o, uint64_t chunk, uint64_t chunks) {
    ctx.desc = mc::fmt("%d workers, %d dedicated%s:", nworkers, dedicated, autoSync ? ", auto sync" : "");
    int ndb = 1, total = 0;
    bool delayed = false, closes = false;
    for (auto& t : p) {
        ctx.desc += " |";
        for (auto& a : t) {
            ctx.desc += std::string(" ") + actName[a.kind] + (a.db ? "'" : "");
            ndb = std::max(ndb, a.db + 1);
            total += a.kind != A_SET && a.kind != A_BSYNC && a.kind != A_WAIT && a.kind != A_CLOSE;
            if (a.kind == A_FLUSHD || a.kind == A_UNSYNC) delayed = true;
            if (a.kind == A_CLOSE) closes = true;
        }
    }
    sched::explore(ctx, o, chunk, chunks, [&](sched::Run& run) {
        freshWorld();
        Gate ready, done, issued;
        DB* dbs[2] = {nullptr, nullptr};
        uint64_t written[2] = {0, 0}, synced[2] = {0, 0};
        bool closing[2] = {false, false};
        std::vector<SReq> reqs(16);
        int nreq = 0;
        uint64_t late = 0, maxLate = 0;
        std::vector<std::function<void()>> fns;
        fns.push_back([&]() {
            sched::quiet(true);
            GlobalConfig g;
            g.globalLogPath = "/sim";
            g.numCompactorThreads = 0;
            g.numTableWriters = 0;
            g.fdbCacheSize = 0;
            g.shutdownLogger = false;
            g.numFlusherThreads = nworkers;
            g.numDedicatedFlusherForAsyncReqs = dedicated;
            g.flusherAutoSync = autoSync;
            g.flusherSleepDuration_ms = 500;
            OKS(jungle::init(g));
            for (int d = 0; d < ndb; ++d) {
                DBConfig c = baseConfig(1, 3);
                OKS(DB::open(&dbs[d], mc::fmt("/sim/db%d", d), c));
                for (auto k : {"a", "b"}) { OKS(dbs[d]->set(KV(SizedBuf(k), SizedBuf("v")))); written[d]++; }
                OKS(dbs[d]->sync(true));
                synced[d] = 2;
            }
            sched::quiet(false);
            uint64_t t0 = sched::timeouts();
            ready.up();
            done.until(p.size());
            late = sched::timeouts() - t0;
            sched::quiet(true);
            for (int d = 0; d < ndb; ++d) {
                if (!dbs[d]) continue;
                // Everything written is there.
                for (auto k : {"a", "b"}) {
                    SizedBuf out;
                    OKS(dbs[d]->get(SizedBuf(k), out));
                    out.free();
                }
                uint64_t m = 0;
                OKS(dbs[d]->getMaxSeqNum(m));
                MC_CHECK(m == written[d], "last sequence number %llu, %llu were written", (unsigned long long)m, (unsigned long long)written[d]);
                OKS(DB::close(dbs[d]));
            }
            OKS(jungle::shutdown());
        });
        for (size_t t = 0; t < p.size(); ++t)
            fns.push_back([&, t]() {
                ready.until(1);
                Gate mine;
                int my = 0;
                std::vector<int> ids;
                for (auto& a : p[t]) {
                    DB* db = dbs[a.db];
                    switch (a.kind) {
                    case A_SET: OKS(db->set(KV(SizedBuf("c"), SizedBuf(mc::fmt("v%d", (int)t))))); written[a.db]++; break;
                    case A_BSYNC: { uint64_t m = written[a.db]; OKS(db->sync(false)); synced[a.db] = std::max(synced[a.db], m); break; }
                    case A_WAIT: mine.until(my); break;
                    case A_CLOSE:
                        // (A closed handle must not be used any more.)
                        issued.until(total);
                        closing[a.db] = true; dbs[a.db] = nullptr; OKS(DB::close(db)); break;
                    default: {
                        FlushOptions fo;
                        uint64_t upto = ALLSEQ;
                        if (a.kind == A_SYNC || a.kind == A_SYNCF || a.kind == A_UNSYNC) fo.syncOnly = true;
                        if (a.kind == A_SYNCF) fo.callFsync = true;
                        if (a.kind == A_FLUSHD || a.kind == A_UNSYNC) fo.execDelayUs = 300000;
                        if (a.kind == A_FLUSH1) upto = 1;
                        int id = nreq++;
                        SReq& r = reqs[id];
                        ids.push_back(id);
                        r.kind = a.kind;
                        r.db = a.db;
                        r.maxAt = written[a.db];
                        r.syncedAt = synced[a.db];
                        r.at = simrt::nowUs();
                        ++my;
                        OKS(db->flushLogsAsync(fo, [&, id](Status s, void* c) {
                            SReq& r = reqs[id];
                            MC_CHECK(c == &r, "a handler received another context");
                            MC_CHECK(r.calls.fetch_add(1) == 0, "a handler was called twice");
                            r.result = s;
                            MC_CHECK(o.timers || closing[r.db] || r.kind == A_FLUSHD || r.kind == A_UNSYNC || simrt::nowUs() < r.at + 100000, "'%s' was served %llu us late", actName[r.kind], (unsigned long long)(simrt::nowUs() - r.at));
                            const char* n = actName[r.kind];
                            MC_CHECK(s.ok() || closing[r.db] || r.kind == A_FLUSH || r.kind == A_FLUSHD || r.kind == A_FLUSH1 || s == Status::OPERATION_IN_PROGRESS, "'%s' failed with %s", n, s.toString().c_str());
                            // A handler may use the database.
                            if (s.ok() && !closing[r.db]) {
                                uint64_t x = 0;
                                if (r.kind == A_SYNC || r.kind == A_SYNCF || r.kind == A_UNSYNC) {
                                    OKS(dbs[r.db]->getLastSyncedSeqNum(x));
                                    MC_CHECK(x >= r.maxAt, "'%s' succeeded: #%llu had been written, #%llu is synced", n, (unsigned long long)r.maxAt, (unsigned long long)x);
                                } else {
                                    OKS(dbs[r.db]->getLastFlushedSeqNum(x));
                                    uint64_t t = r.kind == A_FLUSH1 ? 1 : r.syncedAt;
                                    MC_CHECK(x >= t, "'%s' succeeded: #%llu had been synced, #%llu is flushed", n, (unsigned long long)t, (unsigned long long)x);
                                }
                            }
                            mine.up();
                        }, &r, upto));
                        issued.up();
                        break;
                    }
                    }
                }
                mine.until(my);
                for (int id : ids) MC_CHECK(reqs[id].calls == 1, "%d calls of a handler", reqs[id].calls.load());
                done.up();
            });
        run.go(fns);
        (void)maxLate;
        MC_CHECK(o.timers || delayed || late == 0, "a request waited for the end of a sleep (%llu times)", (unsigned long long)late);
        for (int i = 0; i < nreq; ++i) ctx.observe(reqs[i].result);
        (void)closes;
    });
    ctx.state();
}
} // namespace

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P28", "model_checking",
                  "all histories of writes, queued requests and worker rounds to the stated depth with every crash point of the last step; all schedules of users and flusher threads to the stated bound");
    chk.hangSecs = 300;
    Ops ops = {
        {"set", [](World& w) { w.set(w.maxSeq & 1 ? "b" : "a"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"request sync", [](World& w) { request(w, "sync", opts(true, false)); }},
        {"request sync+fsync", [](World& w) { request(w, "sync+fsync", opts(true, true)); }},
        {"request flush", [](World& w) { request(w, "flush", opts(false, false)); }},
        {"request flush of the first", [](World& w) { request(w, "flush of the first", opts(false, false), 1); }},
        {"request flush beyond sync", [](World& w) { if (w.extra["nofsync"]) throw Prune{}; request(w, "flush beyond sync", opts(false, false, true)); }},
        {"request purge of what is flushed by then", [](World& w) {
            // Behind a request to flush the same records, so that nothing is lost.
            uint64_t t = w.flushedSeq;
            for (auto& r : g_a.reqs) if (!r->calls && !r->o.syncOnly && !r->o.purgeOnly && r->gen == g_a.gen) t = std::max(t, std::min(r->upto, r->syncedAt));
            if (!t) throw Prune{};
            request(w, mc::fmt("purge upto %llu", (unsigned long long)t), opts(false, false, false, true), t); }},
        {"worker", [](World& w) { serve(w, 0); }},
        {"generic worker", [](World& w) { serve(w, 1); }},
        {"reopen", [](World& w) { w.close(); g_a.gen++; w.open(); }},
    };
    Run run;
    run.opt.torn = false;
    auto withWorkers = [=](World& w) {
        if (!g_worker[0]) {
            g_worker[0] = new Flusher("flusher_od_0", gcfg(), Flusher::FLUSH_ON_DEMAND);
            g_worker[1] = new Flusher("flusher_gen_0", gcfg());
        }
        setupHist(w);
    };
    run.setup = [=](World& w) { withWorkers(w); w.set("c"); w.sync(); w.set("d"); };
    // A worker round is what matters: crash points lie in it.
    auto keep = [=](const std::vector<int>& s) {
        bool req = false;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] >= 2 && s[i] <= 7) req = true;
            else if (s[i] == 8 || s[i] == 9) { if (!req) return false; req = false; }
        }
        return s.back() == 8 || s.back() == 9;
    };
    addCrashSpace(chk, "requests", ops, chk.thorough() ? 6 : 5, run, 2, keep);

    sched::Options o;
    o.bound = 1;
    o.delay = true;
    o.spin = 30000;
    o.points = sched::LOCK | sched::UNLOCK | sched::ATOMIC_WR;
    std::vector<Prog> progs = {
        {{{A_SET, 0}, {A_SYNC, 0}}},
        {{{A_FLUSH, 0}}},
        {{{A_FLUSH, 0}, {A_SYNCF, 0}}},
        {{{A_SET, 0}, {A_SYNC, 0}, {A_WAIT, 0}, {A_FLUSH, 0}, {A_WAIT, 0}, {A_FLUSH1, 0}}},
        {{{A_SET, 0}, {A_SYNCF, 0}}, {{A_FLUSH, 0}}},
        {{{A_FLUSH, 0}}, {{A_FLUSH1, 0}}},
        {{{A_SET, 0}, {A_BSYNC, 0}}, {{A_FLUSH, 0}, {A_SYNC, 0}}},
        {{{A_FLUSH, 0}}, {{A_FLUSH, 1}, {A_SYNC, 1}}},
        {{{A_FLUSH, 0}}, {{A_CLOSE, 0}}},
        {{{A_SYNC, 0}, {A_CLOSE, 0}}},
        {{{A_FLUSHD, 0}}},
        {{{A_FLUSHD, 0}, {A_SYNC, 0}}},
        {{{A_FLUSHD, 0}}, {{A_SYNC, 1}}},
        {{{A_UNSYNC, 0}, {A_FLUSHD, 0}}},
        {{{A_FLUSHD, 0}}, {{A_CLOSE, 0}}},
        {{{A_FLUSHD, 0}, {A_WAIT, 0}, {A_CLOSE, 0}}},
    };
    struct Var { const char* name; int workers, dedicated; bool autoSync; };
    std::vector<Var> vars = {{"one_worker", 1, 0, false}, {"two_workers", 2, 0, false}, {"dedicated", 2, 1, false}, {"auto_sync", 1, 0, true}};
    const uint64_t CH = 8;
    for (auto& v : vars) {
        Var x = v;
        chk.add(x.name, progs.size() * CH, [=](uint64_t i, mc::CaseCtx& ctx) {
            runProg(ctx, progs[i / CH], x.workers, x.dedicated, x.autoSync, o, i % CH, CH);
        });
    }
    {
        // Closing while the timer of a delayed request expires.
        sched::Options q = o;
        q.bound = chk.thorough() ? 3 : 2;
        q.timers = true;
        q.points = sched::LOCK;
        Prog pr = {{{A_FLUSHD, 0}}, {{A_CLOSE, 0}}};
        chk.add("delayed_close", 64, [=](uint64_t i, mc::CaseCtx& ctx) { runProg(ctx, pr, 1, 0, false, q, i, 64); });
    }
    return chk.run();
}
