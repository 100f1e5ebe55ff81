// BUILD: pseq
#include "crash.h"
#include "compactor.h"
#include "flusher.h"
#include "log_reclaimer.h"
using namespace crash;

// A read-only handle shows what a normal one would, refuses every change, and leaves every file as it is.

static uint64_t g_mutations = 0;      // modifying calls when the image was put in place
static void place(const simfs::Image& img) {
    simfs::restore(img);
    g_mutations = simfs::mutations();
}
static void untouched(const simfs::Image& before, const std::string& when) {
    simfs::Image now = simfs::snapshot();
    for (auto& e : before.files) {
        auto f = now.files.find(e.first);
        MC_CHECK(f != now.files.end(), "%s: file %s was removed", when.c_str(), e.first.c_str());
        MC_CHECK(f->second == e.second, "%s: file %s was changed (%zu -> %zu bytes)", when.c_str(), e.first.c_str(), e.second.size(), f->second.size());
    }
    for (auto& e : now.files) MC_CHECK(before.files.count(e.first), "%s: file %s was created", when.c_str(), e.first.c_str());
    MC_CHECK(now.dirs == before.dirs, "%s: directories changed", when.c_str());
    // (Writing the same bytes again counts: it may undo what another process wrote meanwhile.)
    MC_CHECK(simfs::mutations() == g_mutations, "%s: %llu calls that modify files", when.c_str(), (unsigned long long)(simfs::mutations() - g_mutations));
}

static Record rec(const char* k, const char* v) {
    Record r;
    r.kv.key = SizedBuf(std::string(k));
    r.kv.value = SizedBuf(std::string(v));
    return r;
}

// Every way to change the database through the handle; whatever can only mean a change must be refused.
static void attempts(World& r) {
    DB* d = r.db;
    auto no = [&](const char* what, Status s) {
        r.ctx.transitions++;
        r.ctx.note("%s -> %s", what, s.toString().c_str());
        MC_CHECK(!s.ok(), "read-only handle: %s returned OK", what);
    };
    auto any = [&](const char* what, Status s) {
        r.ctx.transitions++;
        r.ctx.note("%s -> %s", what, s.toString().c_str());
    };
    uint64_t n = r.maxSeq + 1;
    MC_CHECK(d->isReadOnly(), "isReadOnly() is false");
    no("set", d->set(KV("a", "x")));
    no("set of a new key", d->set(KV("new", "x")));
    no("setSN", d->setSN(n, KV("a", "x")));
    no("setRecord", d->setRecord([&] { Record x = rec("a", "x"); x.seqNum = n; return x; }()));
    no("setRecordByKey", d->setRecordByKey(rec("a", "x")));
    no("del", d->del(SizedBuf(std::string("a"))));
    no("delSN", d->delSN(n, SizedBuf(std::string("a"))));
    no("delRecord", d->delRecord([&] { Record x = rec("a", ""); x.type = Record::DELETION; return x; }()));
    no("setRecordBatch", d->setRecordBatch(std::list<Record>{rec("a", "x"), rec("b", "y")}));
    if (r.maxSeq) no("rollback", d->rollback(r.maxSeq > 1 ? r.maxSeq - 1 : 1));
    any("sync", d->sync());
    any("syncNoWait", d->syncNoWait());
    any("flushLogs", d->flushLogs());
    FlushOptions purge; purge.purgeOnly = true;
    any("flushLogs(purge)", d->flushLogs(purge));
    uint64_t c = 0;
    any("checkpoint", d->checkpoint(c));
    if (r.maxSeq) any("discardDirty", d->discardDirty(r.maxSeq));
    for (uint32_t p = 0; p < 2; ++p) any("compactL0", d->compactL0(CompactOptions(), p));
    for (size_t lv = 1; lv <= 2; ++lv) {
        any("compactLevel", d->compactLevel(CompactOptions(), lv));
        any("splitLevel", d->splitLevel(CompactOptions(), lv));
        any("mergeLevel", d->mergeLevel(CompactOptions(), lv));
    }
    CompactOptions ig; ig.ignoreThreshold = true;
    for (size_t lv = 0; lv <= 2; ++lv) any("compactInplace", d->compactInplace(ig, lv));
    any("compactIdxUpto", d->compactIdxUpto(CompactOptions(), 1));
    for (int x : {0, 1}) {
        simrt::setRand({x});
        Compactor k(mc::fmt("compactor(%d)", x), gcfg());
        k.work();
        k.handle.join();
    }
    GlobalConfig g = gcfg();
    g.flusherMinRecordsToTrigger = 1;
    g.flusherAutoSync = true;
    Flusher f("flusher", g);
    f.work();
    f.handle.join();
    LogReclaimer lr("reclaimer", g);
    simrt::advanceUs(4000000000ull);
    lr.work();
    lr.handle.join();
}

static void adopt(World& r, const World& w) {
    r.cfg = w.cfg; r.path = w.path; r.less = w.less; r.chks = w.chks; r.extra = w.extra; r.universe = w.universe;
    r.extraProbes = w.extraProbes; r.valCounter = w.valCounter + 100;
}
static void look(World& r, const View& v, bool deep) {
    r.checkGets(r.db, v, "read-only db");
    r.checkKeyIter(r.db, v, "read-only db");
    if (deep) {
        r.checkNearest(r.db, v, "read-only db");
        r.checkPrefix(r.db, v, "read-only db");
        r.checkSeqNums();
    }
}

// Open `img` read-only: the content is the history up to some point in [lo, hi] (returned), nothing moves.
static uint64_t readOnlyPass(mc::CaseCtx& ctx, const World& w, const simfs::Image& img, uint64_t lo, uint64_t hi, const char* what, bool poke, bool mayRefuse = false) {
    place(img);
    fdbsim_reset();
    World r(ctx);
    adopt(r, w);
    r.cfg.readOnly = true;
    uint64_t R = 0;
    if (mayRefuse) {
        // Power loss: what needs recovery (a new log file, for example) may be refused, without touching it.
        DB* d = nullptr;
        Status s = DB::open(&d, r.path, r.cfg);
        untouched(img, mc::fmt("%s image, read-only opening (%s)", what, s.toString().c_str()));
        if (!s.ok()) { ctx.observe(s.getValue()); return (uint64_t)-1; }
        OKS(DB::close(d));
    }
    for (int round = 0; round < 2; ++round) {
        std::string when = mc::fmt("%s image, read-only %s", what, round ? "reopening" : "opening");
        r.open();
        untouched(img, when);
        View got = scanView(r, r.db);
        uint64_t mx = 0;
        if (!r.db->getMaxSeqNum(mx).ok()) mx = 0;
        bool found = mx >= lo && mx <= hi && sameLive(got, w.viewAt(mx));
        if (found) R = mx;
        else for (R = hi + 1; R-- > lo;) if (sameLive(got, w.viewAt(R))) { found = true; break; }
        MC_CHECK(found, "%s: content is not the history up to any point in #%llu..#%llu", when.c_str(), (unsigned long long)lo, (unsigned long long)hi);
        r.hist.clear();
        for (auto& h : w.hist) if (h.seq <= R) r.hist.push_back(h);
        r.maxSeq = mx;
        look(r, r.view(), false);
        if (poke && !round) {
            attempts(r);
            uint64_t mx2 = 0;
            r.db->getMaxSeqNum(mx2);
            MC_CHECK(mx2 == mx, "%s: last number is %llu after refused changes, was %llu", when.c_str(), (unsigned long long)mx2, (unsigned long long)mx);
            look(r, r.view(), false);
            untouched(img, when + ", after refused changes");
        }
        DB* sn = nullptr;
        if (r.db->openSnapshot(&sn).ok()) {
            r.checkGets(sn, r.view(), "snapshot of a read-only db");
            r.checkKeyIter(sn, r.view(), "snapshot of a read-only db");
            DB::close(sn);
        }
        OKS(DB::close(r.db));
        r.db = nullptr;
        untouched(img, when + " and closing");
    }
    return R;
}

// The same image opened normally shows the same.
static void normalPass(mc::CaseCtx& ctx, const World& w, const simfs::Image& img, uint64_t R, const char* what) {
    simfs::restore(img);
    fdbsim_reset();
    World r(ctx);
    adopt(r, w);
    r.open();
    r.hist.clear();
    for (auto& h : w.hist) if (h.seq <= R) r.hist.push_back(h);
    DB* sn = nullptr;
    if (r.db->openSnapshot(&sn).ok()) {
        r.checkGets(sn, r.view(), "snapshot of the recovered db");
        DB::close(sn);
    }
    MC_CHECK(sameLive(scanView(r, r.db), w.viewAt(R)), "%s image: a normal handle shows something else than the read-only one (#%llu)", what, (unsigned long long)R);
}

static void addSpace(mc::Check& chk, const std::string& name, const Ops& ops, int maxLen, std::function<void(World&)> setup, bool crashes, int minLen = 1) {
    uint64_t n = mc::seqCount(ops.size(), maxLen, minLen);
    chk.add(name, n, [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::vector<int> seq = mc::seqDecode(idx, ops.size(), maxLen, minLen);
        for (int i : seq) ctx.desc += (ctx.desc.empty() ? "" : ", ") + ops[i].name;
        freshWorld();
        simfs::Image base = simfs::snapshot();
        World w(ctx);
        size_t from = 0;
        uint64_t lo0 = 0;
        simfs::journalStart();
        try {
            setup(w);
            for (size_t i = 0; i < seq.size(); ++i) {
                if (i + 1 == seq.size()) { from = simfs::journal().size(); lo0 = w.syncedSeq; }
                ctx.note("-- %s", ops[seq[i]].name.c_str());
                ops[seq[i]].fn(w);
            }
        } catch (Prune&) {
            simfs::journalStop();
            ctx.skipped = true;
            return;
        }
        std::vector<simfs::Op> j = simfs::journal();
        simfs::journalStop();
        size_t to = j.size();
        simfs::Image live = simfs::snapshot();
        uint64_t lo = w.syncedSeq, hi = w.maxSeq;
        w.observeState();
        while (!w.snaps.empty()) w.closeSnap(0);
        if (w.db) w.close();
        simfs::Image closed = simfs::snapshot();
        if (!crashes) {
            uint64_t R = readOnlyPass(ctx, w, closed, hi, hi, "closed", true);
            normalPass(ctx, w, closed, R, "closed");
            R = readOnlyPass(ctx, w, live, lo, hi, "live", true);
            ctx.observe(R);
            normalPass(ctx, w, live, R, "live");
            return;
        }
        std::map<uint64_t, uint64_t> seen;
        Options opt;
        auto rank = [&](size_t upto, bool) { return upto == to ? lo : lo0; };
        images(base, j, from, to, opt, seen, [&](const Image& im, size_t upto) {
            ctx.state();
            uint64_t l = im.powerLoss ? 0 : upto == to ? lo : lo0;
            uint64_t R = readOnlyPass(ctx, w, im.img, l, hi, im.label.c_str(), false, im.powerLoss);
            if (R == (uint64_t)-1) return;
            ctx.observe(R);
            normalPass(ctx, w, im.img, R, im.label.c_str());
        }, rank);
        ctx.validated = seen.size();
    }, []() { initEngine(); });
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P16", "model_checking",
                  "all histories to the stated depth; the closed database, the live files and every crash image of the last operation are opened read-only, poked with every mutating call, and compared byte by byte");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"flush", [](World& w) { w.flush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"checkpoint", [](World& w) { if (!w.maxSeq) throw Prune{}; w.checkpoint(); }},
    };
    int d = chk.thorough() ? 6 : 5;
    for (int le : {2, 16384}) {
        auto setup = [=](World& w) { w.cfg = baseConfig(le == 2 ? 1 : 2, le); w.extraProbes = {"aa"}; w.open(); };
        addSpace(chk, "ops-l" + std::to_string(le), ops, le == 2 ? d : d - 1, setup, false);
        addSpace(chk, "crash-l" + std::to_string(le), ops, le == 2 ? d - 1 : d - 2, setup, true);
    }
    Ops ops2 = {
        {"set c", [](World& w) { w.set("c"); }},
        {"del d", [](World& w) { w.del("d"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"mergeL1", [](World& w) { w.merge(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1); }},
        {"snapshot", [](World& w) { w.openSnap(); }},
    };
    auto levels = [](World& w) {
        w.cfg = baseConfig(2, 2);
        w.extraProbes = {"aa"};
        w.open();
        for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k);
        w.syncFlush();
        w.compactL0All();
        w.set("b"); w.set("e"); w.del("f");
        w.syncFlush();
    };
    addSpace(chk, "levels", ops2, chk.thorough() ? 6 : 5, levels, false);
    addSpace(chk, "levels-crash", ops2, chk.thorough() ? 5 : 4, levels, true);
    // Opened with other settings than it was written with.
    struct Var { const char* name; std::function<void(DBConfig&)> f; };
    static const std::vector<Var> vars = {
        {"other partition count", [](DBConfig& c) { c.numL0Partitions = 3; }},
        {"smaller log files", [](DBConfig& c) { c.maxEntriesInLogFile = 1; }},
        {"one checkpoint", [](DBConfig& c) { c.maxKeepingCheckpoints = 1; }},
        {"skip manifest sync", [](DBConfig& c) { c.skipManifestSync = true; }},
        {"log reclaim at once", [](DBConfig& c) { c.logFileTtl_sec = 1; c.maxLogFileSize = 1; }},
        {"direct I/O", [](DBConfig& c) { c.directIoOpt.enabled = true; }},
        {"safe mode", [](DBConfig& c) { c.safeMode = true; }},
        {"fast index scan", [](DBConfig& c) { c.fastIndexScan = true; }},
        {"strict manifest", [](DBConfig& c) { c.bloomFilterBitsPerUnit = 0; }},
    };
    uint64_t nv = vars.size(), ns = mc::seqCount(ops.size(), 3, 1);
    chk.add("settings", nv * ns, [=](uint64_t idx, mc::CaseCtx& ctx) {
        const Var& v = vars[idx / ns];
        std::vector<int> seq = mc::seqDecode(idx % ns, ops.size(), 3, 1);
        ctx.desc = v.name;
        for (int i : seq) ctx.desc += ", " + ops[i].name;
        freshWorld();
        World w(ctx);
        w.cfg = baseConfig(1, 2);
        w.open();
        w.set("k"); w.set("a"); w.syncFlush(); w.set("m");
        try { for (int i : seq) ops[i].fn(w); } catch (Prune&) { ctx.skipped = true; return; }
        w.observeState();
        uint64_t hi = w.maxSeq;
        w.close();
        simfs::Image img = simfs::snapshot();
        v.f(w.cfg);
        readOnlyPass(ctx, w, img, hi, hi, "closed", true);
        w.cfg = baseConfig(1, 2);
        normalPass(ctx, w, img, hi, "closed");
    }, []() { initEngine(); });
    // Nothing is created where there is nothing to read; every proper prefix of a creation is refused or empty.
    chk.add("missing", 400, [=](uint64_t idx, mc::CaseCtx& ctx) {
        freshWorld();
        simfs::Image base = simfs::snapshot();
        World w(ctx);
        w.cfg = baseConfig(1, 2);
        simfs::journalStart();
        w.open();
        std::vector<simfs::Op> j = simfs::journal();
        simfs::journalStop();
        w.close();
        if (idx > j.size()) { ctx.skipped = true; return; }
        ctx.desc = mc::fmt("files of a creation interrupted after %llu of %zu operations", (unsigned long long)idx, j.size());
        simfs::CrashChoice c;
        c.upto = idx;
        simfs::Image img = simfs::applyJournal(base, j, c);
        place(img);
        fdbsim_reset();
        DBConfig ro = w.cfg;
        ro.readOnly = true;
        DB* d = nullptr;
        Status s = DB::open(&d, w.path, ro);
        ctx.transitions++;
        ctx.observe(s.getValue());
        if (s.ok()) {
            World r(ctx);
            adopt(r, w);
            r.db = d;
            MC_CHECK(scanView(r, d).empty(), "records out of nowhere");
            MC_CHECK(!d->set(KV("a", "x")).ok(), "a write was accepted");
            DB::close(d);
            r.db = nullptr;
        } else MC_CHECK(idx < j.size(), "a complete, empty database cannot be opened read-only: %s", s.toString().c_str());
        untouched(img, "read-only opening of an incomplete database");
    }, []() { initEngine(); });
    return chk.run();
}
