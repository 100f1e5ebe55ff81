// BUILD: seq
#include "dbh.h"
#include "compactor.h"
#include "db_internal.h"
#include "db_mgr.h"
#include "flusher.h"
#include <algorithm>
using namespace dbh;

// Background maintenance in every strategy and configuration leaves the content alone.

static void runWorker(World& w, WorkerBase&& k) {
    w.ctx.transitions++;
    k.work();
    k.handle.join();
    w.ctx.note("%s ran", k.workerName.c_str());
}
static void compactor(World& w, int r) {
    simrt::setRand({r});
    runWorker(w, Compactor(mc::fmt("compactor(%d)", r), gcfg()));
}
static void flusher(World& w) {
    GlobalConfig g = gcfg();
    g.flusherMinRecordsToTrigger = 1;
    g.flusherAutoSync = true;
    uint64_t before = w.maxSeq;
    runWorker(w, Flusher("flusher", g));
    // It may have synced everything, and flushed everything.
    uint64_t f = 0;
    if (w.db->getLastSyncedSeqNum(f).ok()) { MC_CHECK(f <= before, "synced number %llu was never issued", (unsigned long long)f); w.syncedSeq = f; }
    if (w.db->getLastFlushedSeqNum(f).ok()) { MC_CHECK(f <= before, "flushed number %llu was never issued", (unsigned long long)f); w.flushedSeq = f; }
}
static CompactOptions opt(bool preserve, bool keepOld, bool ignore = false) {
    CompactOptions o;
    o.preserveTombstone = preserve;
    o.doNotRemoveOldFile = keepOld;
    o.ignoreThreshold = ignore;
    return o;
}
static void reopenParts(World& w) {
    w.close();
    w.cfg.numL0Partitions = w.cfg.numL0Partitions == 1 ? 3 : 1;
    w.open();
}
static void reopenPlain(World& w) { w.reopen(); }

static void verifyNoSeq(World& w) {
    View v = w.view();
    w.checkGets(w.db, v);
    w.checkKeyIter(w.db, v);
    w.checkSnaps(false);
}

// With a compaction callback: a record it drops may be missing, its key has no older version then; all others are untouched.
static bool isDrop(const MRec& r) { return r.val.compare(0, 1, "X") == 0; }
static std::set<uint64_t> g_asked;         // numbers the callback was asked about and dropped
static void verifyCb(World& w) {
    View v = w.view(), seen;
    auto look = [&](DB* d, const View& v, bool dropAllowed, const char* what) {
        View seen;
        for (auto& k : w.universe) {
            w.ctx.transitions++;
            Record r;
            Record::Holder h(r);
            Status s = d->getRecordByKey(SizedBuf(k), r);
            auto e = v.find(k);
            if (s.ok()) {
                MC_CHECK(e != v.end() && e->second.type == Record::INSERTION && e->second.seq == r.seqNum && e->second.val == sb2s(r.kv.value),
                         "%s: lookup of '%s' returned '%s' #%llu", what, k.c_str(), sb2s(r.kv.value).c_str(), (unsigned long long)r.seqNum);
                seen[k] = e->second;
            } else if (e != v.end() && e->second.type == Record::INSERTION) {
                MC_CHECK(dropAllowed && isDrop(e->second) && g_asked.count(e->second.seq), "%s: lookup of '%s' returned %s", what, k.c_str(), s.toString().c_str());
            }
        }
        for (int fwd = 0; fwd < 2; ++fwd) {
            std::vector<MRec> got = w.scan(d, fwd);
            if (!fwd) std::reverse(got.begin(), got.end());
            size_t i = 0;
            for (auto& e : seen) {
                // A snapshot may still find a dropped record in the log.
                if (d != w.db && isDrop(e.second) && (i >= got.size() || got[i].key != e.first)) continue;
                MC_CHECK(i < got.size() && got[i].key == e.first && got[i].seq == e.second.seq && got[i].val == e.second.val, "%s: key iteration disagrees with the lookup of '%s'", what, e.first.c_str());
                ++i;
            }
            MC_CHECK(i == got.size(), "%s: key iteration yields the extra key '%s'", what, got[i].key.c_str());
        }
    };
    look(w.db, v, true, "db");
    for (auto& s : w.snaps) look(s.db, s.view, true, "snapshot");
}
static void dropped(World& w) {
    // After compacting the only (last) level in place, dropped and deleted records are gone for good.
    std::vector<std::string> gone;
    for (auto& e : w.view()) if (e.second.type == Record::INSERTION && isDrop(e.second)) gone.push_back(e.first);
    w.syncFlush();
    w.compactL0All();
    for (auto& k : gone) {
        SizedBuf val;
        SizedBuf::Holder h(val);
        MC_CHECK(!w.db->get(SizedBuf(k), val).ok(), "'%s' is still there after compaction although the callback dropped it", k.c_str());
    }
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P13", "model_checking",
                  "all sequences of writes, flushes and maintenance tasks (also as chosen by the background workers) to the stated depth, in each configuration");
    Ops ops = {
        {"set b", [](World& w) { w.set("b"); }},
        {"del c", [](World& w) { w.del("c"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL0 keep tombstones", [](World& w) { w.compactL0All(opt(true, false)); }},
        {"compactL0 keep old file", [](World& w) { w.compactL0All(opt(false, true)); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"compactL2", [](World& w) { w.compactLevel(2); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"mergeL1", [](World& w) { w.merge(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1, opt(false, false, true)); }},
        {"inplaceL2 keep tombstones", [](World& w) { w.compactInplace(2, opt(true, false, true)); }},
        {"compactor 0", [](World& w) { compactor(w, 0); }},
        {"compactor 1", [](World& w) { compactor(w, 1); }},
        {"compactor 2", [](World& w) { compactor(w, 2); }},
        {"flusher", flusher},
        {"request compaction of table 1", [](World& w) { OKS(w.db->compactIdxUpto(CompactOptions(), 1, 60)); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size()) throw Prune{}; w.openSnap(); }},
        {"reopen", reopenPlain},
        {"reopen with other partitions", reopenParts},
    };
    struct Var { const char* name; std::function<void(DBConfig&)> set; bool seq; };
    std::vector<Var> vars = {
        {"default", [](DBConfig&) {}, true},
        {"fastscan", [](DBConfig& c) { c.fastIndexScan = true; }, true},
        {"noseq", [](DBConfig& c) { c.useSequenceIndex = false; }, false},
        {"purgelater", [](DBConfig& c) { c.purgeDeletedDocImmediately = false; c.bulkLoading = true; }, true},
        {"tiny", [](DBConfig& c) { c.maxL0TableSize = 1; c.maxL1TableSize = 1; c.maxL1Size = 1; c.minNumTablesPerLevel = 1; c.minWssToMerge = 1; c.levelSizeRatio = {2}; c.tableSizeRatio = {1}; }, true},
        {"hashprefix", [](DBConfig& c) { c.numL0Partitions = 3; c.bloomFilterBitsPerUnit = 10; c.maxL0TableSize = c.maxL1TableSize = 65536; c.customLenForHash = [](const HashKeyLenParams&) { return 1; }; }, true},
        {"parallel", [](DBConfig& c) { c.preFlushDirtySize = 1; c.preFlushDirtyInterval_sec = 1; c.numWritesToCompact = 1; c.compactionFactor = 1; c.safeMode = true; }, true},
        {"directio", [](DBConfig& c) { c.directIoOpt.enabled = true; }, true},
    };
    for (size_t i = 0; i < vars.size(); ++i) {
        Var v = vars[i];
        addSeqSpace(chk, v.name, ops, chk.thorough() ? 4 : 3, [=](World& w) {
            w.cfg = baseConfig(1, 3);
            w.cfg.maxParallelWritesPerJob = 1;
            v.set(w.cfg);
            w.extraProbes = {"aa"};
            w.open();
            for (auto k : {"a", "b", "c", "d"}) w.set(k);
            w.syncFlush();
            w.compactL0All();
            w.split(1);
            w.set("d"); w.del("a"); w.set("c");
            w.syncFlush();
        }, [=](World& w) {
            if (v.seq) w.checkAll(); else verifyNoSeq(w);
            w.reopen();
            if (v.seq) w.checkAll(false); else verifyNoSeq(w);
        });
    }
    // Custom decision per record.
    auto cb = [](const CompactionCbParams& p) {
        std::string v = sb2s(p.rec.kv.value), k = sb2s(p.rec.kv.key);
        MC_CHECK(k.size() == 1, "compaction callback received the key '%s'", k.c_str());
        if (v.compare(0, 1, "X")) return KEEP;
        g_asked.insert(p.rec.seqNum);
        return DROP;
    };
    Ops cops = {
        {"set b", [](World& w) { w.set("b"); }},
        {"set b droppable", [](World& w) { w.setv("b", mc::fmt("X%d", (int)w.maxSeq)); }},
        {"set c droppable", [](World& w) { w.setv("c", mc::fmt("X%d", (int)w.maxSeq)); }},
        {"del c", [](World& w) { w.del("c"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL0 keep tombstones", [](World& w) { w.compactL0All(opt(true, false)); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1, opt(false, false, true)); }},
        {"inplaceL2", [](World& w) { w.compactInplace(2, opt(false, false, true)); }},
        {"compactor", [](World& w) { compactor(w, 0); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size()) throw Prune{}; w.openSnap(); }},
        {"reopen", reopenPlain},
    };
    for (int v = 0; v < 2; ++v)
        addSeqSpace(chk, v ? "callback-l0only" : "callback", cops, chk.thorough() ? 5 : v ? 4 : 3, [=](World& w) {
            g_asked.clear();
            w.cfg = baseConfig(v + 1, 3);
            w.cfg.compactionCbFunc = cb;
            if (v) w.cfg.nextLevelExtension = false;
            w.open();
            for (auto k : {"a", "b", "c", "d"}) w.set(k);
            w.syncFlush();
            w.compactL0All();
            if (!v) w.split(1);
            w.setv("a", "X");
            w.set("c");
            w.syncFlush();
        }, [=](World& w) { verifyCb(w); w.reopen(); verifyCb(w); if (v) { dropped(w); verifyCb(w); } },
        1, [=](const std::vector<int>& s) { if (v) for (int i : s) if (i == 7 || i == 8 || i == 9 || i == 10) return false; return true; });
    // A single level of hash-partitioned tables, compacted in place.
    Ops lops = {
        {"set b", [](World& w) { w.set("b"); }},
        {"set a", [](World& w) { w.set("a"); }},
        {"del c", [](World& w) { w.del("c"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compact 0", [](World& w) { w.compactL0(0); }},
        {"compact 1", [](World& w) { w.compactL0(1); }},
        {"compact keep tombstones", [](World& w) { w.compactL0All(opt(true, false)); }},
        {"compactor", [](World& w) { compactor(w, 0); }},
        {"flusher", flusher},
        {"openSnapshot", [](World& w) { if (w.snaps.size()) throw Prune{}; w.openSnap(); }},
        {"reopen", reopenPlain},
    };
    for (int v = 0; v < 2; ++v)
        addSeqSpace(chk, v ? "l0only-fastscan" : "l0only", lops, chk.thorough() ? 5 : 4 - v, [=](World& w) {
            w.cfg = baseConfig(2, 3);
            w.cfg.nextLevelExtension = false;
            w.cfg.compactionFactor = 1;
            if (v) w.cfg.fastIndexScan = true, w.cfg.bloomFilterBitsPerUnit = 10;
            w.extraProbes = {"aa"};
            w.open();
            for (auto k : {"a", "b", "c", "d"}) w.set(k);
            w.syncFlush();
        }, [=](World& w) { w.checkAll(); w.reopen(); w.checkAll(false); });
    return chk.run();
}
