// BUILD: seq
#include "logstore.h"
using namespace logstore;

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P09", "model_checking",
                  "all operation sequences up to the stated depth in log-store mode, including eviction and reloading of log files");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b+del a", [](World& w) { w.set("b"); w.del("a"); }},
        {"set meta c", [](World& w) { w.put("c", w.nextVal("c"), "m" + std::to_string(w.maxSeq), 0); }},
        {"sync", [](World& w) { w.sync(); }},
        {"purge synced", [](World& w) { w.flush(); }},
        {"purge upto synced-1", [](World& w) { if (w.syncedSeq < 2 || w.syncedSeq - 1 <= w.flushedSeq) prune(); w.flush(FlushOptions(), w.syncedSeq - 1); }},
        {"reclaim", reclaim},
        {"snapshot", [](World& w) { if (w.snaps.size()) prune(); w.openSnap(); w.extra[mc::fmt("from%p", (void*)w.snaps[0].db)] = w.flushedSeq; }},
        {"open iterator", holdItr},
        {"reopen", [](World& w) { if (held.it) closeItr(w); w.reopen(); }},
    };
    int d = chk.thorough() ? 5 : 4;
    for (int v = 0; v < 4; ++v) {
        // plain / eviction by time to live / by number of tables
        addSeqSpace(chk, std::string("ops-") + (v == 0 ? "plain" : v == 1 ? "ttl" : v == 2 ? "keep1" : "seq1"), ops, v == 0 || v == 2 || chk.thorough() ? d : d - 1, [=](World& w) {
            w.cfg = baseConfig(1, v == 3 ? 1 : 2);
            w.cfg.logSectionOnly = true;
            w.logOnly = true;
            held.it.reset();
            if (v) w.cfg.logFileTtl_sec = v == 1 ? 1 : 3600;
            if (v >= 2) w.cfg.maxKeepingMemtables = 1;
            w.open();
            w.set("a"); w.set("d"); w.set("b"); w.set("a"); w.set("c");
            w.sync();
            if (v == 1) simrt::advanceUs(5000000);
        }, verify);
    }
    // Crashes: every point of the last operation, every choice of lost unsynced data.
    Ops cops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b+c", [](World& w) { w.set("b"); w.set("c"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"purge synced", [](World& w) { w.flush(); }},
        {"purge upto synced-1", [](World& w) { if (w.syncedSeq < 2 || w.syncedSeq - 1 <= w.flushedSeq) prune(); w.flush(FlushOptions(), w.syncedSeq - 1); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    for (int v = 0; v < 2; ++v) {
        Run run;
        run.setup = [=](World& w) {
            w.cfg = baseConfig(1, v + 1);
            w.cfg.logSectionOnly = true;
            w.logOnly = true;
            if (v) w.cfg.logFileTtl_sec = 3600, w.cfg.maxKeepingMemtables = 1;
            held.it.reset();
            w.extra["purged0"] = 0;
            w.open();
        };
        run.after = [](World& r, uint64_t R, const Image& im) {
            r.setv("a", "new");
            r.sync();
            r.reopen();
            View got = scanView(r, r.db);
            for (auto& e : got) r.ctx.note("   found %s=%s #%llu", e.first.c_str(), e.second.val.c_str(), (unsigned long long)e.second.seq);
            for (auto& e : r.view()) r.ctx.note("   want %s=%s #%llu", e.first.c_str(), e.second.val.c_str(), (unsigned long long)e.second.seq);
            MC_CHECK(sameLive(got, r.view()), "content after recovery, a write, sync and reopen is wrong [%s]", im.label.c_str());
            r.checkGets(r.db, r.view(), "recovered db");
        };
        addCrashSpace(chk, v ? "crash-keep1" : "crash", cops, d, run, 1);
    }
    return chk.run();
}
