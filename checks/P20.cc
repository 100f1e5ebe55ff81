// BUILD: pseq
#include "crash.h"
using namespace crash;

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P20", "fault_enumeration",
                  "every history to the stated depth x every crash point in its last operation x every choice of surviving unsynced data per file");
    chk.assume("metadata operations (create, unlink, rename) reach the disk in order; data of one file reaches the disk in order, the last write possibly torn; data of different files independently");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"flush", [](World& w) { w.flush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    Run run;
    // The recovered database must be usable: new writes, sync, another crash.
    run.after = [](World& r, uint64_t R, const Image& im) {
        uint64_t before = r.maxSeq;
        r.setv("a", "new");
        uint64_t m = 0;
        OKS(r.db->getMaxSeqNum(m));
        if (im.weak) {      // outside the promise; still usable
            r.sync();
            r.reopen();
            SizedBuf out;
            Status s = r.db->get(SizedBuf("a"), out);
            MC_CHECK(s.ok() && sb2s(out) == "new", "a new write is lost after recovery [%s]", im.label.c_str());
            out.free();
            return;
        }
        MC_CHECK(m > R && m == before + 1, "after recovering #%llu (reported %llu) a new write got #%llu [%s]", (unsigned long long)R, (unsigned long long)before, (unsigned long long)m, im.label.c_str());
        r.sync();
        if (R & 1) {
            r.flush();
            MC_CHECK(sameLive(scanView(r, r.db), r.view()), "content after recovery, a write, sync and flush is wrong [%s]", im.label.c_str());
        }
        r.reopen();
        View got = scanView(r, r.db);
        MC_CHECK(sameLive(got, r.view()), "content after recovery, a write, sync and reopen is wrong [%s]", im.label.c_str());
        r.checkGets(r.db, r.view(), "recovered db");
        // Recovered records reach the tables and stay readable from there.
        int fs = r.flush();
        MC_CHECK(fs == Status::OK || fs == Status::ALREADY_FLUSHED || fs == Status::LOG_NOT_SYNCED, "flush after recovery returned %d [%s]", fs, im.label.c_str());
        MC_CHECK(sameLive(scanView(r, r.db), r.view()), "content after recovery, reopen and flush is wrong [%s]", im.label.c_str());
        r.compactL0All();
        r.reopen();
        MC_CHECK(sameLive(scanView(r, r.db), r.view()), "content after recovery, flush, compaction and reopen is wrong [%s]", im.label.c_str());
    };
    int d = chk.thorough() ? 5 : 4;
    for (int le : {2, 16384}) {
        Run r = run;
        r.setup = [=](World& w) { w.cfg = baseConfig(le == 2 ? 1 : 2, le); w.open(); };
        addCrashSpace(chk, "ops-l" + std::to_string(le), ops, le == 2 ? d : d - 1, r);
        addCrashSpace(chk, "open-l" + std::to_string(le), ops, 0, r);
    }
    // Partial syncs and flushes, checkpoints, several log files.
    Ops ops2 = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b+c", [](World& w) { w.set("b"); w.set("c"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"sync(nofsync)", [](World& w) { w.sync(false); }},
        {"flush", [](World& w) { w.flush(); }},
        {"flush first", [](World& w) { if (w.syncedSeq < 2) throw Prune{}; w.flush(FlushOptions(), w.syncedSeq - 1); }},
        {"checkpoint", [](World& w) { if (!w.maxSeq) throw Prune{}; w.checkpoint(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
    };
    {
        Run r = run;
        r.setup = [=](World& w) { w.cfg = baseConfig(1, 2); w.open(); w.set("a"); w.set("d"); w.set("b"); w.sync(); w.del("d"); };
        addCrashSpace(chk, "mixed", ops2, d, r);
    }
    return chk.run();
}
