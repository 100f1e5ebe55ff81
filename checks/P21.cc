// BUILD: pseq
#include "crash.h"
#include <algorithm>
using namespace crash;

static void after(World& r, uint64_t R, const Image& im) {
    if (im.weak) return;
    // Everything reachable agrees with the recovered history.
    View v = r.view();
    r.checkGets(r.db, v, "recovered db");
    r.checkKeyIter(r.db, v, "recovered db");
    // Checkpoints listed after the crash were made before it and show their state.
    std::list<uint64_t> l;
    r.db->getCheckpoints(l);
    for (uint64_t c : l) {
        MC_CHECK(std::count(r.chks.begin(), r.chks.end(), c) || c > R, "checkpoint %llu listed after a crash was never made [%s]", (unsigned long long)c, im.label.c_str());
        DB* d = nullptr;
        OKS(r.db->openSnapshot(&d, c));
        MC_CHECK(sameLive(scanView(r, d), r.viewAt(c)), "checkpoint %llu shows a wrong state after a crash [%s]", (unsigned long long)c, im.label.c_str());
        DB::close(d);
    }
    // Maintenance still works on it and loses nothing.
    r.set("b");
    r.sync();
    r.flush();
    r.compactL0All();
    r.compactLevel(1);
    r.reopen();
    v = r.view();
    MC_CHECK(sameLive(scanView(r, r.db), v), "content after recovery, a write, flush, compaction and reopen is wrong [%s]", im.label.c_str());
    r.checkGets(r.db, v, "recovered db after maintenance");
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P21", "fault_enumeration",
                  "every history of structural operations to the stated depth x every crash point in its last operation x every choice of surviving unsynced data; "
                  "crashes during the recovery itself");
    chk.assume("metadata operations (create, unlink, rename) reach the disk in order; data of one file reaches the disk in order, the last write possibly torn; data of different files independently");
    Run run;
    run.after = after;
    Ops ops = {
        {"set b", [](World& w) { w.set("b"); }},
        {"del c", [](World& w) { w.del("c"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"flush", [](World& w) { w.flush(); }},
        {"checkpoint", [](World& w) { w.checkpoint(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"mergeL1", [](World& w) { w.merge(1); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"compactL2", [](World& w) { w.compactLevel(2); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    auto fixture = [](World& w) {
        w.cfg = baseConfig(2, 3);
        w.open();
        for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k);
        w.syncFlush();
        w.compactL0All();
        w.split(1);
        w.del("a"); w.set("b"); w.set("e");
        w.syncFlush();
        w.set("d");
        w.sync();
    };
    run.setup = fixture;
    int d = chk.thorough() ? 4 : 3;
    // Structural operations last; plain writes and syncs are P20's subject.
    addCrashSpace(chk, "structure", ops, d, run, 1, [](const std::vector<int>& s) { return s.back() >= 3; });

    // Non-LSM mode: level 0 only.
    Ops ops0 = {
        {"set b", [](World& w) { w.set("b"); }},
        {"del c", [](World& w) { w.del("c"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"checkpoint", [](World& w) { w.checkpoint(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    {
        Run r = run;
        r.setup = [](World& w) {
            w.cfg = baseConfig(2, 3);
            w.cfg.nextLevelExtension = false;
            w.open();
            for (auto k : {"a", "b", "c", "d"}) w.set(k);
            w.syncFlush();
        };
        r.after = [](World& r, uint64_t R, const Image& im) {
            if (im.weak) return;
            View v = r.view();
            r.checkGets(r.db, v, "recovered db");
            r.set("b");
            r.syncFlush();
            r.compactL0All();
            r.reopen();
            MC_CHECK(sameLive(scanView(r, r.db), r.view()), "content after recovery, a write, flush, compaction and reopen is wrong [%s]", im.label.c_str());
        };
        addCrashSpace(chk, "level0-only", ops0, d, r);
    }

    // Crashes while recovering from a crash.
    Ops opsR = {
        {"set b", [](World& w) { w.set("b"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"flush", [](World& w) { w.flush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
    };
    Run rr = run;
    rr.after = [](World& r, uint64_t R, const Image& im) {
        if (im.weak) return;
        DB::close(r.db);
        r.db = nullptr;
        simfs::restore(im.img);
        fdbsim_reset();
        simfs::journalStart();
        DB* d = nullptr;
        OKS(DB::open(&d, r.path, r.cfg));
        OKS(DB::close(d));
        std::vector<simfs::Op> j = simfs::journal();
        simfs::journalStop();
        std::map<uint64_t, uint64_t> seen;
        Options o;
        o.torn = false;
        World base(r.ctx);
        base.cfg = r.cfg; base.path = r.path; base.hist = r.hist; base.universe = r.universe; base.extraProbes = r.extraProbes;
        uint64_t lo = R;
        images(im.img, j, 0, j.size(), o, seen, [&](const Image& im2, size_t) {
            r.ctx.transitions++;
            Image i3 = im2;
            i3.label = im.label + " and then while recovering, " + im2.label;
            World q(r.ctx);
            recover(q, base, i3, lo, lo);
        });
    };
    addCrashSpace(chk, "crash-in-recovery", opsR, chk.thorough() ? 2 : 1, rr);
    return chk.run();
}
