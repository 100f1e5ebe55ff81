// BUILD: seq
#include "dbh.h"
#include <algorithm>
using namespace dbh;

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P06", "model_checking",
                  "all histories to the stated depth mixing writes, checkpoints, flushes, compactions and reopenings; every "
                  "listed checkpoint is opened and fully compared with the history at its number");
    auto verify = [](World& w) {
        std::list<uint64_t> l;
        Status s = w.db->getCheckpoints(l);
        if (!s.ok()) {
            MC_CHECK(w.chks.empty(), "getCheckpoints returned %s although checkpoints were made", s.toString().c_str());
            return;
        }
        w.ctx.note("%zu checkpoints listed", l.size());
        size_t limit = w.cfg.maxKeepingCheckpoints;
        MC_CHECK(l.size() <= limit, "%zu checkpoints listed, limit is %zu", l.size(), limit);
        uint64_t prev = 0;
        for (uint64_t c : l) {
            w.ctx.note("  %llu", (unsigned long long)c);
            w.ctx.observe(c);
            MC_CHECK(c > prev, "checkpoint list is not in ascending order: %llu after %llu", (unsigned long long)c, (unsigned long long)prev);
            prev = c;
            MC_CHECK(std::count(w.chks.begin(), w.chks.end(), c), "checkpoint %llu listed but never made", (unsigned long long)c);
        }
        // Checkpoints whose records are still in the log are kept, up to the limit.
        size_t n = 0;
        for (auto it = w.chks.rbegin(); it != w.chks.rend() && n < limit; ++it, ++n) {
            if (*it <= w.flushedSeq) break;
            MC_CHECK(std::count(l.begin(), l.end(), *it), "checkpoint %llu was made and not flushed (flushed up to %llu) but is not listed",
                     (unsigned long long)*it, (unsigned long long)w.flushedSeq);
        }
        for (uint64_t c : w.chks) {
            if (std::count(l.begin(), l.end(), c)) continue;
            DB* d = nullptr;
            Status s = w.db->openSnapshot(&d, c);
            MC_CHECK(s == Status::INVALID_CHECKPOINT, "opening unlisted checkpoint %llu returned %s", (unsigned long long)c, s.toString().c_str());
        }
        for (uint64_t c : l) w.openSnap(c);
        for (auto& sn : w.snaps) {
            std::string n = "snapshot " + std::to_string(sn.chk) + " (upto " + std::to_string(sn.upto) + ")";
            w.checkGets(sn.db, sn.view, n.c_str());
            w.checkKeyIter(sn.db, sn.view, n.c_str());
            w.checkNearest(sn.db, sn.view, n.c_str());
            w.checkPrefix(sn.db, sn.view, n.c_str());
        }
        while (w.snaps.size()) w.closeSnap(0);
        w.checkAll(false);
    };
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"checkpoint", [](World& w) { if (w.maxSeq == 0) throw Prune{}; w.checkpoint(); }},
        {"sync", [](World& w) { w.sync(); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    int d = chk.thorough() ? 7 : 6;
    auto hasChk = [](const std::vector<int>& s) { for (int x : s) if (x == 3) return true; return false; };
    for (int parts = 1; parts <= 2; ++parts)
        for (int le : {2, 16384})
            if (parts == 1 || le == 2)
                addSeqSpace(chk, "ops-p" + std::to_string(parts) + "-l" + std::to_string(le), ops, parts == 1 && le == 2 ? d : d - 1,
                            [=](World& w) { w.cfg = baseConfig(parts, le); w.cfg.maxKeepingCheckpoints = 2; w.extraProbes = {"aa"}; w.open(); },
                            verify, 1, hasChk);
    // Partial flushes in the middle of checkpointed ranges, with checkpoints opened before further changes.
    Ops ops2 = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set c", [](World& w) { w.set("c"); }},
        {"del b", [](World& w) { w.del("b"); }},
        {"checkpoint", [](World& w) { w.checkpoint(); }},
        {"open last checkpoint", [](World& w) {
            std::list<uint64_t> l; w.db->getCheckpoints(l);
            if (l.empty() || w.snaps.size() >= 2) throw Prune{};
            w.openSnap(l.back()); }},
        {"flush to mid", [](World& w) { if (w.syncedSeq <= w.flushedSeq + 1) throw Prune{}; w.flush(FlushOptions(), (w.syncedSeq + w.flushedSeq) / 2); }},
        {"flush", [](World& w) { w.flush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1); }},
    };
    int d2 = chk.thorough() ? 6 : 5;
    auto hasChk2 = [](const std::vector<int>& s) { int n = 0; for (int x : s) if (x == 3 || x == 4) n++; return n >= 2; };
    addSeqSpace(chk, "levels", ops2, d2, [=](World& w) {
        w.cfg = baseConfig(1, 2);
        w.cfg.maxKeepingCheckpoints = 3;
        w.extraProbes = {"aa"};
        w.open();
        w.set("a"); w.set("b");
        w.syncFlush();
        w.compactL0All();
        w.set("b"); w.checkpoint(); w.set("a"); w.set("b");
        w.checkpoint();
    }, verify, 1, hasChk2);
    return chk.run();
}
