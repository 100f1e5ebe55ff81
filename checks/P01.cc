// BUILD: seq
#include "dbh.h"
using namespace dbh;

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P01", "model_checking",
                  "all operation sequences up to the stated depth over the alphabet, on the real library");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set bb", [](World& w) { w.set("bb"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    int d = chk.thorough() ? 7 : 5;
    for (int parts = 1; parts <= 2; ++parts)
        for (int le : {16384, 2}) {
            addSeqSpace(chk, "ops-p" + std::to_string(parts) + "-l" + std::to_string(le), ops, d,
                        [=](World& w) { w.cfg = baseConfig(parts, le); w.extraProbes = {"A", "aa", "b", "c"}; w.open(); },
                        [](World& w) { w.checkAll(); });
        }
    // Deeper levels, with and without the table filters and lookup caches.
    Ops ops2 = {
        {"set c", [](World& w) { w.set("c"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"del d", [](World& w) { w.del("d"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1); }},
        {"get all", [](World& w) { w.checkGets(w.db, w.view()); }},
    };
    int d2 = chk.thorough() ? 6 : 4;
    for (int v = 0; v < 4; ++v)
        addSeqSpace(chk, "levels-" + std::string(v & 1 ? "filter" : "plain") + (v & 2 ? "-cache" : ""), ops2, v ? d2 - 1 : d2, [=](World& w) {
            w.cfg = baseConfig(1, 2);
            if (v & 1) w.cfg.bloomFilterBitsPerUnit = 10;
            if (v & 2) w.cfg.lookupBoosterLimit_mb = {1, 1};
            w.extraProbes = {"aa", "e"};
            w.open();
            for (auto k : {"a", "b", "c", "d"}) w.set(k);
            w.syncFlush();
            w.compactL0All();
            w.set("b"); w.set("d");
            w.syncFlush();
        }, [](World& w) { w.checkAll(false); w.reopen(); w.checkAll(false); });
    // Flush up to a given number, also beyond what has been synced.
    Ops ops3 = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"flush", [](World& w) { w.flush(); }},
        {"flush upto last", [](World& w) { if (!w.maxSeq) throw Prune{}; w.flush(FlushOptions(), w.maxSeq); }},
        {"flush upto last-1", [](World& w) { if (w.maxSeq < 2) throw Prune{}; w.flush(FlushOptions(), w.maxSeq - 1); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    for (int le : {1, 2, 16384})
        addSeqSpace(chk, "upto-l" + std::to_string(le), ops3, chk.thorough() ? 6 : 5,
                    [=](World& w) { w.cfg = baseConfig(1, le); w.open(); },
                    [](World& w) { w.checkAll(false); w.reopen(); w.checkAll(false); });
    return chk.run();
}
