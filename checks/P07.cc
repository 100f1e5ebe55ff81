// BUILD: seq
#include "dbh.h"
using namespace dbh;

static void verifyStop(World& w, DB* d, const View& v, const char* what) {
    // STOP ends the search: no further callback, status OK.
    for (const char* p : {"a", "ab"}) {
        std::string ps = p;
        int total = 0;
        d->getRecordsByPrefix(SizedBuf(ps), [&](const SearchCbParams&) { total++; return NEXT; });
        for (int n = 1; n <= total; ++n) {
            int c = 0;
            Status s = d->getRecordsByPrefix(SizedBuf(ps), [&](const SearchCbParams&) { return ++c >= n ? STOP : NEXT; });
            MC_CHECK(s.ok(), "%s: stopped prefix search '%s' returned %s", what, p, s.toString().c_str());
            MC_CHECK(c == n, "%s: prefix search '%s' stopped after %d records invoked the callback %d times", what, p, n, c);
        }
        if (!total) {
            Status s = d->getRecordsByPrefix(SizedBuf(ps), [&](const SearchCbParams&) { return NEXT; });
            MC_CHECK(s == Status::KEY_NOT_FOUND, "%s: prefix search '%s' without match returned %s", what, p, s.toString().c_str());
        }
    }
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P07", "model_checking",
                  "all histories to the stated depth over keys sharing prefixes; every probe key and prefix x all four "
                  "nearest-search options at the end, on the database and on every open snapshot");
    auto verify = [](World& w) {
        View v = w.view();
        w.checkNearest(w.db, v);
        w.checkPrefix(w.db, v);
        verifyStop(w, w.db, v, "db");
        for (auto& s : w.snaps) {
            w.checkNearest(s.db, s.view, "snapshot");
            w.checkPrefix(s.db, s.view, "snapshot");
            verifyStop(w, s.db, s.view, "snapshot");
        }
    };
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set ab", [](World& w) { w.set("ab"); }},
        {"set abc", [](World& w) { w.set("abc"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"del ab", [](World& w) { w.del("ab"); }},
        {"del abc", [](World& w) { w.del("abc"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size() >= 1) throw Prune{}; w.openSnap(); }},
        {"checkpoint", [](World& w) { if (!w.maxSeq || w.chks.size() >= 1) throw Prune{}; w.checkpoint(); }},
        {"openCheckpoint", [](World& w) { 
            std::list<uint64_t> l; w.db->getCheckpoints(l);
            if (l.empty() || w.snaps.size() >= 1) throw Prune{}; w.openSnap(l.front()); }},
    };
    int d = chk.thorough() ? 6 : 5;
    for (int le : {2, 16384})
        addSeqSpace(chk, "ops-l" + std::to_string(le), ops, le == 2 ? d : d - 1,
                    [=](World& w) { w.cfg = baseConfig(le == 2 ? 1 : 2, le); w.extraProbes = {"aa", "abb", "abcd", "ac", "c"}; w.open(); }, verify);
    // From a database with several tables per level.
    Ops ops2 = {
        {"set abc", [](World& w) { w.set("abc"); }},
        {"del ab", [](World& w) { w.del("ab"); }},
        {"del ac", [](World& w) { w.del("ac"); }},
        {"del abc", [](World& w) { w.del("abc"); }},
        {"del abd", [](World& w) { w.del("abd"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"splitL2", [](World& w) { w.split(2); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size() >= 1) throw Prune{}; w.openSnap(); }},
    };
    int d2 = chk.thorough() ? 5 : 4;
    addSeqSpace(chk, "levels", ops2, d2, [=](World& w) {
        w.cfg = baseConfig(1, 2);
        w.extraProbes = {"aa", "abb", "c"};
        w.open();
        for (auto k : {"a", "ab", "abc", "abd", "ac", "b"}) w.set(k);
        w.syncFlush();
        w.compactL0All();
        w.split(1); w.split(1);
    }, verify);
    return chk.run();
}
