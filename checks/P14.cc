// BUILD: seq
#include "dbh.h"
#include <string.h>
using namespace dbh;

// With a custom key order everything behaves as with that order.

static int revCmp(void* a, size_t la, void* b, size_t lb, void*) {
    std::string x((const char*)a, la), y((const char*)b, lb);
    return y < x ? -1 : x < y ? 1 : 0;
}
// decreasing length first, then by bytes
static int lenCmp(void* a, size_t la, void* b, size_t lb, void* param) {
    MC_CHECK(param == (void*)0x1234, "the comparison function received another parameter");
    if (la != lb) return la > lb ? -1 : 1;
    return memcmp(a, b, la);
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P14", "model_checking",
                  "all operation sequences to the stated depth under two key orders different from the bytewise one; every lookup, range scan, seek and nearest search at the end");
    auto setup = [](World& w, int v) {
        w.cfg.cmpFunc = v ? lenCmp : revCmp;
        w.cfg.cmpFuncParam = (void*)0x1234;
        if (v) w.less = [](const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() > b.size() : a < b; };
        else w.less = [](const std::string& a, const std::string& b) { return b < a; };
    };
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set bb", [](World& w) { w.set("bb"); }},
        {"set c", [](World& w) { w.set("c"); }},
        {"del bb", [](World& w) { w.del("bb"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"reopen", [](World& w) { w.reopen(); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size()) throw Prune{}; w.openSnap(); }},
    };
    auto verify = [](World& w) {
        View v = w.view();
        w.checkAll();
        w.checkNearest(w.db, v);
        for (auto a : {"", "a", "ab", "bb", "c"})
            for (auto b : {"", "a", "ab", "bb", "c"})
                w.checkKeyIterRange(w.db, v, a, b);
    };
    Ops lops = {
        {"set bb", [](World& w) { w.set("bb"); }},
        {"set e", [](World& w) { w.set("e"); }},
        {"del c", [](World& w) { w.del("c"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"splitL2", [](World& w) { w.split(2); }},
        {"mergeL1", [](World& w) { w.merge(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    for (int v = 0; v < 2; ++v) {
        const char* n = v ? "bylength" : "reverse";
        for (int le : {2, 16384})
            addSeqSpace(chk, std::string(n) + "-l" + std::to_string(le), ops, chk.thorough() ? 6 : 4,
                        [=](World& w) { w.cfg = baseConfig(le == 2 ? 1 : 2, le); setup(w, v); w.extraProbes = {"aa", "b", "d"}; w.open(); }, verify);
        addSeqSpace(chk, std::string(n) + "-levels", lops, chk.thorough() ? 5 : 3, [=](World& w) {
            w.cfg = baseConfig(1, 3);
            setup(w, v);
            w.extraProbes = {"aa"};
            w.open();
            for (auto k : {"a", "bb", "c", "d", "dd", "e"}) w.set(k);
            w.syncFlush();
            w.compactL0All();
            w.split(1);
            w.set("bb"); w.del("d");
            w.syncFlush();
        }, [=](World& w) { verify(w); w.reopen(); w.checkAll(false); });
    }
    return chk.run();
}
