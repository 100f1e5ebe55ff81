// BUILD: seq
#include "dbh.h"
using namespace dbh;

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P05", "model_checking",
                  "all histories to the stated depth mixing writes, maintenance, snapshot opening and closing; every "
                  "open snapshot and every open iterator is fully verified at the end");
    auto verify = [](World& w) {
        w.checkGets(w.db, w.view());
        for (size_t i = 0; i < w.snaps.size(); ++i) {
            std::string n = "snapshot " + std::to_string(i) + " (upto " + std::to_string(w.snaps[i].upto) + ")";
            w.checkGets(w.snaps[i].db, w.snaps[i].view, n.c_str());
            w.checkKeyIter(w.snaps[i].db, w.snaps[i].view, n.c_str());
        }
        while (w.snaps.size()) w.closeSnap(w.snaps.size() / 2);
        w.checkAll(false);
    };
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size() >= 2) throw Prune{}; w.openSnap(); }},
        {"closeSnapshot", [](World& w) { if (w.snaps.empty()) throw Prune{}; w.closeSnap(0); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
    };
    int d = chk.thorough() ? 7 : 6;
    auto hasSnap = [](const std::vector<int>& s) { for (int x : s) if (x == 3) return true; return false; };
    for (int parts = 1; parts <= 2; ++parts)
        for (int le : {2, 16384})
            if (parts == 1 || le == 2)
                addSeqSpace(chk, "ops-p" + std::to_string(parts) + "-l" + std::to_string(le), ops,
                            parts == 1 && le == 2 ? d : d - 1,
                            [=](World& w) { w.cfg = baseConfig(parts, le); w.extraProbes = {"aa"}; w.open(); }, verify, 1, hasSnap);
    // From a database with populated levels: splits, merges, inter-level and in-place compactions under a snapshot.
    Ops ops2 = {
        {"set c", [](World& w) { w.set("c"); }},
        {"del d", [](World& w) { w.del("d"); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size() >= 2) throw Prune{}; w.openSnap(); }},
        {"closeSnapshot", [](World& w) { if (w.snaps.empty()) throw Prune{}; w.closeSnap(0); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1); }},
    };
    int d2 = chk.thorough() ? 6 : 4;
    auto hasSnap2 = [](const std::vector<int>& s) { for (int x : s) if (x == 2) return true; return false; };
    addSeqSpace(chk, "levels", ops2, d2, [=](World& w) {
        w.cfg = baseConfig(1, 2);
        w.extraProbes = {"aa"};
        w.open();
        for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k);
        w.syncFlush();
        w.compactL0All();
        w.set("b"); w.set("e"); w.del("f");
        w.syncFlush();
    }, verify, 1, hasSnap2);
    // Iterators opened before further changes keep showing the state at their creation.
    Ops ops3 = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set c", [](World& w) { w.set("c"); }},
        {"del b", [](World& w) { w.del("b"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
    };
    int pre = chk.thorough() ? 4 : 3, post = 3;
    uint64_t n1 = mc::seqCount(ops3.size(), pre, 0), n2 = mc::seqCount(ops3.size(), post, 1);
    chk.add("open-iterators", n1 * n2, [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::vector<int> p = mc::seqDecode(idx / n2, ops3.size(), pre, 0), q = mc::seqDecode(idx % n2, ops3.size(), post, 1);
        freshWorld();
        World w(ctx);
        w.cfg = baseConfig(1, 2);
        w.open();
        for (int i : p) { ctx.desc += ops3[i].name + ", "; ops3[i].fn(w); }
        ctx.desc += "[open iterators]";
        View v = w.view();
        std::vector<std::string> keys = w.sortedLive(v);
        uint64_t upto = w.maxSeq;
        Iterator kf, kb, sq;
        OKS(kf.init(w.db));
        OKS(kb.init(w.db));
        OKS(sq.initSN(w.db));
        kb.gotoEnd();
        for (int i : q) { ctx.desc += ", " + ops3[i].name; ops3[i].fn(w); }
        w.observeState();
        for (int dir = 0; dir < 2; ++dir) {
            Iterator& it = dir ? kb : kf;
            std::vector<std::string> e = keys;
            if (dir) std::reverse(e.begin(), e.end());
            for (size_t i = 0; i < e.size(); ++i) {
                Record r; Record::Holder h(r);
                Status s = it.get(r);
                const MRec& m = v.at(e[i]);
                MC_CHECK(s.ok() && sb2s(r.kv.key) == e[i] && sb2s(r.kv.value) == m.val && r.seqNum == m.seq,
                         "iterator opened before the change shows '%s'='%s' (%s) instead of '%s'='%s'", sb2s(r.kv.key).c_str(),
                         sb2s(r.kv.value).c_str(), s.toString().c_str(), e[i].c_str(), m.val.c_str());
                s = dir ? it.prev() : it.next();
                MC_CHECK(s.ok() == (i + 1 < e.size()), "iterator opened before the change: step from '%s' returned %s", e[i].c_str(), s.toString().c_str());
            }
            if (e.empty()) { Record r; Record::Holder h(r); MC_CHECK(!it.get(r).ok(), "iterator over an empty view returns key '%s'", sb2s(r.kv.key).c_str()); }
        }
        std::set<std::string> seen;
        for (int n = 0; n < 100; ++n) {
            Record r; Record::Holder h(r);
            if (!sq.get(r).ok()) break;
            MC_CHECK(r.seqNum <= upto, "sequence iterator opened before the change shows later number %llu", (unsigned long long)r.seqNum);
            std::string k = sb2s(r.kv.key);
            if (v.at(k).seq == r.seqNum) { MC_CHECK(v.at(k).type || sb2s(r.kv.value) == v.at(k).val, "wrong value for key '%s'", k.c_str()); seen.insert(k); }
            if (!sq.next().ok()) break;
        }
        for (auto& k : keys) MC_CHECK(seen.count(k), "sequence iterator opened before the change misses key '%s'", k.c_str());
        kf.close(); kb.close(); sq.close();
        w.checkAll(false);
    }, []() { initEngine(); });
    return chk.run();
}
