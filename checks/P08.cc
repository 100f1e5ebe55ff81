// BUILD: seq
#include "dbh.h"
using namespace dbh;

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P08", "model_checking",
                  "all histories to the stated depth over keys, values and metadata of unusual shapes");
    auto S = [](const char* p, size_t n) { return std::string(p, n); };
    std::string k0 = S("\0", 1), k1 = S("a\0b", 3), k2 = S("\xff\xff", 2), k3(300, 'k'), k4 = S("a", 1);
    std::string big(5000, 'V'), m1 = S("\1\0\0\0\0", 5), m2(300, 'm');
    auto verify = [](World& w) {
        w.checkAll();
        // A deletion marker that was never near a compaction is still found by a metadata lookup.
        if (!w.extra["compacted"]) {
            for (auto& e : w.view()) {
                if (e.second.type != Record::DELETION) continue;
                Record r; Record::Holder h(r);
                Status s = w.db->getRecordByKey(SizedBuf(e.first), r, true);
                MC_CHECK(s.ok(), "metadata lookup of the deleted record of key '%s' returned %s", e.first.c_str(), s.toString().c_str());
                MC_CHECK(r.isDel() && sb2s(r.meta) == e.second.meta && r.seqNum == e.second.seq, "metadata lookup of deleted key '%s' returned "
                         "type %d meta '%s' seq %llu", e.first.c_str(), r.type, sb2s(r.meta).c_str(), (unsigned long long)r.seqNum);
            }
        }
    };
    Ops ops = {
        {"put k0 empty/empty", [=](World& w) { w.put(k0, "", "", 0); }},
        {"put k1 bin/meta", [=](World& w) { w.put(k1, std::string("x\0y", 3), m1, 0); }},
        {"put k1 big/bigmeta", [=](World& w) { w.put(k1, big, m2, 0); }},
        {"put k3 x/meta", [=](World& w) { w.put(k3, "x", "meta", 0); }},
        {"del k1 meta", [=](World& w) { w.put(k1, "", m1, Record::DELETION); }},
        {"del k0 bigmeta", [=](World& w) { w.put(k0, "ignored", m2, Record::DELETION); }},
        {"put a", [=](World& w) { w.put(k4, "v", "", 0); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.extra["compacted"] = 1; w.compactL0All(); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    int d = chk.thorough() ? 6 : 4;
    for (int le : {2, 16384})
        addSeqSpace(chk, "shapes-l" + std::to_string(le), ops, d,
                    [=](World& w) { w.cfg = baseConfig(le == 2 ? 1 : 2, le); w.extraProbes = {"aa", k2, S("a\0", 2)}; w.open(); }, verify);
    // Every pair of (key, value, metadata) shapes through the whole pipeline.
    std::vector<std::string> ks = {k0, k1, k2, k3, S("\0\0", 2), std::string(4000, 'K')};
    std::vector<std::string> vs = {"", S("\0", 1), "v", std::string(499, 'a'), std::string(500, 'a'), std::string(513, 'b'), std::string(70000, 'c')};
    std::vector<std::string> ms = {"", S("\1", 1), S("\1\0\0\0\0\0\0\0\1", 9), std::string(502, 'm'), std::string(503, 'm'), std::string(504, 'm'), std::string(512, 'n'), std::string(2000, 'n')};
    size_t n = ks.size() * vs.size() * ms.size() * 2;
    chk.add("pipeline", n, [=](uint64_t i, mc::CaseCtx& ctx) {
        int type = i % 2 ? Record::DELETION : Record::INSERTION; i /= 2;
        const std::string &k = ks[i % ks.size()]; i /= ks.size();
        const std::string &v = vs[i % vs.size()]; i /= vs.size();
        const std::string &m = ms[i % ms.size()];
        ctx.desc = mc::fmt("key of %zu, value of %zu, metadata of %zu bytes, type %d", k.size(), v.size(), m.size(), type);
        freshWorld();
        World w(ctx);
        w.cfg = baseConfig(1, 4);
        w.open();
        w.put("other", "1", "", 0);
        if (type) w.put(k, v, "", 0);
        w.put(k, v, m, type);
        verify(w);
        w.sync();
        w.reopen();
        verify(w);
        w.syncFlush();
        verify(w);
        w.reopen();
        verify(w);
        w.extra["compacted"] = 1;
        w.compactL0All();
        verify(w);
        w.reopen();
        verify(w);
        w.compactInplace(1);
        verify(w);
        w.compactLevel(1);
        verify(w);
        w.split(2);
        verify(w);
    }, []() { initEngine(); });
    return chk.run();
}
