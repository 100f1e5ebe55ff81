// BUILD: seq
#include "dbh.h"
using namespace dbh;

// Physical layouts: each step list places versions of keys in different components.
struct Layout { const char* name; int parts, le; std::function<void(World&)> build; };

static std::vector<Layout> layouts() {
    std::vector<Layout> v;
    auto add = [&](const char* n, int p, int l, std::function<void(World&)> f) { v.push_back({n, p, l, f}); };
    add("empty", 1, 16384, [](World&) {});
    add("one log record", 1, 16384, [](World& w) { w.set("b"); });
    add("only a tombstone", 1, 16384, [](World& w) { w.set("b"); w.del("b"); });
    add("log only, 3 keys", 1, 16384, [](World& w) { w.set("d"); w.set("b"); w.set("f"); });
    add("log, one entry per file", 1, 1, [](World& w) { w.set("d"); w.set("b"); w.set("f"); w.set("b"); w.del("d"); });
    add("deleted ends in log", 1, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e"}) w.set(k); w.del("a"); w.del("e"); w.del("c"); });
    add("L0 only", 1, 16384, [](World& w) { w.set("d"); w.set("b"); w.set("f"); w.syncFlush(); });
    add("L0 with deleted ends", 1, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e"}) w.set(k); w.del("a"); w.del("e"); w.del("c"); w.syncFlush(); });
    add("two L0 partitions", 2, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k); w.syncFlush(); w.del("a"); w.del("d"); w.set("c"); });
    add("two L0 tables in a partition", 1, 16384, [](World& w) { w.set("b"); w.set("d"); w.syncFlush(); w.compactL0All(); w.set("c"); w.del("d"); w.syncFlush(); w.set("e"); });
    add("log over L0", 1, 2, [](World& w) { w.set("b"); w.set("d"); w.set("f"); w.syncFlush(); w.set("d"); w.del("f"); w.set("g"); w.set("a"); });
    add("tombstones shadow L0", 1, 16384, [](World& w) { w.set("b"); w.set("d"); w.set("f"); w.syncFlush(); w.del("b"); w.del("f"); });
    add("everything deleted", 1, 16384, [](World& w) { w.set("b"); w.set("d"); w.syncFlush(); w.del("b"); w.del("d"); });
    add("L1 one table", 1, 16384, [](World& w) { w.cfg.minNumTablesPerLevel = 1; w.reopen(); w.set("b"); w.set("d"); w.set("f"); w.syncFlush(); w.compactL0All(); });
    add("L1 two tables", 1, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k); w.syncFlush(); w.compactL0All(); });
    add("L1 two tables, L0 and log", 1, 2, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k); w.syncFlush(); w.compactL0All();
        w.set("b"); w.del("c"); w.set("cc"); w.syncFlush(); w.set("d"); w.del("f"); w.set("A"); });
    add("L1 boundary tombstones", 1, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k); w.syncFlush(); w.compactL0All();
        w.del("c"); w.del("d"); });
    add("L1 first table emptied", 1, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k); w.syncFlush(); w.compactL0All();
        w.del("a"); w.del("b"); w.del("c"); w.syncFlush(); });
    add("L1 last table emptied", 1, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k); w.syncFlush(); w.compactL0All();
        w.del("d"); w.del("e"); w.del("f"); w.syncFlush(); w.compactL0All(); });
    add("L2 and L1", 1, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k); w.syncFlush(); w.compactL0All(); w.compactLevel(1);
        w.set("b"); w.del("e"); w.set("g"); w.syncFlush(); w.compactL0All(); w.set("c"); w.del("b"); });
    add("split L1", 2, 16384, [](World& w) { for (auto k : {"a", "b", "c", "d", "e", "f", "g", "h"}) w.set(k); w.syncFlush(); w.compactL0All(); w.split(1); w.del("e"); w.set("d"); });
    return v;
}


int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P03", "model_checking",
                  "every iterator program up to the stated length on every physical layout and key range, and every "
                  "write history up to the stated depth followed by every seek, bounded scan and step");
    static std::vector<Layout> L = layouts();
    // Space A: all iterator programs over (layout, range).
    struct Rng { const char *s, *e; };
    static std::vector<Rng> R = {{"", ""}, {"b", ""}, {"", "e"}, {"b", "e"}, {"bb", "dd"}, {"d", "d"}, {"A", "a"}, {"g", "z"}, {"c", "d"}, {"e", "b"}};
    // Two alphabets: all operations to a smaller depth; a core to a larger one.
    struct Alpha { const char* name; std::vector<std::string> K; int depth; };
    static std::vector<Alpha> AL = {{"iterator-programs", {"A", "b", "cc", "d", "f", "z"}, chk.thorough() ? 4 : 3},
                                    {"iterator-programs-core", {"d"}, chk.thorough() ? 7 : 5}};
    for (auto& al : AL) {
    const std::vector<std::string>& K = al.K;
    int depth = al.depth;
    const int NOPS = 4 + 2 * K.size();
    // ops: 0 next 1 prev 2 gotoBegin 3 gotoEnd 4.. seek GREATER k, then SMALLER k
    chk.add(al.name, L.size() * R.size(), [&K, depth, NOPS](uint64_t idx, mc::CaseCtx& ctx) {
        const Layout& l = L[idx / R.size()];
        const Rng& r = R[idx % R.size()];
        freshWorld();
        World w(ctx);
        w.cfg = baseConfig(l.parts, l.le);
        w.open();
        l.build(w);
        ctx.desc = std::string(l.name) + ", range [" + r.s + "," + r.e + "]";
        View v = w.view();
        std::vector<std::string> keys;
        for (auto& k : w.sortedLive(v))
            if ((!*r.s || k >= r.s) && (!*r.e || k <= r.e)) keys.push_back(k);
        w.checkKeyIterRange(w.db, v, r.s, r.e);
        w.observeState();
        uint64_t n = mc::seqCount(NOPS, depth, depth);
        for (uint64_t si = 0; si < n; ++si) {
            std::vector<int> prog = mc::seqDecode(si, NOPS, depth, depth);
            std::string trace;
            Iterator it;
            Status s = it.init(w.db, *r.s ? SizedBuf(r.s) : SizedBuf(), *r.e ? SizedBuf(r.e) : SizedBuf());
            MC_CHECK(s.ok(), "iterator init returned %s", s.toString().c_str());
            int pos = keys.empty() ? -1 : 0;      // -1: unspecified
            bool lost = keys.empty();
            for (size_t i = 0; i <= prog.size(); ++i) {
                ctx.transitions++;
                Record rec;
                Record::Holder h(rec);
                if (!lost) {
                    s = it.get(rec);
                    MC_CHECK(s.ok(), "iterator program [%s]: get returned %s, expected key '%s' (%s)", trace.c_str(),
                             s.toString().c_str(), keys[pos].c_str(), ctx.desc.c_str());
                    const MRec& m = v.at(keys[pos]);
                    MC_CHECK(sb2s(rec.kv.key) == m.key && sb2s(rec.kv.value) == m.val && rec.seqNum == m.seq,
                             "iterator program [%s]: at key '%s'='%s', expected '%s'='%s' (%s)", trace.c_str(),
                             sb2s(rec.kv.key).c_str(), sb2s(rec.kv.value).c_str(), m.key.c_str(), m.val.c_str(), ctx.desc.c_str());
                } else {
                    s = it.get(rec);
                    if (s.ok()) {
                        auto e = v.find(sb2s(rec.kv.key));
                        MC_CHECK(e != v.end() && e->second.type == Record::INSERTION && e->second.seq == rec.seqNum &&
                                 (!*r.s || e->first >= r.s) && (!*r.e || e->first <= r.e),
                                 "iterator program [%s]: returns key '%s' seq %llu which is not a visible record in range (%s)", trace.c_str(),
                                 sb2s(rec.kv.key).c_str(), (unsigned long long)rec.seqNum, ctx.desc.c_str());
                    }
                }
                if (i == prog.size()) break;
                int o = prog[i];
                if (o < 2) {
                    s = o == 0 ? it.next() : it.prev();
                    trace += o == 0 ? "next " : "prev ";
                    if (lost) continue;
                    int np = pos + (o == 0 ? 1 : -1);
                    bool ok = np >= 0 && np < (int)keys.size();
                    MC_CHECK(s.ok() == ok, "iterator program [%s]: step from '%s' returned %s (%s)", trace.c_str(), keys[pos].c_str(),
                             s.toString().c_str(), ctx.desc.c_str());
                    if (ok) pos = np; else lost = true;   // position after a failed step is not relied upon
                } else if (o < 4) {
                    s = o == 2 ? it.gotoBegin() : it.gotoEnd();
                    trace += o == 2 ? "gotoBegin " : "gotoEnd ";
                    if (!keys.empty()) { lost = false; pos = o == 2 ? 0 : keys.size() - 1;
                        MC_CHECK(s.ok(), "iterator program [%s]: returned %s (%s)", trace.c_str(), s.toString().c_str(), ctx.desc.c_str()); }
                } else {
                    bool sm = (o - 4) >= (int)K.size();
                    const std::string& k = K[(o - 4) % K.size()];
                    s = it.seek(SizedBuf(k), sm ? Iterator::SMALLER : Iterator::GREATER);
                    trace += std::string("seek") + (sm ? "<=" : ">=") + k + " ";
                    int np = -1;
                    for (int q = 0; q < (int)keys.size(); ++q) {
                        if (!sm && keys[q] >= k) { np = q; break; }
                        if (sm && keys[q] <= k) np = q;
                    }
                    lost = np < 0;
                    pos = np;
                }
            }
            it.close();
        }
    }, []() { initEngine(); });
    }

    // Space B: write histories, then every seek / bounded scan.
    Ops ops = {
        {"set b", [](World& w) { w.set("b"); }},
        {"set d", [](World& w) { w.set("d"); }},
        {"set c", [](World& w) { w.set("c"); }},
        {"del b", [](World& w) { w.del("b"); }},
        {"del d", [](World& w) { w.del("d"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
    };
    int d = chk.thorough() ? 6 : 5;
    for (int parts = 1; parts <= 2; ++parts)
        addSeqSpace(chk, "histories-p" + std::to_string(parts), ops, d,
                    [=](World& w) { w.cfg = baseConfig(parts, 2); w.extraProbes = {"a", "bb", "e"}; w.open(); },
                    [](World& w) {
                        View v = w.view();
                        w.checkKeyIter(w.db, v);
                        for (const char* s : {"", "b", "bb", "c"})
                            for (const char* e : {"", "b", "c", "cc"})
                                if (*s || *e) w.checkKeyIterRange(w.db, v, s, e);
                    });
    return chk.run();
}
