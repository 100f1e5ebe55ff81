// BUILD: seq
#include "dbh.h"
using namespace dbh;

static const uint64_t NONE = (uint64_t)-1;

static std::vector<MRec> scanSN(World& w, DB* d, uint64_t lo, uint64_t hi, bool fwd, bool& inited) {
    std::vector<MRec> out;
    Iterator it;
    w.ctx.transitions++;
    Status s = it.initSN(d, lo, hi);
    inited = s.ok();
    if (!inited) return out;
    if (!fwd) it.gotoEnd();
    for (int n = 0; n < 1000; ++n) {
        Record r;
        Record::Holder h(r);
        s = it.get(r);
        if (!s.ok()) break;
        MRec m;
        m.key = sb2s(r.kv.key); m.val = sb2s(r.kv.value); m.meta = sb2s(r.meta);
        m.seq = r.seqNum; m.type = r.type;
        out.push_back(m);
        s = fwd ? it.next() : it.prev();
        if (!s.ok()) break;
    }
    it.close();
    return out;
}
static std::string show(const std::vector<MRec>& v) {
    std::string s;
    for (auto& m : v) s += std::to_string(m.seq) + ":" + m.key + (m.type ? "(del) " : " ");
    return s;
}

// Every yielded record is a genuine write of its sequence number; numbers
// increase; every write still in the log section and every live record appears.
static std::vector<MRec> checkRange(World& w, DB* d, uint64_t upto, uint64_t lo, uint64_t hi, const char* what) {
    bool ini;
    std::vector<MRec> f = scanSN(w, d, lo, hi, true, ini);
    uint64_t l = lo == NONE ? 0 : lo, h = std::min(hi, upto);
    View v = w.viewAt(upto);
    uint64_t prev = 0;
    std::set<uint64_t> seen;
    for (auto& m : f) {
        MC_CHECK(m.seq > prev || (&m == &f[0]), "%s: sequence iteration of [%lld,%lld] is not increasing: { %s}", what, (long long)lo, (long long)hi, show(f).c_str());
        prev = m.seq;
        seen.insert(m.seq);
        MC_CHECK(m.seq >= l && m.seq <= h, "%s: sequence iteration of [%lld,%lld] up to %llu yields { %s}", what, (long long)lo, (long long)hi, (unsigned long long)upto, show(f).c_str());
        const MRec* x = nullptr;
        for (auto& q : w.hist) if (q.seq == m.seq) x = &q;
        MC_CHECK(x && x->key == m.key && x->type == m.type && (x->type || x->val == m.val) && x->meta == m.meta,
                 "%s: sequence iteration yields number %llu with key '%s' value '%s' type %d; written: %s", what,
                 (unsigned long long)m.seq, m.key.c_str(), m.val.c_str(), m.type, x ? x->key.c_str() : "nothing");
    }
    for (auto& q : w.hist) {
        if (q.seq < l || q.seq > h) continue;
        bool must = q.seq > w.flushedSeq;
        auto e = v.find(q.key);
        if (e->second.seq == q.seq && q.type == Record::INSERTION) must = true;
        MC_CHECK(!must || seen.count(q.seq), "%s: sequence iteration of [%lld,%lld] misses number %llu (key '%s'): { %s}", what,
                 (long long)lo, (long long)hi, (unsigned long long)q.seq, q.key.c_str(), show(f).c_str());
    }
    std::vector<MRec> b = scanSN(w, d, lo, hi, false, ini);
    std::reverse(b.begin(), b.end());
    bool same = b.size() == f.size();
    for (size_t i = 0; same && i < b.size(); ++i) same = b[i].seq == f[i].seq && b[i].key == f[i].key && b[i].val == f[i].val;
    MC_CHECK(same, "%s: backward sequence iteration of [%lld,%lld] yields { %s} (reversed), forward yields { %s}", what,
             (long long)lo, (long long)hi, show(b).c_str(), show(f).c_str());
    return f;
}

static void programs(World& w, DB* d, const std::vector<MRec>& L, uint64_t lo, uint64_t hi, int depth) {
    std::vector<uint64_t> T = {0, 2, 4, 7, 20};
    int NOPS = 4 + 2 * T.size();
    uint64_t n = mc::seqCount(NOPS, depth, depth);
    for (uint64_t si = 0; si < n; ++si) {
        std::vector<int> prog = mc::seqDecode(si, NOPS, depth, depth);
        Iterator it;
        OKS(it.initSN(d, lo, hi));
        std::string tr;
        int pos = 0;
        bool lost = L.empty();
        for (size_t i = 0; i <= prog.size(); ++i) {
            w.ctx.transitions++;
            Record r; Record::Holder h(r);
            Status s = it.get(r);
            if (!lost) {
                MC_CHECK(s.ok() && r.seqNum == L[pos].seq && sb2s(r.kv.key) == L[pos].key && sb2s(r.kv.value) == L[pos].val,
                         "sequence iterator program [%s] over [%lld,%lld] { %s}: at %s number %llu, expected %llu", tr.c_str(), (long long)lo, (long long)hi,
                         show(L).c_str(), s.toString().c_str(), (unsigned long long)(s.ok() ? r.seqNum : 0), (unsigned long long)L[pos].seq);
            } else if (s.ok()) {
                bool in = false;
                for (auto& m : L) if (m.seq == r.seqNum && m.key == sb2s(r.kv.key)) in = true;
                MC_CHECK(in, "sequence iterator program [%s] over [%lld,%lld] { %s}: returns number %llu which is not in the range", tr.c_str(), (long long)lo, (long long)hi,
                         show(L).c_str(), (unsigned long long)r.seqNum);
            }
            if (i == prog.size()) break;
            int o = prog[i];
            if (o < 2) {
                s = o ? it.prev() : it.next();
                tr += o ? "prev " : "next ";
                if (lost) continue;
                int np = pos + (o ? -1 : 1);
                bool ok = np >= 0 && np < (int)L.size();
                MC_CHECK(s.ok() == ok, "sequence iterator program [%s] over [%lld,%lld] { %s}: step returned %s", tr.c_str(), (long long)lo, (long long)hi, show(L).c_str(), s.toString().c_str());
                if (ok) pos = np; else lost = true;
            } else if (o < 4) {
                s = o == 2 ? it.gotoBegin() : it.gotoEnd();
                tr += o == 2 ? "gotoBegin " : "gotoEnd ";
                if (!L.empty()) { lost = false; pos = o == 2 ? 0 : L.size() - 1; }
            } else {
                bool sm = (o - 4) >= (int)T.size();
                uint64_t t = T[(o - 4) % T.size()];
                s = it.seekSN(t, sm ? Iterator::SMALLER : Iterator::GREATER);
                tr += std::string("seek") + (sm ? "<=" : ">=") + std::to_string(t) + " ";
                int np = -1;
                for (int q = 0; q < (int)L.size(); ++q) {
                    if (!sm && L[q].seq >= t) { np = q; break; }
                    if (sm && L[q].seq <= t) np = q;
                }
                lost = np < 0; pos = np;
            }
        }
        it.close();
    }
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P04", "model_checking",
                  "all write histories to the stated depth, all sequence ranges, all iterator programs of the stated length");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"setSN b +2", [](World& w) { w.put("b", w.nextVal("b"), "m", 0, w.maxSeq + 2); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"openSnapshot", [](World& w) { if (w.snaps.size() >= 1) throw Prune{}; w.openSnap(); }},
    };
    int d = chk.thorough() ? 6 : 5;
    for (int le : {2, 16384})
        addSeqSpace(chk, "histories-l" + std::to_string(le), ops, d,
                    [=](World& w) { w.cfg = baseConfig(1, le); w.open(); },
                    [](World& w) {
                        std::vector<uint64_t> pts = {NONE, 0, 1, 2, 3, 5, 8};
                        for (uint64_t lo : pts)
                            for (uint64_t hi : pts)
                                if (hi && (lo == NONE || hi == NONE || lo <= hi)) checkRange(w, w.db, w.maxSeq, lo, hi, "db");
                        for (auto& s : w.snaps) {
                            uint64_t fl = w.flushedSeq;
                            w.flushedSeq = (uint64_t)-2;    // what a snapshot must still yield: live records
                            checkRange(w, s.db, s.upto, NONE, NONE, "snapshot");
                            w.flushedSeq = fl;
                        }
                    });
    // Programs over selected layouts.
    struct Lay { const char* n; int le; std::function<void(World&)> f; };
    static std::vector<Lay> L = {
        {"log only", 16384, [](World& w) { for (auto k : {"a", "b", "a", "c"}) w.set(k); w.del("b"); w.set("d"); }},
        {"log in several files", 2, [](World& w) { for (auto k : {"a", "b", "a", "c"}) w.set(k); w.del("b"); w.set("d"); }},
        {"table only", 16384, [](World& w) { for (auto k : {"a", "b", "a", "c"}) w.set(k); w.del("b"); w.set("d"); w.syncFlush(); }},
        {"table and log", 2, [](World& w) { for (auto k : {"a", "b", "c", "d"}) w.set(k); w.syncFlush(); w.set("a"); w.del("c"); w.set("e"); }},
        {"L1, L0 and log", 2, [](World& w) { for (auto k : {"a", "b", "c", "d"}) w.set(k); w.syncFlush(); w.compactL0All(); w.set("a"); w.del("c"); w.syncFlush(); w.set("e"); w.set("b"); }},
        {"gaps", 2, [](World& w) { w.put("a", "1", "", 0, 2); w.put("b", "2", "", 0, 4); w.syncFlush(); w.put("c", "3", "", 0, 7); w.put("a", "4", "", 1, 11); w.put("d", "5", "", 0, 15); }},
    };
    static std::vector<std::pair<uint64_t, uint64_t>> R = {{NONE, NONE}, {2, NONE}, {NONE, 4}, {2, 5}, {3, 3}, {5, 7}};
    static int pd = chk.thorough() ? 5 : 4;
    chk.add("iterator-programs", L.size() * R.size(), [](uint64_t idx, mc::CaseCtx& ctx) {
        auto& l = L[idx / R.size()];
        auto r = R[idx % R.size()];
        freshWorld();
        World w(ctx);
        w.cfg = baseConfig(1, l.le);
        w.open();
        l.f(w);
        ctx.desc = std::string(l.n) + " range " + std::to_string((long long)r.first) + ".." + std::to_string((long long)r.second);
        w.observeState();
        std::vector<MRec> f = checkRange(w, w.db, w.maxSeq, r.first, r.second, "db");
        programs(w, w.db, f, r.first, r.second, pd);
    }, []() { initEngine(); });
    return chk.run();
}
