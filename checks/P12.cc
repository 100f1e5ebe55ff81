// BUILD: tseq
// P12: a global batch takes place in all of its databases at once, or in none.
#include "dbh.h"
#include "thr.h"
#include <libjungle/global_batch.h>
#include <libjungle/iterator.h>
#include <map>
using namespace dbh;
using mc::fmt;

namespace {
bool fresh = false;                // the databases hold no record yet (layout 3)
// Two (three) databases: separate ones, or stores of one group.
struct Env {
    World w0;                      // (for its lifecycle helpers)
    DBGroup* group = nullptr;
    std::vector<DB*> db;
    DBConfig cfg;
    bool grouped;
    int layout;
    Env(mc::CaseCtx& c, bool g, int lay, int n = 2) : w0(c), grouped(g), layout(lay) {
        cfg = baseConfig(1, layout == 2 ? 2 : 16384);
        if (!g) {
            for (int i = 0; i < n; ++i) {
                DB* d = nullptr;
                OKS(DB::open(&d, w0.path + std::to_string(n - i), cfg));   // (the order of paths is not that of the batch)
                db.push_back(d);
            }
        } else {
            OKS(DBGroup::open(&group, w0.path, cfg));
            DB* d = nullptr;
            OKS(group->openDefaultDB(&d));
            db.push_back(d);
            for (int i = 1; i < n; ++i) {
                OKS(group->openDB(&d, "kvs" + std::to_string(i)));
                db.push_back(d);
            }
        }
        fresh = layout == 3;
        if (fresh) return;
        for (auto d : db) for (auto k : {"a", "b"}) OKS(d->set(KV(k, "0")));
        if (layout >= 1) for (auto d : db) { OKS(d->sync(false)); OKS(d->flushLogs(FlushOptions())); }
    }
    void close() {
        if (group) { for (size_t i = 1; i < db.size(); ++i) OKS(DB::close(db[i])); OKS(DBGroup::close(group)); group = nullptr; }
        else for (auto d : db) OKS(DB::close(d));
        db.clear();
    }
    void reopen() {
        size_t n = db.size();
        close();
        for (size_t i = 0; i < n; ++i) {
            DB* d = nullptr;
            if (!grouped) OKS(DB::open(&d, w0.path + std::to_string(n - i), cfg));
            else {
                if (!i) OKS(DBGroup::open(&group, w0.path, cfg));
                if (!i) OKS(group->openDefaultDB(&d));
                else OKS(group->openDB(&d, "kvs" + std::to_string(i)));
            }
            db.push_back(d);
        }
    }
};
Record R(const std::string& k, const std::string& v, uint64_t seq = 0) {
    Record r;
    r.kv.key.alloc(k);
    if (!v.empty()) r.kv.value.alloc(v);
    if (seq) r.seqNum = seq;
    return r;
}
std::string val(DB* d, const char* k) {
    SizedBuf o;
    SizedBuf::Holder h(o);
    Status s = d->get(SizedBuf(std::string(k)), o);
    if (s == Status::KEY_NOT_FOUND) return fresh ? "0" : "-";
    MC_CHECK(s.ok(), "get of %s returned %s", k, s.toString().c_str());
    return sb2s(o);
}
std::map<std::string, std::string> scan(DB* d) {
    std::map<std::string, std::string> m;
    Iterator it;
    OKS(it.init(d));
    for (;;) {
        Record r;
        Record::Holder h(r);
        if (!it.get(r).ok()) break;
        m[sb2s(r.kv.key)] = sb2s(r.kv.value);
        if (!it.next().ok()) break;
    }
    it.close();
    return m;
}
void freeRecs(std::list<Record>& l) { for (auto& r : l) r.free(); l.clear(); }
// Both keys of every database become `v`.
Status global(std::vector<DB*> dbs, const std::string& v, bool reverse) {
    if (reverse) std::reverse(dbs.begin(), dbs.end());
    std::list<DB*> l(dbs.begin(), dbs.end());
    std::list<std::list<Record>> b;
    for (size_t i = 0; i < dbs.size(); ++i) { b.emplace_back(); b.back().push_back(R("a", v)); b.back().push_back(R("b", v)); }
    GlobalBatch g(l, b);
    Status s = g.execute();
    for (auto& x : b) freeRecs(x);
    return s;
}

// What a reader does; every observation is a value "0" or "1".
enum How { GETS, SNAPS, SCANS, MIXED };
const char* howName[] = {"lookups", "snapshots", "scans", "lookup, then scan"};
void observe(Env& e, How how, bool reverse, std::vector<std::string>& out) {
    std::vector<DB*> d = e.db;
    if (reverse) std::reverse(d.begin(), d.end());
    auto whole = [&](std::map<std::string, std::string> m, const char* what) {
        if (fresh && m.empty()) m = {{"a", "0"}, {"b", "0"}};
        MC_CHECK(m.size() == 2 && m["a"] == m["b"], "%s shows a part of a batch: a=%s b=%s", what, m["a"].c_str(), m["b"].c_str());
        out.push_back(m["a"]);
    };
    if (how == GETS) {
        for (auto x : d) out.push_back(val(x, "a"));
        for (auto x : d) out.push_back(val(x, "b"));
    } else if (how == SNAPS) {
        std::vector<DB*> s;
        for (auto x : d) { DB* sn = nullptr; OKS(x->openSnapshot(&sn)); s.push_back(sn); }
        for (auto x : s) {
            std::string a = val(x, "a"), b = val(x, "b");
            MC_CHECK(a == b, "a snapshot shows a part of a batch: a=%s b=%s", a.c_str(), b.c_str());
            whole(scan(x), "a scan of a snapshot");
            MC_CHECK(out.back() == a, "a snapshot shows a=%s, its scan %s", a.c_str(), out.back().c_str());
        }
        for (auto x : s) OKS(DB::close(x));
    } else if (how == SCANS) {
        for (auto x : d) whole(scan(x), "a scan");
    } else {
        out.push_back(val(d[0], "b"));
        for (size_t i = 1; i < d.size(); ++i) whole(scan(d[i]), "a scan");
        out.push_back(val(d[0], "a"));
    }
}
} // namespace

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P12", "model_checking",
                  "every schedule within the preemption bound of a global batch against readers of four kinds, writers, another global batch and maintenance over four layouts of separate and grouped databases; all combinations of valid and invalid parts");
    sched::Options o;
    o.bound = 1;
    o.points = sched::ALL & ~sched::PLAIN;
    const uint64_t chunks = 8;
    // Readers.
    chk.add("readers", 4 * 2 * 4 * 2 * chunks, [=](uint64_t idx, mc::CaseCtx& ctx) {
        uint64_t chunk = idx % chunks;
        int x = idx / chunks;
        How how = (How)(x % 4);
        bool rev = x / 4 % 2, grouped = x / 8 % 2;
        int layout = x / 16;
        ctx.desc = fmt("global batch over %s (layout %d) | %s%s", grouped ? "a group" : "two databases", layout, howName[how], rev ? " in the opposite order" : "");
        std::string desc = ctx.desc;
        sched::explore(ctx, o, chunk, chunks, [&](sched::Run& run) {
            freshWorld();
            mc::CaseCtx quiet;
            Env e(quiet, grouped, layout);
            std::vector<std::string> seen;
            run.go({[&]() { OKS(global(e.db, "1", false)); }, [&]() { observe(e, how, rev, seen); }});
            std::string all;
            bool nw = false;
            for (auto& s : seen) {
                all += s;
                if (s == "1") nw = true;
                else MC_CHECK(s == "0" && !nw, "%s: a reader saw %s: the batch disappeared again, or is visible in one database before the other", desc.c_str(), all.c_str());
            }
            ctx.observe(all);
            ctx.state();
            for (int round = 0; round < 2; ++round) {
                for (auto d : e.db) for (auto k : {"a", "b"}) MC_CHECK(val(d, k) == "1", "%s: after the batch, %s is %s", desc.c_str(), k, val(d, k).c_str());
                if (!round && !sched::preempted()) e.reopen();
                else break;
            }
            e.close();
        });
    }, []() { initEngine(); });
    // Two global batches, or a global batch and others.
    static const char* other[] = {"global batch", "global batch listed in the opposite order", "set in the first", "batch in the second", "sync of both", "sync and flush of the first", "sync and flush of the second"};
    chk.add("writers", 7 * 2 * 4 * chunks, [=](uint64_t idx, mc::CaseCtx& ctx) {
        uint64_t chunk = idx % chunks;
        int x = idx / chunks, what = x % 7, layout = x / 14;
        bool grouped = x / 7 % 2;
        ctx.desc = fmt("global batch over %s (layout %d) | %s", grouped ? "a group" : "two databases", layout, other[what]);
        std::string desc = ctx.desc;
        sched::explore(ctx, o, chunk, chunks, [&](sched::Run& run) {
            freshWorld();
            mc::CaseCtx quiet;
            Env e(quiet, grouped, layout);
            run.go({[&]() { OKS(global(e.db, "1", false)); },
                    [&]() {
                        if (what < 2) OKS(global(e.db, "2", what == 1));
                        else if (what == 2) OKS(e.db[0]->set(KV("a", "2")));
                        else if (what == 3) {
                            std::list<Record> l;
                            l.push_back(R("a", "2"));
                            l.push_back(R("b", "2"));
                            Status s = e.db[1]->setRecordBatch(l);
                            freeRecs(l);
                            OKS(s);
                        } else {
                            for (int i = 0; i < 2; ++i) {
                                if (what == 5 + (1 - i)) continue;
                                OKS(e.db[i]->sync(false));
                                Status s = what > 4 ? e.db[i]->flushLogs(FlushOptions()) : Status();
                                MC_CHECK(s.ok() || s == Status::ALREADY_FLUSHED || s == Status::LOG_NOT_EXIST || (fresh && s == Status::LOG_NOT_SYNCED), "flush returned %s", s.toString().c_str());
                            }
                        }
                    }});
            for (int round = 0; round < 2; ++round) {
                std::string r;
                for (auto d : e.db) { r += val(d, "a") + val(d, "b"); auto m = scan(d); MC_CHECK(m.size() == 2 && m["a"] + m["b"] == r.substr(r.size() - 2), "%s: scan differs from lookups", desc.c_str()); }
                bool ok = what < 2 ? r == "1111" || r == "2222" : what == 2 ? r == "1111" || r == "2111" : what == 3 ? r == "1111" || r == "1122" : r == "1111";
                MC_CHECK(ok, "%s: the result is %s", desc.c_str(), r.c_str());
                ctx.observe(r);
                if (!round) e.reopen();
            }
            ctx.state();
            e.close();
        });
    }, []() { initEngine(); });
    // All or nothing: each part may be fine, empty, or have numbers that are refused.
    static const char* kinds[] = {"fine", "fine with numbers", "numbers decreasing", "numbers used", "numbers missing", "empty", "deletion"};
    chk.add("parts", 7 * 7 * 7 * 2 * 3, [=](uint64_t idx, mc::CaseCtx& ctx) {
        int k[3] = {(int)(idx % 7), (int)(idx / 7 % 7), (int)(idx / 49 % 7)};
        bool grouped = idx / 343 % 2;
        int layout = idx / 686;
        ctx.desc = fmt("global batch of %s / %s / %s over %s (layout %d)", kinds[k[0]], kinds[k[1]], kinds[k[2]], grouped ? "a group" : "three databases", layout);
        freshWorld();
        mc::CaseCtx quiet;
        Env e(quiet, grouped, layout, 3);
        GlobalBatch g;
        std::vector<std::list<Record>> b(3);
        bool bad = false;
        for (int i = 0; i < 3; ++i) {
            switch (k[i]) {
            case 0: b[i] = {R("a", "1"), R("b", "1")}; break;
            case 1: b[i] = {R("a", "1", 10), R("b", "1", 12)}; break;
            case 2: b[i] = {R("a", "1", 12), R("b", "1", 10)}; bad = true; break;
            case 3: b[i] = {R("a", "1", 1), R("b", "1", 2)}; bad = true; break;
            case 4: b[i] = {R("a", "1", 10), R("b", "1")}; bad = true; break;
            case 6: b[i] = {R("a", "1"), R("b", "")}; b[i].back().type = Record::DELETION; break;
            }
            g.addBatch(e.db[i], b[i]);
        }
        Status s = g.execute();
        for (auto& l : b) freeRecs(l);
        ctx.transitions++;
        ctx.observe(s.getValue());
        MC_CHECK(s.ok() == !bad, "the batch returned %s", s.toString().c_str());
        for (int round = 0; round < 2; ++round) {
            for (int i = 0; i < 3; ++i) {
                std::string a = val(e.db[i], "a"), bb = val(e.db[i], "b");
                std::string wa = bad || k[i] == 5 ? "0" : "1", wb = bad || k[i] == 5 ? "0" : k[i] == 6 ? "-" : "1";
                MC_CHECK(a == wa && bb == wb, "database %d has a=%s b=%s instead of %s, %s", i, a.c_str(), bb.c_str(), wa.c_str(), wb.c_str());
                uint64_t mx = 0;
                OKS(e.db[i]->getMaxSeqNum(mx));
                uint64_t want = bad || k[i] == 5 ? 2 : k[i] == 1 ? 12 : 4;
                MC_CHECK(mx == want, "database %d has last number %llu instead of %llu", i, (unsigned long long)mx, (unsigned long long)want);
                if (round) OKS(e.db[i]->set(KV("c", "1")));
            }
            if (!round) e.reopen();
        }
        ctx.state();
        e.close();
    }, []() { initEngine(); });
    return chk.run();
}
