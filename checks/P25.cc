// BUILD: tseq
// P25: concurrent reads, writes and maintenance are linearizable.
#include "dbh.h"
#include "lin.h"
using namespace dbh;
using mc::fmt;
namespace {
enum K { SET, DEL, BATCH, GET, VIEW, MAINT };
struct Op {
    K k;
    std::string name, key;
    std::function<Status(DB*)> fn;               // MAINT
    // outcome
    std::string val;                             // written, or read ("-": absent)
    std::map<std::string, std::string> all;      // VIEW, BATCH
};
typedef std::map<std::string, std::string> St;
bool doApply(St& st, const Op& o) {
    switch (o.k) {
    case SET: st[o.key] = o.val; return true;
    case DEL: st.erase(o.key); return true;
    case BATCH: for (auto& e : o.all) { if (e.second == "-") st.erase(e.first); else st[e.first] = e.second; } return true;
    case GET: { auto i = st.find(o.key); return o.val == (i == st.end() ? "-" : i->second); }
    case VIEW: return o.all == st;
    case MAINT: return true;
    }
    return false;
}
std::string getVal(DB* db, const std::string& k) {
    SizedBuf v;
    Status s = db->get(SizedBuf(k), v);
    if (s.getValue() == Status::KEY_NOT_FOUND) return "-";
    MC_CHECK(s.ok(), "get(%s) returned %s", k.c_str(), s.toString().c_str());
    std::string r = sb2s(v);
    v.free();
    return r;
}
St scanAll(DB* db, bool back, const char* what) {
    Iterator it;
    St r;
    Status s = it.init(db);
    MC_CHECK(s.ok(), "%s: init returned %s", what, s.toString().c_str());
    if (back) s = it.gotoEnd();
    std::string last;
    while (s.ok()) {
        Record rec;
        s = it.get(rec);
        if (!s.ok()) break;
        std::string k = sb2s(rec.kv.key);
        MC_CHECK(r.empty() || (back ? k < last : k > last), "%s: %s after %s", what, k.c_str(), last.c_str());
        last = k;
        r[k] = sb2s(rec.kv.value);
        rec.free();
        s = back ? it.prev() : it.next();
    }
    it.close();
    return r;
}
typedef lin::Ev<Op> Ev;
struct Prog { std::vector<std::vector<Op>> t; std::string setup; };

Op set(const std::string& k) { return Op{SET, "set(" + k + ")", k}; }
Op del(const std::string& k) { return Op{DEL, "del(" + k + ")", k}; }
Op batch(const std::string& a, const std::string& b, bool delB = false) {
    Op o{BATCH, "batch(" + a + "," + (delB ? "-" : "") + b + ")", ""};
    o.all[a] = "";
    o.all[b] = delB ? "-" : "";
    return o;
}
Op get(const std::string& k) { return Op{GET, "get(" + k + ")", k}; }
Op view(bool back = false) { Op o{VIEW, back ? "scan_back" : "scan", back ? "b" : ""}; return o; }
Op snapView() { return Op{VIEW, "snapshot_scan", "s"}; }
Op maint(const std::string& n, std::function<Status(DB*)> f) { Op o{MAINT, n, ""}; o.fn = f; return o; }

void exec(World& w, Op& o, const std::string& id) {
    DB* db = w.db;
    switch (o.k) {
    case SET: {
        o.val = "v" + id;
        Status s = db->set(KV(o.key, o.val));
        MC_CHECK(s.ok(), "%s returned %s", o.name.c_str(), s.toString().c_str());
        break;
    }
    case DEL: {
        Status s = db->del(SizedBuf(o.key));
        MC_CHECK(s.ok(), "%s returned %s", o.name.c_str(), s.toString().c_str());
        break;
    }
    case BATCH: {
        std::list<Record> l;
        for (auto& e : o.all) {
            Record r;
            r.kv.key = SizedBuf(e.first);
            if (e.second == "-") r.type = Record::DELETION;
            else { e.second = "v" + id + e.first; r.kv.value = SizedBuf(e.second); }
            l.push_back(r);
        }
        Status s = db->setRecordBatch(l);
        MC_CHECK(s.ok(), "%s returned %s", o.name.c_str(), s.toString().c_str());
        break;
    }
    case GET: o.val = getVal(db, o.key); break;
    case VIEW:
        if (o.key == "s") {
            DB* sn = nullptr;
            Status s = db->openSnapshot(&sn);
            MC_CHECK(s.ok(), "openSnapshot returned %s", s.toString().c_str());
            o.all = scanAll(sn, false, "snapshot");
            St b = scanAll(sn, true, "snapshot");
            MC_CHECK(b == o.all, "two scans of a snapshot differ (%zu and %zu records)", o.all.size(), b.size());
            for (auto& e : o.all)
                MC_CHECK(getVal(sn, e.first) == e.second, "snapshot: lookup and scan differ for %s", e.first.c_str());
            DB::close(sn);
        } else {
            o.all = scanAll(db, o.key == "b", o.name.c_str());
        }
        break;
    case MAINT: {
        Status s = o.fn(db);
        MC_CHECK(s.ok() || s.getValue() == Status::OPERATION_IN_PROGRESS || s.getValue() == Status::COMPACTION_IS_NOT_ALLOWED || s.getValue() == Status::ALREADY_FLUSHED ||
                 s.getValue() == Status::LOG_NOT_SYNCED || s.getValue() == Status::COMPACTION_CANCELLED || s.getValue() == Status::INVALID_LEVEL || s.getValue() == Status::TABLE_NOT_FOUND,
                 "%s returned %s", o.name.c_str(), s.toString().c_str());
        break;
    }
    }
}
std::string showVal(const Op& o) {
    if (o.k == GET) return "=" + o.val;
    if (o.k == VIEW) {
        std::string s = "={";
        for (auto& e : o.all) s += e.first + ":" + e.second + " ";
        return s + "}";
    }
    return "";
}
void run(mc::CaseCtx& ctx, const Prog& p, const std::function<void(World&)>& setup, const sched::Options& opt,
         uint64_t chunk, uint64_t chunks) {
    ctx.desc = p.setup;
    for (auto& t : p.t) {
        ctx.desc += " |";
        for (auto& o : t) ctx.desc += " " + o.name;
    }
    std::string d = ctx.desc;
    sched::explore(ctx, opt, chunk, chunks, [&](sched::Run& run) {
        freshWorld();
        mc::CaseCtx quiet;
        World w(quiet);
        setup(w);
        St st;
        for (auto& e : w.view())
            if (e.second.type != Record::DELETION) st[e.first] = e.second.val;
        uint64_t writes = 0;
        std::vector<std::vector<Ev>> h(p.t.size());
        std::vector<std::function<void()>> fns;
        for (size_t t = 0; t < p.t.size(); ++t) {
            h[t].reserve(p.t[t].size());
            for (auto& o : p.t[t]) writes += o.k == SET || o.k == DEL ? 1 : o.k == BATCH ? o.all.size() : 0;
            fns.push_back([&, t]() {
                int n = 0;
                for (auto& o : p.t[t]) {
                    h[t].push_back(Ev{o, sched::Run::now(), 0});
                    exec(w, h[t].back().op, fmt("%zu.%d", t, n++));
                    h[t].back().to = sched::Run::now();
                }
            });
        }
        run.go(fns);
        std::vector<Ev> all;
        for (auto& t : h)
            for (auto& e : t) if (e.op.k != MAINT) all.push_back(e);
        auto fin = [&](const char* when) {
            Op o = view();
            o.all = scanAll(w.db, false, when);
            Op ob = o;
            MC_CHECK(scanAll(w.db, true, when) == o.all, "%s: backward scan differs from the forward one", when);
            for (auto& k : {"a", "b", "c", "d"}) {
                std::string v = getVal(w.db, k);
                MC_CHECK(v == (o.all.count(k) ? o.all[k] : "-"), "%s: lookup of %s gives %s, scan %s", when, k, v.c_str(),
                         o.all.count(k) ? o.all[k].c_str() : "-");
            }
            all.push_back(Ev{o, ~0ULL - 1, ~0ULL});
            std::string res;
            if (!lin::search(all, 0, st, doApply)) {
                for (auto& e : all) if (e.op.k != MAINT) res += " " + e.op.name + showVal(e.op);
                MC_CHECK(false, "%s: not linearizable:%s", when, res.c_str());
            }
            all.pop_back();
        };
        fin("after the threads");
        uint64_t mx = 0;
        Status s = w.db->getMaxSeqNum(mx);
        MC_CHECK((s.ok() ? mx : 0) == w.maxSeq + writes, "max sequence number %llu, %llu writes",
                 (unsigned long long)mx, (unsigned long long)(w.maxSeq + writes));
        OKS(w.db->sync(true));
        FlushOptions fo;
        Status fs = w.db->flushLogs(fo);
        MC_CHECK(fs.ok() || (fs == Status::LOG_NOT_SYNCED && w.maxSeq + writes == 0), "flush at the end returned %s", fs.toString().c_str());
        fin("after the final flush");
        for (auto& e : all) { ctx.observe(e.op.val); for (auto& x : e.op.all) ctx.observe(x.second); }
        OKS(DB::close(w.db));
        w.db = nullptr;
        if (sched::executions() % 4 == 0) {
            OKS(DB::open(&w.db, w.path, w.cfg));
            fin("after reopening");
            OKS(DB::close(w.db));
            w.db = nullptr;
        }
    });
    ctx.state();
}
} // namespace

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P25", "model_checking",
                  "every schedule of the thread programs up to the preemption bound");
    chk.hangSecs = chk.thorough() ? 300 : 60;
    auto init = []() { initEngine(); };
    auto mk = [](int parts, int ents) {
        return [=](World& w) {
            w.cfg = baseConfig(parts, ents);
            w.cfg.bloomFilterBitsPerUnit = 0;
            w.cfg.maxL1TableSize = 64;
            w.open();
        };
    };
    struct Layout { const char* name; std::function<void(World&)> fn; };
    std::vector<Layout> lays = {
        {"empty", [=](World& w) { mk(1, 2)(w); }},
        {"log", [=](World& w) { mk(1, 16384)(w); w.set("a"); w.set("b"); }},
        {"synced", [=](World& w) { mk(1, 2)(w); w.set("a"); w.set("b"); w.set("c"); w.sync(); }},
        {"tables", [=](World& w) {
            mk(2, 4)(w); w.set("a"); w.set("b"); w.syncFlush(); w.set("a"); w.set("c"); w.syncFlush();
            w.compactL0All(); w.set("b"); w.syncFlush(); w.set("c"); }},
        // Several tables in level 1.
        {"wide", [=](World& w) {
            mk(1, 4)(w); w.cfg.maxL1TableSize = 64;
            for (auto k : {"a", "b", "c", "d"}) w.set(k);
            w.syncFlush(); w.compactL0All(); w.split(1); w.set("b"); w.set("d"); w.syncFlush(); w.del("c"); w.syncFlush(); }},
    };
    auto flush = maint("sync_flush", [](DB* d) {
        Status s = d->sync(false);
        if (!s.ok()) return s;
        return d->flushLogs(FlushOptions());
    });
    auto sync = maint("sync", [](DB* d) { return d->sync(true); });
    auto compL0 = maint("compactL0", [](DB* d) {
        CompactOptions o;
        Status s = d->compactL0(o, 0);
        if (!s.ok()) return s;
        return d->compactL0(o, 1);
    });
    auto compL0one = maint("compactL0", [](DB* d) { return d->compactL0(CompactOptions(), 0); });
    auto compLv = maint("compactLevel", [](DB* d) { return d->compactLevel(CompactOptions(), 1); });
    auto inpl = maint("compactInplace", [](DB* d) { return d->compactInplace(CompactOptions(), 1); });
    auto chkp = maint("checkpoint", [](DB* d) { uint64_t n; return d->checkpoint(n); });
    auto split = maint("split", [](DB* d) { return d->splitLevel(CompactOptions(), 1); });
    auto merge = maint("merge", [](DB* d) { return d->mergeLevel(CompactOptions(), 1); });
    auto compL1 = maint("compactL0_1", [](DB* d) { return d->compactL0(CompactOptions(), 1); });
    std::vector<Op> A = {set("a"), del("a"), batch("a", "b"), batch("b", "c", true), get("a"), view(), snapView(),
                         flush, sync, compL0one, compLv, inpl, chkp, view(true)};
    std::vector<Op> W = {set("b"), del("d"), get("d"), view(), snapView(), view(true), flush, compL0one, compLv, inpl, split, merge};
    auto isRead = [](const Op& o) { return o.k == GET || o.k == VIEW; };
    for (auto& L : lays) {
        bool wide = L.name == std::string("wide");
        auto& ops = wide ? W : A;
        sched::Options o;
        o.bound = 1;
        o.points = sched::LOCK | sched::UNLOCK | sched::ATOMIC;
        o.spin = 30000;
        std::vector<std::pair<int, int>> ps;
        for (size_t i = 0; i < ops.size(); ++i)
            for (size_t j = i; j < ops.size(); ++j)
                if (!(isRead(ops[i]) && isRead(ops[j]))) ps.push_back({i, j});
        auto pairs = [=](sched::Options opt) {
            return [=](uint64_t idx, mc::CaseCtx& ctx) {
                Prog p;
                p.setup = L.name;
                p.t = {{ops[ps[idx].first]}, {ops[ps[idx].second]}};
                run(ctx, p, L.fn, opt, 0, 1);
            };
        };
        if (chk.thorough() || L.name != std::string("synced"))
            chk.add(std::string("pairs_") + L.name, ps.size(), pairs(o), init);
        if (chk.thorough()) {
            o.bound = 2;
            o.points = sched::LOCK;
            chk.add(std::string("pairs2_") + L.name, ps.size(), pairs(o), init);
        }
    }
    // Longer programs: one operation against a sequence, and three threads.
    auto S = [&](const char* k) { return set(k); };
    std::vector<std::vector<std::vector<Op>>> progs = {
        {{compL0one}, {S("b"), flush, compL0one}},
        {{compLv}, {S("b"), flush, compL0one, compLv}},
        {{inpl}, {S("b"), flush, compL0one, compLv}},
        {{split}, {S("b"), flush, compL0one, merge}},
        {{merge}, {S("b"), flush, compL0one, split}},
        {{view()}, {S("b"), flush, compL0one, del("b"), flush, compL0one}},
        {{snapView()}, {S("b"), flush, compL0one, inpl}},
        {{view(true)}, {del("b"), flush, compL0one, merge, split}},
        {{get("b")}, {S("b"), sync, S("b"), flush, compL0one}},
        {{get("d")}, {flush, compL0one, compLv, inpl}},
        {{flush}, {S("a"), sync, S("b"), flush}},
        {{flush}, {batch("a", "b"), flush, del("b"), flush}},
        {{sync}, {S("a"), S("b"), S("a"), flush}},
        {{S("a")}, {sync, flush, S("a"), flush}},
        {{batch("a", "b", true)}, {flush, S("b"), flush}},
        {{S("a"), S("b"), get("a")}, {flush, compL0one, flush}},
        {{S("a"), flush}, {S("b"), flush}},
        {{S("a"), view()}, {del("a"), snapView()}},
        {{batch("a", "b"), get("b")}, {S("b"), get("a")}},
        {{flush, compL0one}, {S("b"), view(), get("a")}},
    };
    for (auto& L : lays) {
        if (L.name == std::string("log") || L.name == std::string("empty")) continue;
        if (!chk.thorough() && L.name != std::string("wide")) continue;
        sched::Options o;
        o.bound = 1;
        o.points = sched::LOCK | sched::UNLOCK | sched::ATOMIC;
        o.spin = 30000;
        chk.add(std::string("progs_") + L.name, progs.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
            run(ctx, Prog{progs[idx], L.name}, L.fn, o, 0, 1);
        }, init);
    }
    std::vector<std::vector<std::vector<Op>>> tri = {
        {{S("a")}, {flush}, {get("a")}},
        {{S("a")}, {S("a")}, {S("a")}},
        {{batch("a", "b")}, {flush}, {view()}},
        {{batch("a", "b")}, {batch("b", "a", true)}, {snapView()}},
        {{view()}, {compL0one}, {flush}},
        {{get("b")}, {compL0one}, {flush}},
        {{S("b")}, {compL0one}, {compLv}},
        {{flush}, {compL0one}, {compLv}},
        {{inpl}, {compL0one}, {get("a")}},
        {{S("a")}, {sync}, {flush}},
    };
    for (auto& L : lays) {
        sched::Options o;
        o.bound = 1;
        o.delay = true;
        o.points = sched::LOCK | sched::UNLOCK | sched::ATOMIC;
        o.spin = 30000;
        chk.add(std::string("triples_") + L.name, tri.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
            run(ctx, Prog{tri[idx], L.name}, L.fn, o, 0, 1);
        }, init);
        if (!chk.thorough()) continue;
        o.bound = 2;
        o.points = sched::LOCK;
        const uint64_t CH = 8;
        chk.add(std::string("triples2_") + L.name, tri.size() * CH, [=](uint64_t idx, mc::CaseCtx& ctx) {
            run(ctx, Prog{tri[idx / CH], L.name}, L.fn, o, idx % CH, CH);
        }, init);
    }
    return chk.run();
}
