// BUILD: tseq
// P26: a crash while several tasks are running concurrently.
#include "crash.h"
#include "thr.h"
using namespace crash;
namespace {
struct Step {
    std::string name;
    int kind;                                  // 0 write, 1 maintenance, 2 sync with fsync
    std::string key;
    bool isDel = false;
    std::function<Status(DB*)> fn;
    bool two = false;                          // batch: key and key + "2"
};
typedef std::vector<std::vector<Step>> Prog;

uint64_t hashJournal(const std::vector<simfs::Op>& j) {
    uint64_t h = 1469598103934665603ULL;
    for (auto& o : j) {
        uint64_t v[] = {(uint64_t)o.type, (uint64_t)o.ino, (uint64_t)o.off};
        h = mc::hashBytes(v, sizeof(v), h);
        h = mc::hashBytes(o.path.data(), o.path.size(), h);
        h = mc::hashBytes(o.data.data(), o.data.size(), h);
    }
    return h;
}

void run(mc::CaseCtx& ctx, const Prog& p, const std::string& lay, const std::function<void(World&)>& setup, const sched::Options& opt, bool powerLoss) {
    ctx.desc = lay;
    for (auto& t : p) {
        ctx.desc += " |";
        for (auto& o : t) ctx.desc += " " + o.name;
    }
    std::set<uint64_t> journals;
    std::map<uint64_t, std::map<uint64_t, uint64_t>> seen;   // by lower bound, upper bound
    uint64_t nImages = 0;
    sched::explore(ctx, opt, 0, 1, [&](sched::Run& run) {
        freshWorld();
        mc::CaseCtx quiet;
        World w(quiet);
        setup(w);
        w.sync(true);
        uint64_t R0 = w.maxSeq;
        simfs::Image base = simfs::snapshot();
        simfs::journalStart();
        // Writes are issued by one thread only, so that their numbers are known.
        uint64_t started = R0, done = R0;
        std::vector<std::array<uint64_t, 2>> synced;       // journal position, sequence number
        std::vector<std::array<uint64_t, 2>> begun;        // journal position, last number in flight from there
        std::vector<std::function<void()>> fns;
        for (size_t t = 0; t < p.size(); ++t)
            fns.push_back([&, t]() {
                for (auto& o : p[t]) {
                    Status s;
                    if (o.kind == 0) {
                        std::vector<std::string> keys = {o.key};
                        if (o.two) keys.push_back(o.key + "2");
                        started += keys.size();
                        begun.push_back({simfs::journal().size(), started});
                        std::list<Record> l;
                        for (auto& k : keys) {                // (the records below point into `keys`)
                            MRec m;
                            m.seq = done + 1 + l.size();
                            m.key = k;
                            m.type = o.isDel ? Record::DELETION : Record::INSERTION;
                            if (!o.isDel) m.val = mc::fmt("n%llu", (unsigned long long)m.seq);
                            w.hist.push_back(m);
                            w.universe.insert(k);
                            Record r;
                            r.kv.key = SizedBuf(k);
                            r.type = (Record::Type)m.type;
                            if (!o.isDel) r.kv.value = SizedBuf(m.val.size(), (void*)strdup(m.val.c_str()));
                            l.push_back(r);
                        }
                        if (o.two) s = w.db->setRecordBatch(l);
                        else if (o.isDel) s = w.db->del(SizedBuf(o.key));
                        else s = w.db->set(KV(SizedBuf(o.key), l.front().kv.value));
                        for (auto& r : l) if (r.kv.value.data) free(r.kv.value.data);
                        MC_CHECK(s.ok(), "%s returned %s", o.name.c_str(), s.toString().c_str());
                        done += keys.size();
                    } else {
                        uint64_t d = done;
                        s = o.fn(w.db);
                        if (o.kind == 2 && s.ok()) synced.push_back({simfs::journal().size(), d});
                        else MC_CHECK(s.ok() || s.getValue() == Status::OPERATION_IN_PROGRESS || s.getValue() == Status::COMPACTION_IS_NOT_ALLOWED || s.getValue() == Status::ALREADY_FLUSHED ||
                                      s.getValue() == Status::LOG_NOT_SYNCED || s.getValue() == Status::COMPACTION_CANCELLED || s.getValue() == Status::INVALID_LEVEL || s.getValue() == Status::TABLE_NOT_FOUND,
                                      "%s returned %s", o.name.c_str(), s.toString().c_str());
                    }
                }
            });
        run.go(fns);
        std::vector<simfs::Op> j = simfs::journal();
        simfs::journalStop();
        w.maxSeq = done;
        OKS(DB::close(w.db));
        w.db = nullptr;
        uint64_t jh = hashJournal(j);
        for (auto& e : synced) jh = mc::hashBytes(&e, sizeof(e), jh);
        for (auto& e : begun) jh = mc::hashBytes(&e, sizeof(e), jh);
        if (!journals.insert(jh).second) return;
        // Segments of the journal in which the promises are constant.
        std::set<size_t> cuts = {0, j.size() + 1};
        for (auto& e : synced) cuts.insert(e[0]);
        for (auto& e : begun) cuts.insert(e[0]);
        for (auto c = cuts.begin(); std::next(c) != cuts.end(); ++c) {
            size_t from = *c, to = *std::next(c) - 1;
            uint64_t lo = R0, hi = R0;
            for (auto& e : synced) if (e[0] <= from) lo = std::max(lo, (uint64_t)e[1]);
            for (auto& e : begun) if (e[0] <= from) hi = std::max(hi, (uint64_t)e[1]);
            Options o;
            o.powerLoss = powerLoss;
            o.torn = false;
            images(base, j, from, std::min(to, j.size()), o, seen[lo * 1000 + hi], [&](const Image& im, size_t) {
                ++nImages;
                ctx.transitions++;
                World r(quiet);
                uint64_t R = recover(r, w, im, lo, hi);
                ctx.observe(R);
                ctx.state();
                View v = r.view();
                r.checkGets(r.db, v, "recovered db");
                // Maintenance still works on it and loses nothing.
                r.set("b");
                r.sync();
                r.flush();
                r.compactL0All();
                r.compactLevel(1);
                r.reopen();
                v = r.view();
                View got = scanView(r, r.db);
                std::string diff;
                for (auto& e : got) diff += mc::fmt("%s=#%llu ", e.first.c_str(), (unsigned long long)e.second.seq);
                diff += "instead of ";
                for (auto& e : v) diff += mc::fmt("%s%s=#%llu ", e.second.type == Record::INSERTION ? "" : "!", e.first.c_str(), (unsigned long long)e.second.seq);
                MC_CHECK(sameLive(got, v), "content after recovery, a write, flush, compaction and reopen is wrong: %s[%s]", diff.c_str(), im.label.c_str());
            });
        }
    });
    ctx.validated = nImages;
}
} // namespace

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P26", "model_checking",
                  "every schedule of two concurrent tasks up to the preemption bound x every crash point in its system calls x every choice of surviving unsynced data");
    chk.hangSecs = chk.thorough() ? 300 : 60;
    chk.assume("metadata operations (create, unlink, rename) reach the disk in order; data of one file reaches the disk in order; data of different files independently");
    auto init = []() { initEngine(); };
    auto M = [](const char* n, std::function<Status(DB*)> f) { Step s{n, 1, ""}; s.fn = f; return s; };
    Step sync = M("sync", [](DB* d) { return d->sync(true); });
    sync.kind = 2;
    Step flush = M("flush", [](DB* d) { return d->flushLogs(FlushOptions()); });
    Step syncAsync = M("sync_nofsync", [](DB* d) { return d->sync(false); });
    Step comp0 = M("compactL0(0)", [](DB* d) { return d->compactL0(CompactOptions(), 0); });
    Step comp1 = M("compactL0(1)", [](DB* d) { return d->compactL0(CompactOptions(), 1); });
    Step compLv = M("compactL1", [](DB* d) { return d->compactLevel(CompactOptions(), 1); });
    Step inpl = M("inplaceL1", [](DB* d) { return d->compactInplace(CompactOptions(), 1); });
    Step split = M("splitL1", [](DB* d) { return d->splitLevel(CompactOptions(), 1); });
    Step merge = M("mergeL1", [](DB* d) { return d->mergeLevel(CompactOptions(), 1); });
    Step chkp = M("checkpoint", [](DB* d) { uint64_t n; return d->checkpoint(n); });
    auto S = [](const char* k) { return Step{std::string("set(") + k + ")", 0, k}; };
    auto D = [](const char* k) { Step s{std::string("del(") + k + ")", 0, k}; s.isDel = true; return s; };
    auto B = [](const char* k) { Step s{std::string("batch(") + k + "," + k + "2)", 0, k}; s.two = true; return s; };

    struct Layout { const char* name; std::function<void(World&)> fn; };
    auto mk = [](World& w, int parts, int ents) {
        w.cfg = baseConfig(parts, ents);
        w.cfg.bloomFilterBitsPerUnit = 0;
        w.cfg.maxL1TableSize = 64;
        w.open();
    };
    std::vector<Layout> lays = {
        {"tables", [=](World& w) {
            mk(w, 2, 4); w.set("a"); w.set("b"); w.syncFlush(); w.set("a"); w.set("c"); w.syncFlush();
            w.compactL0All(); w.set("b"); w.syncFlush(); w.set("c"); }},
        {"wide", [=](World& w) {
            mk(w, 1, 4);
            for (auto k : {"a", "b", "c", "d"}) w.set(k);
            w.syncFlush(); w.compactL0All(); w.split(1); w.set("b"); w.set("d"); w.syncFlush(); w.del("c"); w.syncFlush(); }},
    };
    std::vector<Step> maint = {flush, comp0, comp1, compLv, inpl, split, merge, chkp};
    std::vector<Prog> pairs, writes;
    for (size_t i = 0; i < maint.size(); ++i)
        for (size_t k = i; k < maint.size(); ++k) pairs.push_back({{maint[i]}, {maint[k]}});
    writes = {
        {{S("a"), S("b")}, {sync}},
        {{S("a"), D("b")}, {sync, flush}},
        {{B("a")}, {sync, flush}},
        {{S("a"), sync}, {flush}},
        {{S("a"), sync}, {sync}},
        {{S("a"), sync}, {syncAsync, flush}},
        {{S("a"), chkp}, {sync, flush}},
        {{S("a"), sync, flush}, {comp0}},
        {{D("b"), sync, flush}, {comp0, compLv}},
        {{S("c"), sync, flush}, {inpl}},
        {{S("c"), sync, flush}, {merge, split}},
        {{S("a"), S("b"), S("c"), S("d"), S("e"), sync}, {sync, flush}},
        {{S("a"), S("a"), S("a"), sync}, {sync, flush}},
    };
    for (auto& L : lays) {
        sched::Options o;
        o.bound = 1;
        o.points = sched::LOCK | sched::UNLOCK | sched::ATOMIC;
        o.spin = 30000;
        bool th = chk.thorough();
        chk.add(std::string("maintenance_") + L.name, pairs.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
            run(ctx, pairs[idx], L.name, L.fn, o, true);
        }, init);
        chk.add(std::string("writes_") + L.name, writes.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
            // Data written without asking for fsync is not promised to survive a power loss.
            bool pl = true;
            for (auto& t : writes[idx]) for (auto& st : t) if (st.name == "sync_nofsync") pl = false;
            run(ctx, writes[idx], L.name, L.fn, o, pl);
        }, init);
        if (!th) continue;
        sched::Options o2 = o;
        o2.bound = 2;
        o2.points = sched::LOCK;
        chk.add(std::string("maintenance2_") + L.name, pairs.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
            run(ctx, pairs[idx], L.name, L.fn, o2, true);
        }, init);
        chk.add(std::string("writes2_") + L.name, writes.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
            bool pl = true;
            for (auto& t : writes[idx]) for (auto& st : t) if (st.name == "sync_nofsync") pl = false;
            run(ctx, writes[idx], L.name, L.fn, o2, pl);
        }, init);
    }
    return chk.run();
}
