// BUILD: pseq
#include "crash.h"
#include <memory>
using namespace crash;

// A group of key-value stores in one directory: every store behaves as a database of its own.

static const char* NAMES[] = {"", "one", "two", "three"};

struct Group {
    mc::CaseCtx& ctx;
    DBGroup* g = nullptr;
    DBConfig cfg;
    std::vector<std::unique_ptr<World>> w;         // [0] is the default store
    std::vector<bool> created;
    std::string longName;

    Group(mc::CaseCtx& c) : ctx(c) {
        for (int i = 0; i < 4; ++i) w.emplace_back(new World(c));
        created.assign(4, false);
    }
    ~Group() {
        for (int i = 3; i >= 1; --i) { for (auto& s : w[i]->snaps) if (s.db) DB::close(s.db); w[i]->snaps.clear(); if (w[i]->db) DB::close(w[i]->db); w[i]->db = nullptr; }
        for (auto& s : w[0]->snaps) if (s.db) DB::close(s.db);
        w[0]->snaps.clear();
        w[0]->db = nullptr;
        if (g) DBGroup::close(g);
    }
    std::string name(int i) const { return i == 3 && longName.size() ? longName : NAMES[i]; }
    void open() {
        ctx.transitions++;
        OKS(DBGroup::open(&g, w[0]->path, cfg));
        OKS(g->openDefaultDB(&w[0]->db));
        for (auto& x : w) { x->cfg = cfg; }
        created[0] = true;
    }
    World& kvs(int i) {
        if (!w[i]->db) {
            ctx.transitions++;
            OKS(g->openDB(&w[i]->db, name(i)));
            MC_CHECK(w[i]->db, "openDB returned no handle");
            created[i] = true;
        }
        return *w[i];
    }
    void closeKvs(int i) {
        if (i && w[i]->db) w[i]->close();
    }
    void close() {
        for (int i = 1; i < 4; ++i) closeKvs(i);
        while (!w[0]->snaps.empty()) w[0]->closeSnap(0);
        OKS(DBGroup::close(g));
        g = nullptr;
        w[0]->db = nullptr;
        w[0]->syncedSeq = w[0]->durableSeq = w[0]->maxSeq;
    }
    void check(bool deep) {
        std::set<std::string> all;
        for (auto& x : w) for (auto& k : x->universe) all.insert(k);
        for (int i = 0; i < 4; ++i) {
            if (!created[i]) continue;
            World& x = kvs(i);
            x.extraProbes.assign(all.begin(), all.end());
            x.checkAll(deep);
            ctx.note("store '%s' verified", name(i).c_str());
        }
    }
};

typedef std::function<void(Group&)> GFn;
struct GOp { std::string name; GFn fn; };

static void gset(Group& g, int i, const std::string& k) { g.kvs(i).set(k); }

static std::vector<GOp> groupOps() {
    std::vector<GOp> o;
    for (int i = 0; i < 3; ++i) {
        std::string n = i ? NAMES[i] : "default";
        o.push_back({"set a in " + n, [=](Group& g) { gset(g, i, "a"); }});
        o.push_back({"sync+flush " + n, [=](Group& g) { if (!g.w[i]->db) throw Prune{}; g.w[i]->syncFlush(); }});
    }
    o.push_back({"del a in one", [](Group& g) { g.kvs(1).del("a"); }});
    o.push_back({"set b in two", [](Group& g) { gset(g, 2, "b"); }});
    o.push_back({"compactL0 one", [](Group& g) { if (!g.w[1]->db) throw Prune{}; g.w[1]->compactL0All(); }});
    o.push_back({"compactL0 default", [](Group& g) { g.w[0]->compactL0All(); }});
    o.push_back({"close one", [](Group& g) { if (!g.w[1]->db) throw Prune{}; g.closeKvs(1); }});
    o.push_back({"snapshot of one", [](Group& g) { if (!g.w[1]->db || g.w[1]->snaps.size()) throw Prune{}; g.w[1]->openSnap(); }});
    o.push_back({"reopen all", [](Group& g) { g.close(); g.open(); }});
    return o;
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P17", "model_checking",
                  "all interleaved histories of up to three stores of one group to the stated depth; every crash image of the last operation; every single failing system call while a store is opened");
    std::vector<GOp> ops = groupOps();
    for (int le : {2, 16384}) {
        int d = (chk.thorough() ? 5 : 4) - (le != 2);
        chk.add("ops-l" + std::to_string(le), mc::seqCount(ops.size(), d, 1), [=](uint64_t idx, mc::CaseCtx& ctx) {
            std::vector<int> seq = mc::seqDecode(idx, ops.size(), d, 1);
            for (int i : seq) ctx.desc += (ctx.desc.empty() ? "" : ", ") + ops[i].name;
            freshWorld();
            Group g(ctx);
            g.cfg = baseConfig(1, le);
            g.open();
            try { for (int i : seq) { ctx.note("-- %s", ops[i].name.c_str()); ops[i].fn(g); } } catch (Prune&) { ctx.skipped = true; return; }
            g.w[0]->observeState();
            g.check(true);
            g.close();
            g.open();
            // The stores opened in another order.
            for (int i = 3; i >= 1; --i) if (g.created[i]) g.kvs(i);
            g.check(false);
            // Further writes get the next number of their own store.
            for (int i = 0; i < 4; ++i) if (g.created[i]) { g.w[i]->set("n"); g.w[i]->checkSeqNums(); }
        }, []() { initEngine(); });
    }
    // A store opened as part of a group cannot be used before it exists, nor under an odd name with trouble.
    static const std::vector<size_t> lens = {1, 2, 31, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 5000};
    chk.add("names", lens.size() * 3, [=](uint64_t idx, mc::CaseCtx& ctx) {
        size_t len = lens[idx / 3];
        ctx.desc = mc::fmt("store with a name of %zu bytes, %llu others", len, (unsigned long long)(idx % 3));
        freshWorld();
        Group g(ctx);
        g.cfg = baseConfig(1, 2);
        g.longName = std::string(len, 'n');
        g.open();
        for (size_t i = 1; i <= idx % 3; ++i) gset(g, i, "x" + std::to_string(i));
        gset(g, 3, "a");
        gset(g, 0, "a");
        for (int r = 0; r < 3; ++r) { g.check(false); g.close(); g.open(); }
        DB* d = nullptr;
        MC_CHECK(!g.g->openDB(&d, "").ok(), "a store without a name was opened");
        DB* plain = nullptr;
        g.w[0]->observeState();
        (void)plain;
    }, []() { initEngine(); });
    // Crashes.
    std::vector<GOp> cops = {
        {"set a in default", [](Group& g) { gset(g, 0, "a"); }},
        {"set a in one", [](Group& g) { gset(g, 1, "a"); }},
        {"set a in two", [](Group& g) { gset(g, 2, "a"); }},
        {"open three", [](Group& g) { if (g.created[3]) throw Prune{}; g.kvs(3); }},
        {"sync default", [](Group& g) { g.w[0]->sync(); }},
        {"sync one", [](Group& g) { if (!g.w[1]->db) throw Prune{}; g.w[1]->sync(); }},
        {"sync+flush two", [](Group& g) { if (!g.w[2]->db) throw Prune{}; g.w[2]->syncFlush(); }},
        {"close one", [](Group& g) { if (!g.w[1]->db) throw Prune{}; g.closeKvs(1); }},
        {"reopen all", [](Group& g) { g.close(); g.open(); }},
    };
    int cd = chk.thorough() ? 4 : 3;
    auto addCrash = [&](const std::string& name, const std::vector<GOp>& cops, int cd, std::function<void(Group&)> prep) {
    chk.add(name, mc::seqCount(cops.size(), cd, 1), [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::vector<int> seq = mc::seqDecode(idx, cops.size(), cd, 1);
        for (int i : seq) ctx.desc += (ctx.desc.empty() ? "" : ", ") + cops[i].name;
        freshWorld();
        simfs::Image base = simfs::snapshot();
        size_t from = 0, to = 0;
        std::vector<simfs::Op> j;
        uint64_t lo0[4], du0[4], lo1[4], du1[4];
        std::vector<std::vector<MRec>> hist(4);
        std::vector<std::set<std::string>> uni(4);
        std::vector<bool> created, before;
        DBConfig cfg = baseConfig(1, 2);
        std::string path, refused;
        {
            Group g(ctx);
            g.cfg = cfg;
            simfs::journalStart();
            g.open();
            if (prep) prep(g);
            try {
                for (size_t i = 0; i < seq.size(); ++i) {
                    if (i + 1 == seq.size()) { before = g.created; from = simfs::journal().size(); for (int k = 0; k < 4; ++k) { lo0[k] = g.w[k]->syncedSeq; du0[k] = g.w[k]->durableSeq; } }
                    cops[seq[i]].fn(g);
                }
            } catch (Prune&) { simfs::journalStop(); ctx.skipped = true; return; }
            to = simfs::journal().size();
            j = simfs::journal();
            simfs::journalStop();
            g.w[0]->observeState();
            for (int k = 0; k < 4; ++k) { lo1[k] = g.w[k]->syncedSeq; du1[k] = g.w[k]->durableSeq; hist[k] = g.w[k]->hist; uni[k] = g.w[k]->universe; }
            created = g.created;
            path = g.w[0]->path;
        }
        std::map<uint64_t, uint64_t> seen;
        images(base, j, from, to, Options(), seen, [&](const Image& im, size_t upto) {
            simfs::restore(im.img);
            fdbsim_reset();
            ctx.transitions++;
            ctx.state();
            Group r(ctx);
            r.cfg = cfg;
            ctx.note("## %s", im.label.c_str());
            Status s = DBGroup::open(&r.g, path, cfg);
            MC_CHECK(s.ok(), "after a crash, opening the group returned %s [%s]", s.toString().c_str(), im.label.c_str());
            OKS(r.g->openDefaultDB(&r.w[0]->db));
            r.created[0] = true;
            // Opened in reverse order of creation: the directory must know who is who.
            for (int k : {3, 2, 1, 0}) {
                if (!created[k]) continue;
                if (k) {
                    s = r.g->openDB(&r.w[k]->db, NAMES[k]);
                    if (!s.ok() && !before[k] && upto < to) {
                        // Nothing was promised about this store yet.
                        if (refused.empty()) refused = mc::fmt("after a crash while creating a store, opening it returned %s [%s]", s.toString().c_str(), im.label.c_str());
                        r.w[k]->db = nullptr;
                        continue;
                    }
                    MC_CHECK(s.ok(), "after a crash, opening store '%s' returned %s [%s]", NAMES[k], s.toString().c_str(), im.label.c_str());
                    r.created[k] = true;
                }
                World& x = *r.w[k];
                x.cfg = cfg;
                uint64_t lo = upto == to ? (im.powerLoss ? du1[k] : lo1[k]) : (im.powerLoss ? du0[k] : lo0[k]);
                uint64_t hi = 0;
                for (auto& h : hist[k]) hi = std::max(hi, h.seq);
                View got = scanView(x, x.db);
                bool found = false;
                uint64_t mx = 0;
                x.db->getMaxSeqNum(mx);
                for (int pass = 0; pass < 2 && !found; ++pass)
                    for (uint64_t R = hi + 1; R-- > lo;) {
                        if (!pass && R != mx) continue;
                        x.hist.clear();
                        for (auto& h : hist[k]) if (h.seq <= R) x.hist.push_back(h);
                        if (sameLive(got, x.view())) { found = true; x.maxSeq = std::max(R, mx); ctx.observe(R); break; }
                    }
                for (auto& e : got) MC_CHECK(e.second.seq <= mx, "after a crash, the last number of store '%s' is %llu but key %s has #%llu: numbers will be reused [%s]", NAMES[k], (unsigned long long)mx, e.first.c_str(), (unsigned long long)e.second.seq, im.label.c_str());
                MC_CHECK(found, "after a crash, store '%s' holds %zu records, which is not its history up to any of #%llu..#%llu [%s]", NAMES[k], got.size(), (unsigned long long)lo, (unsigned long long)hi, im.label.c_str());
                x.universe = uni[k];
            }
            // Usable, and still told apart, after a proper close.
            for (int k : {0, 1, 2, 3}) if (r.created[k]) r.w[k]->set("z" + std::to_string(k));
            r.close();
            r.open();
            r.check(false);
        }, [&](size_t upto, bool pl) { return (uint64_t)(upto == to ? 2 : 1) + 0 * pl; });
        ctx.validated = seen.size();
        MC_CHECK(refused.empty(), "%s", refused.c_str());
    }, []() { initEngine(); });
    };
    addCrash("crash", cops, cd, nullptr);
    // The recovery of a store other than the default one, with partial syncs and flushes.
    addCrash("crash-one", {
        {"set a in one", [](Group& g) { gset(g, 1, "a"); }},
        {"set b, c in one", [](Group& g) { gset(g, 1, "b"); gset(g, 1, "c"); }},
        {"sync one", [](Group& g) { g.w[1]->sync(); }},
        {"flush one", [](Group& g) { g.w[1]->flush(); }},
        {"set a in two", [](Group& g) { gset(g, 2, "a"); }},
        {"sync+flush two", [](Group& g) { g.w[2]->syncFlush(); }},
    }, cd + 1, [](Group& g) {
        gset(g, 2, "b");
        gset(g, 1, "a"); gset(g, 1, "d"); gset(g, 1, "b");
        g.w[1]->sync();
        g.w[1]->del("d");
    });
    // One failing system call while a store is opened (first time, or again).
    static const int errs[] = {5 /* EIO */, 28 /* ENOSPC */};
    int maxOp = 80;
    chk.add("fault", (uint64_t)maxOp * 2 * 3, [=](uint64_t idx, mc::CaseCtx& ctx) {
        int err = errs[idx % 2], mode = idx / 2 % 3, at = idx / 6;
        ctx.desc = mc::fmt("%s, call %d fails with errno %d", mode == 0 ? "create a store" : mode == 1 ? "open an existing store" : "open the group", at + 1, err);
        freshWorld();
        Group g(ctx);
        g.cfg = baseConfig(1, 2);
        g.open();
        gset(g, 1, "a"); gset(g, 1, "b"); gset(g, 1, "c");
        gset(g, 0, "a");
        g.w[1]->syncFlush();
        gset(g, 1, "d");
        if (mode) { g.close(); if (mode == 1) g.open(); }
        int n = 0;
        std::string hit;
        auto hook = [&](simfs::OpType t, const std::string& p, size_t*) -> int {
            if (t == simfs::STAT) return 0; // (a failing stat cannot be told from an absent file)
            if (n++ != at) return 0;
            hit = std::string(simfs::opName(t)) + " " + p;
            return err;
        };
        simfs::setFault(hook);
        Status s;
        DB* d = nullptr;
        if (mode < 2) s = g.g->openDB(&d, mode ? "one" : "two");
        else {
            DBGroup* gg = nullptr;
            s = DBGroup::open(&gg, g.w[0]->path, g.cfg);
            g.g = s.ok() ? gg : nullptr;
        }
        simfs::setFault(nullptr);
        if (hit.empty()) { ctx.skipped = true; if (mode < 2 && s.ok()) { g.w[mode ? 1 : 2]->db = d; } return; }
        ctx.desc += " (" + hit + ")";
        ctx.note("-> %s", s.toString().c_str());
        ctx.observe(s.getValue());
        ctx.observe(hit);
        ctx.state();
        int k = mode ? 1 : 2;
        if (mode < 2 && s.ok()) {
            g.w[k]->db = d;
            g.created[k] = true;
        }
        if (mode == 2) {
            if (!g.g) g.open();
            else OKS(g.g->openDefaultDB(&g.w[0]->db));
        }
        // A handle that was given out works; a refused opening works once the fault is gone; nothing else suffered.
        if (!mode) { g.created[2] = true; g.kvs(2).set("q"); }
        g.check(false);
        g.close();
        g.open();
        g.check(false);
    }, []() { initEngine(); });
    return chk.run();
}
