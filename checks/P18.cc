// BUILD: pseq
#include "crash.h"
#include <libjungle/jungle_builder.h>
using namespace crash;

// A database built in bulk is the database that the same records, written one by one, would give.

struct Shape {
    std::vector<std::string> keys;
    int tables;      // 0: one table, 1: a table for each record, 2: two records each
    int seqs;        // 0: automatic, 1: given, ascending with gaps, 2: given, descending
    int files;       // 0: as the builder numbers them, 1: numbered from 5, listed backwards, 2: numbered backwards
    int parts;
    std::string name() const {
        std::string s;
        for (auto& k : keys) s += (s.empty() ? "" : ",") + k;
        return mc::fmt("{%s} in %s, %s numbers, %s, %d partition%s", s.c_str(), tables == 0 ? "one table" : tables == 1 ? "tables of one" : "tables of two",
                       seqs == 0 ? "automatic" : seqs == 1 ? "ascending" : "descending", files == 0 ? "built" : files == 1 ? "assembled from files listed backwards" : "assembled from files numbered backwards", parts, parts > 1 ? "s" : "");
    }
};

static std::vector<Shape> shapes(bool full) {
    std::vector<Shape> r;
    std::vector<std::vector<std::string>> ks = {{}, {"b"}, {"b", "d"}, {"b", "d", "f", "h"}};
    if (full) ks.push_back({"b", "d", "f"});
    for (auto& k : ks)
        for (int t : {0, 1, 2})
            for (int s : {0, 1, 2})
                for (int f : {0, 1, 2})
                    for (int p : {1, 2}) {
                        if (k.size() <= 1 && (t || (k.empty() && (s || f)) || (k.size() == 1 && f == 2))) continue;
                        if (k.size() == 2 && t == 2) continue;
                        if (t == 0 && f == 2) continue;
                        if (!full && p == 2 && (s == 2 || f)) continue;
                        if (!full && f && s == 1) continue;
                        r.push_back({k, t, s, f, p});
                    }
    return r;
}

static Record rec(const MRec& m, bool givenSeq) {
    Record r;
    r.kv.key = SizedBuf(m.key);
    r.kv.value = SizedBuf(m.val);
    r.meta = SizedBuf(m.meta);
    if (givenSeq) r.seqNum = m.seq;
    return r;
}

// Builds the database at w.path.  Returns the first error; w.hist holds the records.
static Status build(World& w, const Shape& sh) {
    w.cfg = baseConfig(sh.parts, 2);
    std::vector<MRec> recs;
    for (size_t i = 0; i < sh.keys.size(); ++i) {
        MRec m;
        m.key = sh.keys[i];
        m.val = "v0_" + m.key;
        m.meta = i % 2 ? "meta" : "";
        m.seq = sh.seqs == 0 ? i + 1 : sh.seqs == 1 ? 10 + 3 * i : 40 - 7 * i;
        recs.push_back(m);
    }
    DBConfig bc = w.cfg;
    // (The builder starts another table once the current one exceeds the limit.)
    bc.maxL1TableSize = sh.tables == 0 ? 1 << 20 : sh.tables == 1 ? 1 : 150;
    {
        builder::Builder b;
        Status s = b.init(w.path, bc);
        w.ctx.note("init -> %s", s.toString().c_str());
        if (!s.ok()) return s;
        for (auto& m : recs) {
            Record r = rec(m, sh.seqs);
            s = b.set(r);
            w.ctx.transitions++;
            w.ctx.note("add %s #%llu -> %s", m.key.c_str(), (unsigned long long)m.seq, s.toString().c_str());
            if (!s.ok()) return s;
        }
        s = b.commit();
        w.ctx.note("commit -> %s", s.toString().c_str());
        if (!s.ok()) return s;
        b.close();
    }
    if (sh.files) {
        // The same table files under other numbers, assembled by hand.
        simfs::Image im = simfs::snapshot(), out;
        out.dirs = im.dirs;
        builder::Builder::BuildParams p;
        p.path = w.path;
        p.dbConfig = bc;
        size_t per = sh.tables == 0 ? recs.size() : sh.tables == 1 ? 1 : 2, n = recs.empty() ? 0 : (recs.size() + per - 1) / per;
        MC_CHECK(n && !im.files.count(w.path + mc::fmt("/table0000_%08zu", n + sh.parts)), "harness: the builder made more than %zu tables", n);
        for (size_t t = 0; t < n; ++t) {
            std::string from = w.path + mc::fmt("/table0000_%08zu", t);
            auto f = im.files.find(from);
            MC_CHECK(f != im.files.end(), "the builder made no table file %zu", t);
            builder::Builder::BuildParams::TableData td;
            td.tableNumber = sh.files == 1 ? 5 + t : n - t - 1;
            td.minKey = recs[t * per].key;
            for (size_t i = t * per; i < recs.size() && i < (t + 1) * per; ++i) td.maxSeqnum = std::max<uint64_t>(td.maxSeqnum, recs[i].seq);
            out.files[w.path + mc::fmt("/table0000_%08llu", (unsigned long long)td.tableNumber)] = f->second;
            if (sh.files == 1) p.tables.push_front(td); else p.tables.push_back(td);
        }
        simfs::restore(out);
        fdbsim_reset();
        Status s = builder::Builder::buildFromTableFiles(p);
        w.ctx.note("assemble -> %s", s.toString().c_str());
        if (!s.ok()) return s;
    }
    for (auto& m : recs) {
        w.hist.push_back(m);
        w.universe.insert(m.key);
        w.maxSeq = std::max<uint64_t>(w.maxSeq, m.seq);
    }
    return Status();
}

static void look(World& w) {
    View v = w.view();
    w.checkGets(w.db, v);
    w.checkKeyIter(w.db, v);
    w.checkNearest(w.db, v);
    w.checkPrefix(w.db, v);
    w.checkSnaps(false);
}
// Opening: everything is there, and new numbers are above all of it.
static void start(World& w) {
    w.open();
    uint64_t mx = 0;
    if (!w.db->getMaxSeqNum(mx).ok()) mx = 0;
    MC_CHECK(mx >= w.maxSeq, "the built database reports #%llu as its last number, it holds #%llu", (unsigned long long)mx, (unsigned long long)w.maxSeq);
    w.maxSeq = w.syncedSeq = w.flushedSeq = w.durableSeq = mx;
    look(w);
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P18", "model_checking",
                  "all shapes of a bulk-built database (keys x tables x numbers x file numbering x partitions) x all following operation sequences to the stated depth; every failing system call of a build; every power-loss image after it");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"set e", [](World& w) { w.set("e"); }},
        {"del d", [](World& w) { w.del("d"); }},
        {"set i", [](World& w) { w.set("i"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"sync+flush+compactL0", [](World& w) { w.syncFlush(); w.compactL0All(); }},
        {"compact L1", [](World& w) { w.compactLevel(1); }},
        {"in-place L1", [](World& w) { w.compactInplace(1); }},
        {"split L1", [](World& w) { w.split(1); }},
        {"merge L1", [](World& w) { w.merge(1); }},
        {"snapshot", [](World& w) { if (w.snaps.size()) throw Prune{}; w.openSnap(); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    std::vector<Shape> sh = shapes(chk.thorough());
    int d = chk.thorough() ? 4 : 3;
    uint64_t n = mc::seqCount(ops.size(), d, 0);
    chk.add("ops", sh.size() * n, [=](uint64_t idx, mc::CaseCtx& ctx) {
        const Shape& s = sh[idx % sh.size()];
        std::vector<int> seq = mc::seqDecode(idx / sh.size(), ops.size(), d, 0);
        ctx.desc = s.name();
        for (int i : seq) ctx.desc += ", " + ops[i].name;
        freshWorld();
        World w(ctx);
        OKS(build(w, s));
        start(w);
        try { for (int i : seq) { ops[i].fn(w); if (i == seq.back()) look(w); } } catch (Prune&) { ctx.skipped = true; return; }
        w.observeState();
        look(w);
        w.close();
        w.open();
        look(w);
        w.set("c");
        w.syncFlush();
        w.compactL0All();
        look(w);
    }, []() { initEngine(); });
    // A failing call: what is reported as built is complete; a refused build can be done again elsewhere.
    static const int errs[] = {5 /* EIO */, 28 /* ENOSPC */};
    uint64_t maxOp = 300;
    chk.add("fault", maxOp * 2 * sh.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
        const Shape& s = sh[idx % sh.size()];
        if (s.files || s.seqs == 1) { ctx.skipped = true; return; }
        int err = errs[idx / sh.size() % 2];
        int at = idx / sh.size() / 2;
        ctx.desc = s.name() + mc::fmt(", call %d fails with errno %d", at + 1, err);
        freshWorld();
        World w(ctx);
        int k = 0;
        std::string hit;
        simfs::setFault([&](simfs::OpType t, const std::string& p, size_t*) -> int {
            if (t == simfs::STAT || t == simfs::CLOSE) return 0;
            if (k++ != at) return 0;
            hit = std::string(simfs::opName(t)) + " " + p;
            return err;
        });
        Status r = build(w, s);
        simfs::setFault(nullptr);
        if (hit.empty()) { ctx.skipped = true; return; }
        ctx.desc += " (" + hit + ")";
        ctx.observe(r.getValue());
        ctx.observe(hit);
        ctx.state();
        if (!r.ok()) return;
        fdbsim_reset();
        start(w);
        w.set("c");
        w.syncFlush();
        w.reopen();
        look(w);
    }, []() { initEngine(); });
    // The machine stops at any time after the build was reported as done.
    chk.add("power", sh.size(), [=](uint64_t idx, mc::CaseCtx& ctx) {
        const Shape& s = sh[idx];
        if (s.files) { ctx.skipped = true; return; }
        ctx.desc = s.name() + ", power loss";
        freshWorld();
        simfs::Image base = simfs::snapshot();
        simfs::journalStart();
        std::vector<simfs::Op> j;
        std::vector<MRec> hist;
        std::set<std::string> uni;
        uint64_t mx = 0;
        DBConfig cfg;
        std::string path;
        {
            World w(ctx);
            OKS(build(w, s));
            j = simfs::journal();
            simfs::journalStop();
            hist = w.hist; uni = w.universe; mx = w.maxSeq; cfg = w.cfg; path = w.path;
        }
        std::map<uint64_t, uint64_t> seen;
        images(base, j, j.size(), j.size(), Options(), seen, [&](const Image& im, size_t) {
            simfs::restore(im.img);
            fdbsim_reset();
            World r(ctx);
            r.cfg = cfg;
            r.path = path;
            r.hist = hist; r.universe = uni; r.maxSeq = mx;
            ctx.note("## %s", im.label.c_str());
            ctx.state();
            start(r);
            r.set("b");
            r.syncFlush();
            r.compactL0All();
            r.reopen();
            look(r);
        });
    }, []() { initEngine(); });
    return chk.run();
}
