// Crash exploration: every crash point of the journal of a history, with every
// choice of how much unsynced data survived per file (see DESIGN.md for the
// disk model), recovered with the real code.
#pragma once
#include "dbh.h"

namespace crash {
using namespace dbh;

struct Mark { size_t jEnd; uint64_t lo; uint64_t durable; uint64_t hi; };

struct Image {
    simfs::Image img;
    std::string label;
    bool powerLoss = false;      // some unsynced data was lost
    mutable bool weak = false;   // some data was written without asking for fsync
};

inline uint64_t hashImage(const simfs::Image& im) {
    uint64_t h = 1469598103934665603ULL;
    for (auto& f : im.files) {
        h = mc::hashBytes(f.first.data(), f.first.size(), h);
        uint64_t n = f.second.size();
        h = mc::hashBytes(&n, sizeof(n), h);
        h = mc::hashBytes(f.second.data(), f.second.size(), h);
    }
    for (auto& d : im.dirs) h = mc::hashBytes(d.data(), d.size(), h);
    return h;
}

struct Options {
    bool powerLoss = true;
    bool torn = true;
    int maxTorn = 1;
};

// Calls fn for every distinct image reachable by a crash after [from, to] ops.
// rank: how much is promised to an image; one seen with less is visited again.
inline void images(const simfs::Image& base, const std::vector<simfs::Op>& j, size_t from, size_t to,
                   const Options& o, std::map<uint64_t, uint64_t>& seen, const std::function<void(const Image&, size_t upto)>& fn,
                   const std::function<uint64_t(size_t upto, bool powerLoss)>& rank = nullptr) {
    auto emit = [&](const simfs::CrashChoice& c, const std::string& label, bool pl) {
        Image im;
        im.img = simfs::applyJournal(base, j, c);
        uint64_t rk = 1 + (rank ? rank(c.upto, pl) : 0);
        uint64_t& sr = seen[hashImage(im.img)];
        if (sr >= rk) return;
        sr = rk;
        im.label = label;
        im.powerLoss = pl;
        fn(im, c.upto);
    };
    auto lab = [&](size_t u) {
        return mc::fmt("crash after %zu of %zu operations (last: %s %s)", u, j.size(),
                       u ? simfs::opName(j[u - 1].type) : "-", u ? j[u - 1].path.c_str() : "");
    };
    // Process crashes (everything written so far survives) and the end of the operation first: they promise more.
    for (size_t u = to + 1; u-- > from;) {
        simfs::CrashChoice c;
        c.upto = u;
        emit(c, lab(u) + ", process crash", false);
    }
    if (!o.powerLoss) return;
    for (size_t u = to + 1; u-- > from;) {
        // Within a run of writes to one file, the end of the run covers the earlier points.
        if (u > from && u < to && j[u].type == simfs::WRITE && j[u - 1].type == simfs::WRITE && j[u].ino == j[u - 1].ino) continue;
        auto un = simfs::unsynced(j, u);
        if (un.empty()) continue;
        simfs::CrashChoice c, none;
        c.upto = none.upto = u;
        for (auto& e : un) none.keep[e.first] = 0;
        emit(none, lab(u) + ", all unsynced data lost", true);
        for (auto& e : un) {
            auto ops = simfs::unsyncedOps(j, u, e.first);
            for (size_t k = 0; k <= e.second; ++k) {
                simfs::CrashChoice a = c, b = none;
                a.keep[e.first] = k;
                b.keep[e.first] = k;
                emit(a, lab(u) + mc::fmt(", file %s kept %zu of %zu unsynced writes, others all", j[ops[0]].path.c_str(), k, e.second), true);
                emit(b, lab(u) + mc::fmt(", file %s kept %zu of %zu unsynced writes, others none", j[ops[0]].path.c_str(), k, e.second), true);
                if (!o.torn || !k) continue;
                const simfs::Op& w = j[ops[k - 1]];
                if (w.type != simfs::WRITE || w.data.size() < 2) continue;
                std::set<size_t> cuts = {w.data.size() / 2};
                if (o.maxTorn > 1) cuts.insert({(size_t)1, w.data.size() - 1});
                for (size_t cut : cuts)
                    for (auto* base2 : {&a, &b}) {
                        simfs::CrashChoice t = *base2;
                        t.tornIno = e.first;
                        t.tornBytes = cut;
                        emit(t, lab(u) + mc::fmt(", file %s write %zu torn at %zu of %zu bytes (%s)", w.path.c_str(), k, cut, w.data.size(),
                                              base2 == &a ? "others all" : "others none"), true);
                    }
            }
        }
    }
}

// What a full scan of `d` returns.
inline View scanView(World& w, DB* d) {
    View v;
    for (auto& m : w.scan(d)) v[m.key] = m;
    return v;
}
inline bool sameLive(const View& got, const View& want) {
    size_t live = 0;
    for (auto& e : want) {
        if (e.second.type != Record::INSERTION) continue;
        ++live;
        auto g = got.find(e.first);
        if (g == got.end() || g->second.seq != e.second.seq || g->second.val != e.second.val || g->second.meta != e.second.meta) return false;
    }
    return got.size() == live;
}

// Opens the database on `im` and returns the recovered upper bound R with
// lo <= R <= hi such that the content is exactly the history up to R.
inline uint64_t recover(World& r, const World& w, const Image& im, uint64_t lo, uint64_t hi, bool creating = false, bool weak = false) {
    simfs::restore(im.img);
    fdbsim_reset();
    r.cfg = w.cfg;
    r.path = w.path;
    r.less = w.less;
    r.logOnly = w.logOnly;
    r.chks = w.chks;
    r.extra = w.extra;
    r.universe = w.universe;
    r.extraProbes = w.extraProbes;
    r.valCounter = w.valCounter + 100;
    r.ctx.note("## %s", im.label.c_str());
    Status s = DB::open(&r.db, r.path, r.cfg);
    MC_CHECK(s.ok() || !creating, "after a crash while creating the database, open returned %s [%s]", s.toString().c_str(), im.label.c_str());
    MC_CHECK(s.ok(), "after a crash, open returned %s [%s]", s.toString().c_str(), im.label.c_str());
    View got = scanView(r, r.db);
    uint64_t mx = 0;
    r.db->getMaxSeqNum(mx);
    for (auto& e : got)
        MC_CHECK(e.second.seq <= mx, "after a crash, the last sequence number is %llu but key %s has #%llu: numbers will be reused [%s]",
                 (unsigned long long)mx, e.first.c_str(), (unsigned long long)e.second.seq, im.label.c_str());
    std::vector<uint64_t> cand;
    if (mx >= lo && mx <= hi) cand.push_back(mx);
    for (uint64_t R = hi + 1; R-- > lo;) cand.push_back(R);
    // Log-store mode: a purge in progress may or may not have happened.
    std::set<uint64_t> purged = {w.flushedSeq};
    if (w.logOnly) purged = {(uint64_t)w.extra.at("purged0"), (uint64_t)w.extra.at("purged1")};
    for (uint64_t f : purged) for (uint64_t R : cand) {
        const_cast<World&>(w).flushedSeq = f;
        if (!sameLive(got, w.viewAt(R))) continue;
        if (w.logOnly) r.flushedSeq = f;
        r.hist.clear();
        for (auto& h : w.hist) if (h.seq <= R) r.hist.push_back(h);
        r.maxSeq = std::max(R, mx);
        // A snapshot of the recovered database shows the same.
        DB* sn = nullptr;
        if (!w.logOnly && r.db->openSnapshot(&sn).ok()) {
            View sv = scanView(r, sn);
            MC_CHECK(sameLive(sv, got), "after a crash, a snapshot of the recovered database shows %zu records instead of %zu, or others [%s]", sv.size(), got.size(), im.label.c_str());
            DB::close(sn);
        }
        return R;
    }
    if (weak) {
        // Written without fsync, then power loss: any subset of the records after `lo` may be lost.
        View base = w.viewAt(lo);
        for (auto& e : w.view()) {
            auto g = got.find(e.first);
            bool ok = false;
            for (auto& h : w.hist) {
                if (h.key != e.first || (base.count(e.first) && h.seq < base[e.first].seq)) continue;
                if (h.type == Record::DELETION ? g == got.end() : g != got.end() && g->second.seq == h.seq && g->second.val == h.val) ok = true;
            }
            if (!base.count(e.first) && g == got.end()) ok = true;
            MC_CHECK(ok, "after a crash, durable record of key %s (state of #%llu) is lost [%s]", e.first.c_str(), (unsigned long long)lo, im.label.c_str());
        }
        r.hist.clear();
        for (auto& h : w.hist) { auto g = got.find(h.key); if (g != got.end() && g->second.seq == h.seq) r.hist.push_back(h); }
        uint64_t R = std::max(lo, mx);
        r.maxSeq = R;
        return R;
    }
    std::string g;
    for (auto& e : got) g += mc::fmt("%s=#%llu ", e.first.c_str(), (unsigned long long)e.second.seq);
    bool prefix = false;
    for (uint64_t R = 0; R < lo; ++R) if (sameLive(got, w.viewAt(R))) {
        MC_CHECK(false, "after a crash, durable records are lost: found the state of #%llu, #%llu was durable [%s]", (unsigned long long)R, (unsigned long long)lo, im.label.c_str());
    }
    (void)prefix;
    MC_CHECK(false, "after a crash, the content is not the history up to any point in #%llu..#%llu: %s[%s]",
             (unsigned long long)lo, (unsigned long long)hi, g.c_str(), im.label.c_str());
    return 0;
}

// All histories; the crash happens anywhere within the last operation.
struct Run {
    std::function<void(World&)> setup;                        // config, open, fixture
    std::function<void(World&, uint64_t R, const Image&)> after;   // on the recovered database
    Options opt;
    bool journalSetup = false;                                // crash points inside setup (no ops)
    std::function<uint64_t(const World&, const Image&, uint64_t, uint64_t)> bound;
};

inline void addCrashSpace(mc::Check& chk, const std::string& name, const Ops& ops, int maxLen, const Run& run,
                          int minLen = 1, std::function<bool(const std::vector<int>&)> keep = nullptr) {
    // maxLen 0: crashes while `setup` runs, one case per image (at most 400).
    uint64_t n = maxLen ? mc::seqCount(ops.size(), maxLen, minLen) : 400;
    chk.add(name, n, [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::vector<int> seq;
        if (maxLen) seq = mc::seqDecode(idx, ops.size(), maxLen, minLen);
        if (keep && !keep(seq)) { ctx.skipped = true; return; }
        for (int i : seq) ctx.desc += (ctx.desc.empty() ? "" : ", ") + ops[i].name;
        freshWorld();
        simfs::Image base = simfs::snapshot();
        std::vector<simfs::Op> j;
        size_t from = 0, to = 0;
        World w(ctx);
        uint64_t lo0 = 0, du0 = 0;
        bool weak0 = false;
        simfs::journalStart();
        try {
            run.setup(w);
            for (size_t i = 0; i < seq.size(); ++i) {
                if (i + 1 == seq.size()) { from = simfs::journal().size(); lo0 = w.syncedSeq; w.extra["purged0"] = w.flushedSeq; du0 = w.durableSeq; weak0 = w.extra["nofsync"]; }
                ctx.note("-- %s", ops[seq[i]].name.c_str());
                ops[seq[i]].fn(w);
            }
        } catch (Prune&) {
            simfs::journalStop();
            ctx.skipped = true;
            return;
        }
        if (seq.empty()) { from = 0; lo0 = du0 = 0; }
        to = simfs::journal().size();
        j = simfs::journal();
        simfs::journalStop();
        w.observeState();
        World fin = World(ctx);
        fin.cfg = w.cfg; fin.path = w.path; fin.hist = w.hist; fin.universe = w.universe; fin.less = w.less;
        fin.extraProbes = w.extraProbes; fin.valCounter = w.valCounter; fin.logOnly = w.logOnly; fin.maxSeq = w.maxSeq;
        w.extra["purged1"] = w.flushedSeq;
        fin.extra = w.extra; fin.chks = w.chks;
        uint64_t lo1 = w.syncedSeq, du1 = w.durableSeq, hi = w.maxSeq;
        for (auto& s : w.snaps) if (s.db) DB::close(s.db);
        w.snaps.clear();
        if (w.db) DB::close(w.db);
        w.db = nullptr;
        if (from == to && seq.size() > 1 && lo0 == lo1 && du0 == du1 && weak0 == (bool)fin.extra["nofsync"]) { ctx.skipped = true; return; }   // nothing reached the disk: covered by the shorter history
        std::map<uint64_t, uint64_t> seen;
        uint64_t ord = 0;
        auto lower = [&](size_t upto, bool pl) { return upto == to ? (pl ? du1 : lo1) : (pl ? du0 : lo0); };
        auto isWeak = [&](size_t upto) { return upto == to ? fin.extra["nofsync"] : weak0 || fin.extra["nofsync"]; };
        bool hit = false;
        images(base, j, from, to, run.opt, seen, [&](const Image& im, size_t upto) {
            if (!maxLen && ord++ != idx) return;
            hit = true;
            ctx.transitions++;
            if (!maxLen) ctx.desc = im.label;
            // Before the last operation returned, only what was promised before it counts.
            uint64_t lo = lower(upto, im.powerLoss);
            if (run.bound) lo = run.bound(fin, im, lo, hi);
            World r(ctx);
            bool weak = isWeak(upto);
            im.weak = weak;
            uint64_t R = recover(r, fin, im, lo, hi, maxLen == 0, weak && im.powerLoss);
            ctx.observe(R);
            ctx.state();
            if (run.after) run.after(r, R, im);
        }, [&](size_t upto, bool pl) { return lower(upto, pl) * 2 + !(pl && isWeak(upto)); });
        ctx.validated = seen.size();
        if (!hit) ctx.skipped = true;
        MC_CHECK(maxLen || ord <= n, "%llu crash images while opening, space holds %llu", (unsigned long long)ord, (unsigned long long)n);
    }, []() { initEngine(); });
}

} // namespace crash
