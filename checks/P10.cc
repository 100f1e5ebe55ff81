// BUILD: seq
#include "logstore.h"
using namespace logstore;

// Rollback (log-store mode) and discarding of unsynced records.

static void rollback(World& w, uint64_t to) {
    if (w.maxSeq < 1 || to > w.maxSeq || to < 1 || to <= w.flushedSeq) prune();
    w.ctx.transitions++;
    Status s = w.db->rollback(to);
    w.ctx.note("rollback(%llu) of %llu -> %s", (unsigned long long)to, (unsigned long long)w.maxSeq, s.toString().c_str());
    if (to < w.maxSeq && to > w.flushedSeq)
        MC_CHECK(s.ok(), "rollback to #%llu (kept #%llu..#%llu) returned %s", (unsigned long long)to, (unsigned long long)w.flushedSeq + 1, (unsigned long long)w.maxSeq, s.toString().c_str());
    if (!s.ok()) { w.syncedSeq = w.maxSeq; return; }
    while (!w.hist.empty() && w.hist.back().seq > to) w.hist.pop_back();
    w.maxSeq = w.syncedSeq = w.durableSeq = to;
    if (held.it) w.extra["rolled"] = 1;
}

// Closing a reader makes the files it used go away.
static void closeReader(World& w) {
    if (!held.it) prune();
    w.ctx.transitions++;
    OKS(held.it->close());
    held.it.reset();
    w.ctx.note("iterator closed");
}
static void remover(World& w) {
    w.ctx.transitions++;
    OKS(DBMgr::getWithoutInit()->forceRemoveFiles());
    w.ctx.note("removed files are deleted");
}

// Unsynced records from #from on disappear; numbers are not given back until reopening.
static void discard(World& w, uint64_t from) {
    if (from <= w.syncedSeq || from > w.maxSeq) prune();
    w.ctx.transitions++;
    Status s = w.db->discardDirty(from);
    w.ctx.note("discardDirty(%llu) of %llu -> %s", (unsigned long long)from, (unsigned long long)w.maxSeq, s.toString().c_str());
    MC_CHECK(s.ok(), "discardDirty returned %s", s.toString().c_str());
    std::vector<MRec> keep;
    for (auto& h : w.hist) if (h.seq < from) keep.push_back(h);
    w.hist = keep;
}
static void discardReopen(World& w) {
    w.reopen();
    uint64_t m = 0, last = 0;
    w.db->getMaxSeqNum(m);
    for (auto& h : w.hist) last = std::max(last, h.seq);
    MC_CHECK(m >= last && m <= w.maxSeq, "maximum sequence number after reopening is %llu, last record is #%llu", (unsigned long long)m, (unsigned long long)last);
    w.maxSeq = w.syncedSeq = w.durableSeq = m;
}
static void discardVerify(World& w) {
    View v = w.view();
    w.checkGets(w.db, v);
    w.checkKeyIter(w.db, v);
    w.checkNearest(w.db, v);
    w.checkPrefix(w.db, v);
    for (uint64_t q = 1; q <= w.maxSeq + 1; ++q) {
        Record r;
        Record::Holder h(r);
        w.ctx.transitions++;
        Status s = w.db->getRecord(q, r);
        const MRec* m = nullptr;
        for (auto& e : w.hist) if (e.seq == q) m = &e;
        if (!m) MC_CHECK(!s.ok(), "record #%llu was discarded or never written, but '%s' is returned", (unsigned long long)q, sb2s(r.kv.key).c_str());
        else if (q > w.flushedSeq) MC_CHECK(s.ok() && sb2s(r.kv.key) == m->key && sb2s(r.kv.value) == m->val, "record #%llu: %s '%s'", (unsigned long long)q, s.toString().c_str(), sb2s(r.kv.key).c_str());
    }
    if (!w.flushedSeq) checkSeqItr(w, w.db, 0, 0, 0, w.maxSeq, "db");
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P10", "model_checking",
                  "all operation sequences up to the stated depth over the alphabet, on the real library");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b+del a", [](World& w) { w.set("b"); w.del("a"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"rollback last-1", [](World& w) { rollback(w, w.maxSeq - 1); }},
        {"rollback last-2", [](World& w) { rollback(w, w.maxSeq - 2); }},
        {"rollback last-3", [](World& w) { rollback(w, w.maxSeq - 3); }},
        {"purge synced-1", [](World& w) { if (w.syncedSeq < 2 || w.syncedSeq - 1 <= w.flushedSeq) prune(); w.flush(FlushOptions(), w.syncedSeq - 1); }},
        {"reclaim", reclaim},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    int d = chk.thorough() ? 6 : 4;
    for (int v = 0; v < 4; ++v) {
        addSeqSpace(chk, mc::fmt("rollback-l%d%s", v % 2 + 1, v / 2 ? "-keep1" : ""), ops, d, [=](World& w) {
            w.cfg = baseConfig(1, v % 2 + 1);
            w.cfg.logSectionOnly = true;
            w.logOnly = true;
            held.it.reset();
            if (v / 2) w.cfg.logFileTtl_sec = 3600, w.cfg.maxKeepingMemtables = 1;
            w.open();
            w.set("a"); w.set("d"); w.set("b"); w.set("a"); w.set("c");
            w.sync();
        }, [](World& w) { verify(w); w.set("e"); verify(w); w.reopen(); verify(w); });
    }
    // A reader open across the rollback: removed files stay until it is closed.
    Ops rops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"rollback last-1", [](World& w) { rollback(w, w.maxSeq - 1); }},
        {"rollback last-3", [](World& w) { rollback(w, w.maxSeq - 3); }},
        {"open iterator", holdItr},
        {"close iterator", closeReader},
        {"remove files", remover},
        {"reclaim", reclaim},
    };
    for (int v = 0; v < 4; ++v) {
        addSeqSpace(chk, mc::fmt("reader-l%d%s", v % 2 + 1, v / 2 ? "-keep1" : ""), rops, chk.thorough() ? 6 : 4, [=](World& w) {
            w.cfg = baseConfig(1, v % 2 + 1);
            w.cfg.logSectionOnly = true;
            w.logOnly = true;
            held.it.reset();
            if (v / 2) w.cfg.logFileTtl_sec = 3600, w.cfg.maxKeepingMemtables = 1;
            w.open();
            w.set("a"); w.set("d"); w.set("b"); w.set("a"); w.set("c");
            w.sync();
        }, [](World& w) {
            auto now = [&] { Held h = std::move(held); held.it.reset(); verify(w); held = std::move(h); };
            now();
            if (held.it) closeReader(w);
            w.set("e"); verify(w);
            remover(w);
            verify(w); w.reopen(); verify(w);
        }, 3, [](const std::vector<int>& s) {
            bool it = false;
            for (int i : s) { if (i == 4) it = true; if (it && (i == 2 || i == 3)) return true; }
            return false;
        });
    }
    // A crash during the rollback: everything up to the target survives, of the rest a prefix.
    Ops cops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b+c", [](World& w) { w.set("b"); w.set("c"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"purge synced-1", [](World& w) { if (w.syncedSeq < 2 || w.syncedSeq - 1 <= w.flushedSeq) prune(); w.flush(FlushOptions(), w.syncedSeq - 1); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    const int nOps = cops.size();
    for (int k = 1; k <= 4; ++k)
        cops.push_back({mc::fmt("rollback last-%d", k), [=](World& w) {
            if (w.maxSeq < (uint64_t)k + 1) prune();
            std::vector<MRec> all = w.hist;
            uint64_t m = w.maxSeq, du = w.durableSeq;
            rollback(w, m - k);
            w.extra["to"] = m - k;
            w.hist = all;
            w.maxSeq = m;
            w.durableSeq = std::min(du, m - k);
        }});
    for (int v = 0; v < 4; ++v) {
        Run run;
        run.setup = [=](World& w) {
            w.cfg = baseConfig(1, v % 2 + 1);
            w.cfg.logSectionOnly = true;
            w.logOnly = true;
            if (v / 2) w.cfg.logFileTtl_sec = 3600, w.cfg.maxKeepingMemtables = 1;
            held.it.reset();
            w.extra["purged0"] = 0;
            w.open();
            w.set("a"); w.set("b"); w.set("a");
            w.sync();
        };
        run.bound = [](const World& f, const Image& im, uint64_t lo, uint64_t) { return std::min<uint64_t>(lo, f.extra.at("to")); };
        run.after = [](World& r, uint64_t R, const Image& im) {
            r.setv("a", "new");
            r.sync();
            r.reopen();
            MC_CHECK(sameLive(scanView(r, r.db), r.view()), "content after recovery, a write, sync and reopen is wrong [%s]", im.label.c_str());
            r.checkGets(r.db, r.view(), "recovered db");
        };
        addCrashSpace(chk, mc::fmt("crash-l%d%s", v % 2 + 1, v / 2 ? "-keep1" : ""), cops, chk.thorough() ? 4 : 3, run, 1, [=](const std::vector<int>& s) {
            for (size_t i = 0; i < s.size(); ++i) if ((s[i] >= nOps) != (i + 1 == s.size())) return false;
            return true;
        });
    }
    // Discarding.
    Ops dops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"set b", [](World& w) { w.set("b"); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"discard last", [](World& w) { discard(w, w.maxSeq); }},
        {"discard last two", [](World& w) { discard(w, w.maxSeq - 1); }},
        {"discard unsynced", [](World& w) { discard(w, w.syncedSeq + 1); }},
        {"sync", [](World& w) { w.sync(); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"flush all", [](World& w) { FlushOptions o; o.beyondLastSync = true; w.flush(o); w.syncedSeq = w.durableSeq = w.flushedSeq = w.maxSeq; }},
        {"reopen", discardReopen},
    };
    for (int le : {1, 2, 16384})
        addSeqSpace(chk, mc::fmt("discard-l%d", le), dops, chk.thorough() ? 5 : 4, [=](World& w) {
            w.cfg = baseConfig(1, le);
            held.it.reset();
            w.open();
            w.set("c");
            w.sync();
        }, [](World& w) { discardVerify(w); discardReopen(w); discardVerify(w); w.set("a"); discardVerify(w); discardReopen(w); discardVerify(w); }, 2,
        [](const std::vector<int>& s) { for (int i : s) if (i >= 3 && i <= 5) return true; return false; });
    // Discarding under an open iterator: it may still yield the discarded records or
    // not, but nothing else, and nobody waits for it.
    static std::vector<MRec> everything;
    auto note = [](World& w) { if (w.hist.size() && (everything.empty() || everything.back().seq < w.hist.back().seq)) everything.push_back(w.hist.back()); };
    auto hold = [](World& w, bool seq) {
        if (held.it) prune();
        held.it.reset(new Iterator());
        w.ctx.transitions++;
        OKS(seq ? held.it->initSN(w.db) : held.it->init(w.db));
        w.extra["seq"] = seq;
        held.exp = w.hist;
        w.ctx.note("iterator by %s opened", seq ? "number" : "key");
    };
    auto step = [](World& w, bool fwd) {
        if (!held.it) prune();
        w.ctx.transitions++;
        Status s = fwd ? held.it->next() : held.it->prev();
        Record r;
        Record::Holder h(r);
        Status g = held.it->get(r);
        w.ctx.note("%s -> %s, #%llu %s", fwd ? "next" : "prev", s.toString().c_str(), (unsigned long long)(g.ok() ? r.seqNum : 0), g.ok() ? sb2s(r.kv.key).c_str() : "");
        if (g.ok()) {
            bool found = false;
            for (auto& m : everything) if (m.seq == r.seqNum && m.key == sb2s(r.kv.key) && m.val == sb2s(r.kv.value)) found = true;
            MC_CHECK(found, "an iterator yields '%s' #%llu, which was never written", sb2s(r.kv.key).c_str(), (unsigned long long)r.seqNum);
        }
        return s.ok();
    };
    Ops iops = {
        {"set a", [=](World& w) { w.set("a"); note(w); }},
        {"set b", [=](World& w) { w.set("b"); note(w); }},
        {"discard last", [](World& w) { discard(w, w.maxSeq); }},
        {"discard unsynced", [](World& w) { discard(w, w.syncedSeq + 1); }},
        {"sync", [](World& w) { w.sync(); }},
        {"key iterator", [=](World& w) { hold(w, false); }},
        {"number iterator", [=](World& w) { hold(w, true); }},
        {"next", [=](World& w) { step(w, true); }},
    };
    for (int le : {1, 16384})
        addSeqSpace(chk, mc::fmt("discard-reader-l%d", le), iops, chk.thorough() ? 7 : 5, [=](World& w) {
            w.cfg = baseConfig(1, le);
            held.it.reset();
            everything.clear();
            w.open();
            w.set("c"); note(w);
            w.sync();
        }, [=](World& w) {
            auto now = [&] { Held h = std::move(held); held.it.reset(); discardVerify(w); held = std::move(h); };
            now();
            std::vector<uint64_t> got;
            for (int i = 0; step(w, true); ++i) MC_CHECK(i < 10, "iterator does not end");
            for (int i = 0; step(w, false); ++i) MC_CHECK(i < 10, "iterator does not end");
            closeReader(w);
            discardVerify(w);
        }, 3, [](const std::vector<int>& s) {
            int it = 0;
            for (int i : s) {
                if (i == 5 || i == 6) { if (it) return false; it = 1; }
                if (i == 7 && !it) return false;
                if ((i == 2 || i == 3) && it) it = 2;
            }
            return it == 2;
        });
    return chk.run();
}
