// Log-store mode helpers: the log section alone holds the data, flushing means purging.
#pragma once
#include "crash.h"
#include "db_mgr.h"
#include "worker_mgr.h"

namespace logstore {
using namespace crash;

// An iterator kept open across other operations.
struct Held {
    std::unique_ptr<Iterator> it;
    std::vector<MRec> exp;
};
static Held held;
inline void prune() {
    if (held.it) held.it->close();
    held.it.reset();
    throw Prune{};
}

// Runs the background log reclaimer once.
inline void reclaim(World& w) {
    w.ctx.transitions++;
    DBMgr* m = DBMgr::getWithoutInit();
    MC_CHECK(m, "no database manager");
    WorkerBase* r = m->workerMgr()->getWorker("reclaimer_0");
    if (!r) prune();
    r->work();
    w.ctx.note("reclaimer ran");
}

inline void checkSeqItr(World& w, DB* d, uint64_t a, uint64_t b, uint64_t from, uint64_t upto, const char* what) {
    // from/upto: visible history (exclusive/inclusive), a/b: requested range (0: open)
    std::vector<const MRec*> exp;
    for (auto& h : w.hist)
        if (h.seq > from && h.seq <= upto && (!a || h.seq >= a) && (!b || h.seq <= b)) exp.push_back(&h);
    for (int fwd = 1; fwd >= 0; --fwd) {
        Iterator it;
        w.ctx.transitions++;
        Status s = a || b ? it.initSN(d, a, b) : it.initSN(d);
        MC_CHECK(s.ok() || exp.empty(), "%s: initSN(%llu, %llu) returned %s", what, (unsigned long long)a, (unsigned long long)b, s.toString().c_str());
        if (!s.ok()) return;
        std::vector<const MRec*> e = exp;
        if (!fwd) { it.gotoEnd(); std::reverse(e.begin(), e.end()); }
        size_t n = 0;
        for (;; ++n) {
            Record r;
            Record::Holder h(r);
            s = it.get(r);
            if (!s.ok()) break;
            MC_CHECK(n < e.size(), "%s: %s iteration over numbers [%llu, %llu] yields an extra record #%llu", what, fwd ? "forward" : "backward",
                     (unsigned long long)a, (unsigned long long)b, (unsigned long long)r.seqNum);
            MC_CHECK(r.seqNum == e[n]->seq && r.type == e[n]->type && sb2s(r.kv.key) == e[n]->key && (r.type || sb2s(r.kv.value) == e[n]->val) && sb2s(r.meta) == e[n]->meta,
                     "%s: %s iteration over numbers [%llu, %llu] yields #%llu '%s'='%s' instead of #%llu '%s'='%s'", what, fwd ? "forward" : "backward",
                     (unsigned long long)a, (unsigned long long)b, (unsigned long long)r.seqNum, sb2s(r.kv.key).c_str(), sb2s(r.kv.value).c_str(),
                     (unsigned long long)e[n]->seq, e[n]->key.c_str(), e[n]->val.c_str());
            s = fwd ? it.next() : it.prev();
            if (!s.ok()) { ++n; break; }
        }
        MC_CHECK(n == e.size(), "%s: %s iteration over numbers [%llu, %llu] yields %zu records instead of %zu", what, fwd ? "forward" : "backward",
                 (unsigned long long)a, (unsigned long long)b, n, e.size());
        it.close();
    }
}

inline void holdItr(World& w) {
    if (held.it) prune();
    held.it.reset(new Iterator());
    w.ctx.transitions++;
    held.exp.clear();
    for (auto& h : w.hist) if (h.seq > w.flushedSeq) held.exp.push_back(h);
    if (held.exp.empty()) { held.it.reset(); prune(); }
    OKS(held.it->initSN(w.db));
    w.ctx.note("iterator opened");
}
inline void closeItr(World& w) {
    if (!held.it) prune();
    w.ctx.transitions++;
    size_t n = 0;
    for (;; ++n) {
        Record r;
        Record::Holder h(r);
        if (!held.it->get(r).ok()) break;
        MC_CHECK(n < held.exp.size() && r.seqNum == held.exp[n].seq && sb2s(r.kv.key) == held.exp[n].key && sb2s(r.kv.value) == held.exp[n].val,
                 "an iterator opened earlier yields #%llu '%s'", (unsigned long long)r.seqNum, sb2s(r.kv.key).c_str());
        if (!held.it->next().ok()) { ++n; break; }
    }
    MC_CHECK(n == held.exp.size(), "an iterator opened earlier yields %zu records instead of %zu", n, held.exp.size());
    OKS(held.it->close());
    held.it.reset();
    w.ctx.note("iterator closed");
}

// A snapshot shows exactly the records of the moment it was opened; records that
// had been purged before that may still show up (of a log file purged in part).
inline void checkSnap(World& w, Snap& sn) {
    uint64_t sf = w.extra[mc::fmt("from%p", (void*)sn.db)];
    View full;
    for (auto& h : w.hist) if (h.seq <= sn.upto) full[h.key] = h;
    auto is = [&](const MRec& g) {
        for (auto& h : w.hist)
            if (h.seq == g.seq) return h.key == g.key && h.val == g.val && h.meta == g.meta && h.type == g.type;
        return false;
    };
    for (auto& k : w.universe) {
        w.ctx.transitions++;
        Record r;
        Record::Holder hr(r);
        Status s = sn.db->getRecordByKey(SizedBuf(k), r);
        auto e = full.find(k);
        bool must = e != full.end() && e->second.seq > sf;
        if (must && e->second.type == Record::INSERTION)
            MC_CHECK(s.ok() && r.seqNum == e->second.seq && sb2s(r.kv.value) == e->second.val, "snapshot: lookup of '%s' returned %s #%llu instead of #%llu", k.c_str(),
                     s.toString().c_str(), (unsigned long long)r.seqNum, (unsigned long long)e->second.seq);
        else if (must || e == full.end())
            MC_CHECK(!s.ok(), "snapshot: lookup of absent key '%s' returned #%llu", k.c_str(), (unsigned long long)r.seqNum);
        else if (s.ok())
            MC_CHECK(r.seqNum == e->second.seq && sb2s(r.kv.value) == e->second.val, "snapshot: lookup of '%s' returned #%llu", k.c_str(), (unsigned long long)r.seqNum);
    }
    for (int fwd = 1; fwd >= 0; --fwd) {
        std::vector<MRec> got = w.scan(sn.db, fwd), need;
        for (auto& e : full) if (e.second.seq > sf && e.second.type == Record::INSERTION) need.push_back(e.second);
        if (!fwd) std::reverse(need.begin(), need.end());
        size_t n = 0;
        for (size_t i = 0; i < got.size(); ++i) {
            if (i) MC_CHECK(fwd ? got[i - 1].key < got[i].key : got[i].key < got[i - 1].key, "snapshot: key iteration is out of order");
            MC_CHECK(is(got[i]) && full[got[i].key].seq == got[i].seq, "snapshot: key iteration yields '%s' #%llu", got[i].key.c_str(), (unsigned long long)got[i].seq);
            if (n < need.size() && got[i].key == need[n].key) ++n;
        }
        MC_CHECK(n == need.size(), "snapshot: key iteration misses '%s'", need[n].key.c_str());
    }
    checkSeqItr(w, sn.db, sf + 1, sn.upto, sf, sn.upto, "snapshot");
}

inline void verify(World& w) {
    if (held.it) closeItr(w);
    uint64_t from = w.flushedSeq;
    w.checkSeqNums();
    uint64_t f = 0, mn = 0;
    Status st = w.db->getLastFlushedSeqNum(f);
    if (from) MC_CHECK(st.ok() && f == from, "last purged number is %lld (%s) instead of %llu", (long long)f, st.toString().c_str(), (unsigned long long)from);
    else MC_CHECK(!st.ok(), "purged number %llu is reported although nothing was purged", (unsigned long long)f);
    st = w.db->getLastSyncedSeqNum(f);
    if (w.syncedSeq) MC_CHECK(st.ok() && f == w.syncedSeq, "last synced number is %lld (%s) instead of %llu", (long long)f, st.toString().c_str(), (unsigned long long)w.syncedSeq);
    const MRec* first = nullptr;
    for (auto& h : w.hist) if (h.seq > from && !first) first = &h;
    st = w.db->getMinSeqNum(mn);
    if (first) MC_CHECK(st.ok() && mn > from && mn <= first->seq, "minimum number is %lld (%s), the first record kept is #%llu", (long long)mn, st.toString().c_str(), (unsigned long long)first->seq);
    // every number
    for (uint64_t q = 1; q <= w.maxSeq + 1; ++q) {
        w.ctx.transitions++;
        const MRec* m = nullptr;
        for (auto& h : w.hist) if (h.seq == q) m = &h;
        Record r;
        Record::Holder h(r);
        st = w.db->getRecord(q, r);
        if (!st.ok()) {
            MC_CHECK(!m || q <= from, "record #%llu (purged up to #%llu): %s", (unsigned long long)q, (unsigned long long)from, st.toString().c_str());
            continue;
        }
        MC_CHECK(m && r.seqNum == q && sb2s(r.kv.key) == m->key && r.type == m->type && sb2s(r.meta) == m->meta && (m->type || sb2s(r.kv.value) == m->val),
                 "record #%llu is key '%s' value '%s' #%llu", (unsigned long long)q, sb2s(r.kv.key).c_str(), sb2s(r.kv.value).c_str(), (unsigned long long)r.seqNum);
    }
    View v = w.view();
    w.checkGets(w.db, v);
    w.checkKeyIter(w.db, v);
    checkSeqItr(w, w.db, 0, 0, from, w.maxSeq, "db");
    for (uint64_t a = 1; a <= w.maxSeq; ++a)
        for (uint64_t b = a; b <= w.maxSeq; ++b) checkSeqItr(w, w.db, a, b, from, w.maxSeq, "db");
    for (auto& s : w.snaps) checkSnap(w, s);
}

} // namespace logstore
