// BUILD: seq
#include "dbh.h"
using namespace dbh;

static void verify(World& w) {
    w.checkSeqNums();
    uint64_t f = 0, s = 0, mn = 0;
    Status st = w.db->getLastFlushedSeqNum(f);
    if (w.flushedSeq) {
        MC_CHECK(st.ok() && f == w.flushedSeq, "last flushed sequence number is %lld (%s) instead of %llu",
                 (long long)(st.ok() ? f : -1), st.toString().c_str(), (unsigned long long)w.flushedSeq);
    } else {
        MC_CHECK(!st.ok(), "a flushed sequence number %llu is reported although nothing was flushed",
                 (unsigned long long)f);
    }
    st = w.db->getLastSyncedSeqNum(s);
    if (w.syncedSeq) {
        MC_CHECK(st.ok() && s == w.syncedSeq, "last synced sequence number is %lld (%s) instead of %llu",
                 (long long)(st.ok() ? s : -1), st.toString().c_str(), (unsigned long long)w.syncedSeq);
    } else {
        MC_CHECK(!st.ok(), "a synced sequence number %llu is reported although nothing was synced",
                 (unsigned long long)s);
    }
    st = w.db->getMinSeqNum(mn);
    bool any = false;
    uint64_t first = 0;
    for (auto& m : w.hist)
        if (m.seq > w.flushedSeq) { any = true; first = m.seq; break; }
    if (any)
        MC_CHECK(st.ok() && mn > w.flushedSeq && mn <= first,
                 "minimum sequence number in the log is %lld (%s); first unflushed is %llu",
                 (long long)(st.ok() ? mn : -1), st.toString().c_str(), (unsigned long long)first);
    // Lookup by sequence number.
    for (uint64_t q = 0; q <= w.maxSeq + 2; ++q) {
        w.ctx.transitions++;
        const MRec* m = nullptr;
        for (auto& h : w.hist) if (h.seq == q) m = &h;
        Record r;
        Record::Holder h(r);
        st = w.db->getRecord(q, r);
        if (!m) {
            MC_CHECK(!st.ok(), "sequence number %llu was never used but a record is returned", (unsigned long long)q);
            KV kv; KV::Holder hk(kv);
            MC_CHECK(!w.db->getSN(q, kv).ok(), "sequence number %llu was never used but a pair is returned", (unsigned long long)q);
            continue;
        }
        if (!st.ok()) {
            MC_CHECK(q <= w.flushedSeq, "record of unflushed sequence number %llu: %s", (unsigned long long)q, st.toString().c_str());
            continue;
        }
        MC_CHECK(r.seqNum == q && sb2s(r.kv.key) == m->key && r.type == m->type && sb2s(r.meta) == m->meta &&
                     (m->type || sb2s(r.kv.value) == m->val),
                 "record of sequence number %llu is key '%s' value '%s' seq %llu type %d instead of key '%s' value '%s' type %d",
                 (unsigned long long)q, sb2s(r.kv.key).c_str(), sb2s(r.kv.value).c_str(), (unsigned long long)r.seqNum,
                 (int)r.type, m->key.c_str(), m->val.c_str(), m->type);
        KV kv; KV::Holder hk(kv);
        st = w.db->getSN(q, kv);
        if (m->type == Record::INSERTION)
            MC_CHECK(st.ok() && sb2s(kv.key) == m->key && sb2s(kv.value) == m->val,
                     "pair of sequence number %llu: %s '%s'='%s'", (unsigned long long)q, st.toString().c_str(),
                     sb2s(kv.key).c_str(), sb2s(kv.value).c_str());
        else
            MC_CHECK(!st.ok(), "deletion with sequence number %llu is returned as a pair", (unsigned long long)q);
    }
    w.checkGets(w.db, w.view());
}

// Numbers that are in use already or repeated must be refused, without any effect.
static void rejected(World& w, uint64_t seq, bool batch, uint64_t seq2 = 0) {
    if (!seq) throw Prune{};
    w.ctx.transitions++;
    w.universe.insert("d");
    Record r;
    r.kv.key = SizedBuf("d");
    r.kv.value = SizedBuf("stale");
    r.seqNum = seq;
    Record r2 = r;
    r2.kv.key = SizedBuf("e");
    r2.seqNum = seq2;
    if (seq2) w.universe.insert("e");
    Status s = seq2 ? w.db->setRecordBatch(std::list<Record>({r, r2}))
             : batch ? w.db->setRecordBatch(std::list<Record>({r})) : w.db->setRecord(r);
    w.ctx.note("%s d with used number %llu -> %s", batch ? "batch" : "set", (unsigned long long)seq, s.toString().c_str());
    MC_CHECK(!s.ok(), "sequence number %llu was accepted although it is in use or repeated", (unsigned long long)seq);
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P02", "model_checking",
                  "all operation sequences up to the stated depth, mixing automatic and explicit sequence numbers");
    Ops ops = {
        {"set a", [](World& w) { w.set("a"); }},
        {"setSN b +1", [](World& w) { w.put("b", w.nextVal("b"), "", 0, w.maxSeq + 1); }},
        {"setRecord a +3 meta", [](World& w) { w.put("a", w.nextVal("a"), "m" + std::to_string(w.maxSeq), 0, w.maxSeq + 3); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"delRecord b +2", [](World& w) { w.put("b", "", "", 1, w.maxSeq + 2); }},
        {"batch auto", [](World& w) {
            MRec a, b; a.key = "a"; a.val = w.nextVal("a"); b.key = "c"; b.val = w.nextVal("c"); w.batch({a, b}); }},
        {"batch +2,+5", [](World& w) {
            MRec a, b; a.key = "b"; a.val = w.nextVal("b"); a.seq = w.maxSeq + 2;
            b.key = "b"; b.type = 1; b.seq = w.maxSeq + 5; w.batch({a, b}); }},
        {"setSN d +0 (used)", [](World& w) { rejected(w, w.maxSeq, false); }},
        {"batch with used number", [](World& w) { rejected(w, w.maxSeq, true); }},
        {"batch +2,+2", [](World& w) { rejected(w, w.maxSeq + 2, true, w.maxSeq + 2); }},
        {"batch +2,auto", [](World& w) { rejected(w, w.maxSeq + 2, true, Record().seqNum); }},
        {"sync", [](World& w) { w.sync(); }},
        {"flush", [](World& w) { w.flush(); }},
        {"reopen", [](World& w) { w.reopen(); }},
    };
    int d = chk.thorough() ? 5 : 4;
    // deeper without the refused writes
    Ops plain(ops.begin(), ops.begin() + 7);
    plain.insert(plain.end(), ops.end() - 3, ops.end());
    for (int le : {16384, 2, 1})
        addSeqSpace(chk, "seq-l" + std::to_string(le), ops, d,
                    [=](World& w) { w.cfg = baseConfig(1, le); w.extraProbes = {"x"}; w.open(); }, verify);
    for (int le : {16384, 2, 1})
        addSeqSpace(chk, "deep-l" + std::to_string(le), plain, le == 2 || chk.thorough() ? d + 1 : d,
                    [=](World& w) { w.cfg = baseConfig(1, le); w.extraProbes = {"x"}; w.open(); }, verify);
    return chk.run();
}
