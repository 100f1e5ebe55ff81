#include "dbh.h"
#include "db_mgr.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>

namespace dbh {

static GlobalConfig g_cfg;
const GlobalConfig& gcfg() { return g_cfg; }

std::string sb2s(const SizedBuf& b) { return std::string((const char*)b.data, b.size); }

void freshWorld() {
    // Files queued for removal belong to the previous world.
    if (auto* m = DBMgr::getWithoutInit()) {
        std::string f;
        while (m->popFileToRemove(f).ok()) {}
    }
    simfs::reset();
    simrt::reset();
    fdbsim_reset();
}

void initEngine() {
    GlobalConfig g;
    g.globalLogPath = "/sim";
    g.numFlusherThreads = 0;
    g.numCompactorThreads = 0;
    g.numTableWriters = 0;
    g.fdbCacheSize = 0;
    g.shutdownLogger = false;
    initEngine(g);
}
void initEngine(const GlobalConfig& g) {
    freshWorld();
    g_cfg = g;
    jungle::init(g);
}

DBConfig baseConfig(int partitions, int logEntries) {
    DBConfig c;
    c.numL0Partitions = partitions;
    c.maxEntriesInLogFile = logEntries;
    c.allowLogging = false;
    c.minFileSizeToCompact = 1;
    c.minNumTablesPerLevel = 2;
    c.numExpectedUserThreads = 1;
    c.lookupBoosterLimit_mb = {0, 0};   // has a check of its own
    c.maxParallelWritesPerJob = 1;
    return c;
}

World::~World() {
    // Only reached without a violation (or while unwinding towards _exit).
    for (auto& s : snaps)
        if (s.db) DB::close(s.db);
    snaps.clear();
    if (db) DB::close(db);
    db = nullptr;
}

void World::open() {
    ctx.transitions++;
    Status s = DB::open(&db, path, cfg);
    ctx.note("open -> %s", s.toString().c_str());
    MC_CHECK(s.ok(), "open returned %s", s.toString().c_str());
}
void World::close() {
    ctx.transitions++;
    while (!snaps.empty()) closeSnap(0);
    Status s = DB::close(db);
    db = nullptr;
    ctx.note("close -> %s", s.toString().c_str());
    MC_CHECK(s.ok(), "close returned %s", s.toString().c_str());
    // A proper close writes out everything.
    syncedSeq = durableSeq = maxSeq;
    extra["nofsync"] = 0;
}

std::string World::nextVal(const std::string& k) {
    return "v" + std::to_string(++valCounter) + "_" + k;
}
void World::put(const std::string& k, const std::string& v, const std::string& meta, int type,
                uint64_t seq) {
    ctx.transitions++;
    Record r;
    r.kv.key = SizedBuf(k);
    r.kv.value = SizedBuf(v);
    r.meta = SizedBuf(meta);
    r.type = (Record::Type)type;
    Status s;
    if (seq) {
        r.seqNum = seq;
        s = type == Record::DELETION ? db->delRecord(r) : db->setRecord(r);
    } else {
        s = type == Record::DELETION ? db->delRecord(r) : db->setRecordByKey(r);
    }
    ctx.note("put key=%s val=%s meta=%s type=%d seq=%llu -> %s", k.c_str(), v.c_str(), meta.c_str(),
             type, (unsigned long long)seq, s.toString().c_str());
    MC_CHECK(s.ok(), "write of key %s returned %s", k.c_str(), s.toString().c_str());
    MRec m;
    m.seq = seq ? seq : maxSeq + 1;
    m.type = type;
    m.key = k;
    m.val = type == Record::DELETION ? "" : v;
    m.meta = meta;
    maxSeq = std::max(maxSeq, m.seq);
    hist.push_back(m);
    universe.insert(k);
}
void World::setv(const std::string& k, const std::string& v) {
    ctx.transitions++;
    Status s = db->set(KV(k, v));
    ctx.note("set %s=%s -> %s", k.c_str(), v.c_str(), s.toString().c_str());
    MC_CHECK(s.ok(), "set(%s) returned %s", k.c_str(), s.toString().c_str());
    MRec m;
    m.seq = ++maxSeq;
    m.key = k;
    m.val = v;
    hist.push_back(m);
    universe.insert(k);
}
void World::set(const std::string& k) { setv(k, nextVal(k)); }
void World::del(const std::string& k) {
    ctx.transitions++;
    Status s = db->del(SizedBuf(k));
    ctx.note("del %s -> %s", k.c_str(), s.toString().c_str());
    MC_CHECK(s.ok(), "del(%s) returned %s", k.c_str(), s.toString().c_str());
    MRec m;
    m.seq = ++maxSeq;
    m.type = Record::DELETION;
    m.key = k;
    hist.push_back(m);
    universe.insert(k);
}
void World::batch(const std::vector<MRec>& recs) {
    ctx.transitions++;
    std::list<Record> l;
    for (auto& m : recs) {
        Record r;
        r.kv.key = SizedBuf(m.key);
        r.kv.value = SizedBuf(m.val);
        r.meta = SizedBuf(m.meta);
        r.type = (Record::Type)m.type;
        if (m.seq) r.seqNum = m.seq;
        l.push_back(r);
    }
    Status s = db->setRecordBatch(l);
    ctx.note("batch of %zu -> %s", recs.size(), s.toString().c_str());
    MC_CHECK(s.ok(), "setRecordBatch returned %s", s.toString().c_str());
    for (auto m : recs) {
        if (!m.seq) m.seq = maxSeq + 1;
        maxSeq = m.seq;
        if (m.type == Record::DELETION) m.val = "";
        hist.push_back(m);
        universe.insert(m.key);
    }
}
void World::sync(bool fsync) {
    ctx.transitions++;
    Status s = db->sync(fsync);
    ctx.note("sync(%d) -> %s", fsync, s.toString().c_str());
    MC_CHECK(s.ok() || hist.empty(), "sync returned %s", s.toString().c_str());
    syncedSeq = maxSeq;
    if (fsync) durableSeq = maxSeq;
    extra["nofsync"] = !fsync;
}
int World::flush(FlushOptions o, uint64_t upto) {
    ctx.transitions++;
    Status s = db->flushLogs(o, upto);
    ctx.note("flush(beyond=%d purge=%d upto=%lld) -> %s", o.beyondLastSync, o.purgeOnly,
             (long long)upto, s.toString().c_str());
    if (s.ok()) {
        uint64_t u = std::min(upto, o.beyondLastSync ? maxSeq : syncedSeq);
        flushedSeq = std::max(flushedSeq, u);
        durableSeq = std::max(durableSeq, u);
    }
    return s;
}
uint64_t World::checkpoint() {
    ctx.transitions++;
    uint64_t c = 0;
    Status s = db->checkpoint(c);
    ctx.note("checkpoint -> %s, %llu", s.toString().c_str(), (unsigned long long)c);
    if (s.ok()) {
        MC_CHECK(c == maxSeq, "checkpoint number is %llu, last sequence number is %llu",
                 (unsigned long long)c, (unsigned long long)maxSeq);
        syncedSeq = durableSeq = maxSeq;
        extra["nofsync"] = 0;
        if (std::find(chks.begin(), chks.end(), c) == chks.end()) chks.push_back(c);
    }
    return s.ok() ? c : 0;
}
int World::compactL0(int part, CompactOptions o) {
    ctx.transitions++;
    Status s = db->compactL0(o, part);
    ctx.note("compactL0(%d) -> %s", part, s.toString().c_str());
    return s;
}
void World::compactL0All(CompactOptions o) {
    for (uint32_t i = 0; i < cfg.numL0Partitions; ++i) compactL0(i, o);
}
int World::compactLevel(size_t lv, CompactOptions o) {
    ctx.transitions++;
    Status s = db->compactLevel(o, lv);
    ctx.note("compactLevel(%zu) -> %s", lv, s.toString().c_str());
    return s;
}
int World::compactInplace(size_t lv, CompactOptions o) {
    ctx.transitions++;
    Status s = db->compactInplace(o, lv);
    ctx.note("compactInplace(%zu) -> %s", lv, s.toString().c_str());
    return s;
}
int World::split(size_t lv) {
    ctx.transitions++;
    Status s = db->splitLevel(CompactOptions(), lv);
    ctx.note("splitLevel(%zu) -> %s", lv, s.toString().c_str());
    return s;
}
int World::merge(size_t lv) {
    ctx.transitions++;
    Status s = db->mergeLevel(CompactOptions(), lv);
    ctx.note("mergeLevel(%zu) -> %s", lv, s.toString().c_str());
    return s;
}
void World::openSnap(uint64_t chk) {
    ctx.transitions++;
    Snap sn;
    Status s = db->openSnapshot(&sn.db, chk);
    ctx.note("openSnapshot(%llu) -> %s", (unsigned long long)chk, s.toString().c_str());
    if (!chk) MC_CHECK(s.ok(), "openSnapshot(latest) returned %s", s.toString().c_str());
    else MC_CHECK(s.ok(), "openSnapshot of kept checkpoint returned %s", s.toString().c_str());
    sn.chk = chk;
    sn.upto = chk ? chk : maxSeq;
    sn.view = viewAt(sn.upto);
    snaps.push_back(sn);
}
void World::closeSnap(size_t i) {
    ctx.transitions++;
    if (i >= snaps.size()) return;
    Status s = DB::close(snaps[i].db);
    ctx.note("close snapshot -> %s", s.toString().c_str());
    snaps.erase(snaps.begin() + i);
    MC_CHECK(s.ok(), "closing a snapshot returned %s", s.toString().c_str());
}

View World::viewAt(uint64_t seq) const {
    View v;
    for (auto& m : hist) {
        if (m.seq > seq || (logOnly && m.seq <= flushedSeq)) continue;
        auto e = v.find(m.key);
        if (e == v.end() || e->second.seq <= m.seq) v[m.key] = m;
    }
    return v;
}

std::vector<std::string> World::sortedLive(const View& v) const {
    std::vector<std::string> ks;
    for (auto& e : v)
        if (e.second.type == Record::INSERTION) ks.push_back(e.first);
    std::sort(ks.begin(), ks.end(), less);
    return ks;
}

static void sameRec(const Record& r, const MRec& m, bool val, const char* what, const char* how) {
    MC_CHECK(sb2s(r.kv.key) == m.key, "%s: %s returned key '%s' instead of '%s'", what, how,
             sb2s(r.kv.key).c_str(), m.key.c_str());
    MC_CHECK(r.type == m.type, "%s: %s key '%s' has type %d instead of %d", what, how,
             m.key.c_str(), (int)r.type, m.type);
    if (val)
        MC_CHECK(sb2s(r.kv.value) == m.val, "%s: %s key '%s' has value '%s' instead of '%s'", what,
                 how, m.key.c_str(), sb2s(r.kv.value).c_str(), m.val.c_str());
    MC_CHECK(sb2s(r.meta) == m.meta, "%s: %s key '%s' has metadata '%s' instead of '%s'", what, how,
             m.key.c_str(), sb2s(r.meta).c_str(), m.meta.c_str());
    MC_CHECK(r.seqNum == m.seq, "%s: %s key '%s' has sequence number %llu instead of %llu", what,
             how, m.key.c_str(), (unsigned long long)r.seqNum, (unsigned long long)m.seq);
}

void World::checkGets(DB* d, const View& v, const char* what) {
    std::set<std::string> probes = universe;
    for (auto& p : extraProbes) probes.insert(p);
    for (auto& k : probes) {
        ctx.transitions++;
        auto e = v.find(k);
        bool live = e != v.end() && e->second.type == Record::INSERTION;
        {
            SizedBuf out;
            SizedBuf::Holder h(out);
            Status s = d->get(SizedBuf(k), out);
            ctx.note("%s: get %s -> %s %s", what, k.c_str(), s.toString().c_str(), sb2s(out).c_str());
            if (live) {
                MC_CHECK(s.ok(), "%s: get of existing key '%s' returned %s", what, k.c_str(),
                         s.toString().c_str());
                MC_CHECK(sb2s(out) == e->second.val, "%s: get of key '%s' returned '%s' instead of '%s'",
                         what, k.c_str(), sb2s(out).c_str(), e->second.val.c_str());
            } else {
                MC_CHECK(!s.ok(), "%s: get of %s key '%s' returned value '%s'", what,
                         e == v.end() ? "never written" : "deleted", k.c_str(), sb2s(out).c_str());
                MC_CHECK(s == Status::KEY_NOT_FOUND, "%s: get of absent key '%s' returned %s", what,
                         k.c_str(), s.toString().c_str());
            }
        }
        for (int mo = 0; mo < 2; ++mo) {
            Record r;
            Record::Holder h(r);
            Status s = d->getRecordByKey(SizedBuf(k), r, mo);
            if (live) {
                MC_CHECK(s.ok(), "%s: record lookup of existing key '%s' returned %s", what, k.c_str(),
                         s.toString().c_str());
                sameRec(r, e->second, !mo, what, "record lookup of");
            } else if (!mo || e == v.end()) {
                MC_CHECK(!s.ok(), "%s: record lookup of absent key '%s' returned a record", what,
                         k.c_str());
            } else if (s.ok()) {
                // A tombstone may be returned until it is compacted away.
                sameRec(r, e->second, false, what, "metadata lookup of");
            }
        }
    }
}

std::vector<MRec> World::scan(DB* d, bool forward, const std::string& st, const std::string& en) {
    std::vector<MRec> out;
    Iterator it;
    ctx.transitions++;
    Status s = it.init(d, st.empty() ? SizedBuf() : SizedBuf(st), en.empty() ? SizedBuf() : SizedBuf(en));
    MC_CHECK(s.ok(), "iterator init returned %s", s.toString().c_str());
    if (!forward) it.gotoEnd();
    for (int n = 0; n < 10000; ++n) {
        Record r;
        Record::Holder h(r);
        s = it.get(r);
        if (!s.ok()) {
            MC_CHECK(s == Status::KEY_NOT_FOUND, "iterator get returned %s", s.toString().c_str());
            break;
        }
        MRec m;
        m.key = sb2s(r.kv.key);
        m.val = sb2s(r.kv.value);
        m.meta = sb2s(r.meta);
        m.seq = r.seqNum;
        m.type = r.type;
        out.push_back(m);
        s = forward ? it.next() : it.prev();
        if (!s.ok()) break;
    }
    it.close();
    return out;
}

static std::string keysOf(const std::vector<MRec>& v) {
    std::string s;
    for (auto& m : v) s += m.key + "#" + std::to_string(m.seq) + " ";
    return s;
}

void World::checkKeyIterRange(DB* d, const View& v, const std::string& st, const std::string& en,
                              const char* what) {
    std::vector<std::string> keys = sortedLive(v), exp;
    for (auto& k : keys)
        if ((st.empty() || !less(k, st)) && (en.empty() || !less(en, k))) exp.push_back(k);
    for (int fwd = 1; fwd >= 0; --fwd) {
        std::vector<MRec> got = scan(d, fwd, st, en);
        std::vector<std::string> e = exp;
        if (!fwd) std::reverse(e.begin(), e.end());
        bool same = got.size() == e.size();
        for (size_t i = 0; same && i < e.size(); ++i) same = got[i].key == e[i];
        if (!same) {
            std::string es;
            for (auto& k : e) es += k + " ";
            MC_CHECK(false, "%s: %s key iteration of [%s,%s] yields { %s} instead of { %s}", what,
                     fwd ? "forward" : "backward", st.c_str(), en.c_str(), keysOf(got).c_str(), es.c_str());
        }
        for (auto& m : got) {
            const MRec& x = v.at(m.key);
            MC_CHECK(m.val == x.val && m.meta == x.meta && m.seq == x.seq && m.type == x.type,
                     "%s: iterator returned value '%s' seq %llu for key '%s' instead of '%s' seq %llu", what,
                     m.val.c_str(), (unsigned long long)m.seq, m.key.c_str(), x.val.c_str(),
                     (unsigned long long)x.seq);
        }
    }
}

void World::checkKeyIter(DB* d, const View& v, const char* what) {
    checkKeyIterRange(d, v, "", "", what);
    std::vector<std::string> keys = sortedLive(v);
    // Seeks.
    std::set<std::string> probes = universe;
    for (auto& p : extraProbes) probes.insert(p);
    Iterator it;
    OKS(it.init(d));
    for (auto& k : probes) {
        for (int sm = 0; sm < 2; ++sm) {
            ctx.transitions++;
            Status s = it.seek(SizedBuf(k), sm ? Iterator::SMALLER : Iterator::GREATER);
            int pos = -1;
            for (int i = 0; i < (int)keys.size(); ++i) {
                if (!sm && !less(keys[i], k)) { pos = i; break; }
                if (sm && !less(k, keys[i])) pos = i;
            }
            if (pos < 0) continue;       // nothing on that side: position unspecified
            MC_CHECK(s.ok(), "%s: iterator seek returned %s", what, s.toString().c_str());
            Record r;
            Record::Holder h(r);
            s = it.get(r);
            MC_CHECK(s.ok(), "%s: iterator seek %s '%s' found nothing, '%s' exists", what,
                     sm ? "<=" : ">=", k.c_str(), keys[pos].c_str());
            sameRec(r, v.at(keys[pos]), true, what, sm ? "iterator seek <=" : "iterator seek >=");
            // one step further, and one back
            int dir = sm ? -1 : 1;
            for (int step = 0; step < 2; ++step) {
                int np = pos + (step ? -dir : dir);
                if (step && (pos + dir < 0 || pos + dir >= (int)keys.size())) break;
                if (step) np = pos;
                s = (step ? -dir : dir) > 0 ? it.next() : it.prev();
                bool ok = np >= 0 && np < (int)keys.size();
                MC_CHECK(s.ok() == ok, "%s: iterator step from '%s' after seek '%s' returned %s", what,
                         keys[pos].c_str(), k.c_str(), s.toString().c_str());
                if (!ok) break;
                Record r2;
                Record::Holder h2(r2);
                s = it.get(r2);
                MC_CHECK(s.ok(), "%s: iterator get after step returned %s", what, s.toString().c_str());
                sameRec(r2, v.at(keys[np]), true, what, "iterator step to");
            }
        }
    }
    it.close();
}

void World::checkNearest(DB* d, const View& v, const char* what) {
    std::vector<std::string> keys;
    for (auto& e : v) keys.push_back(e.first);
    std::sort(keys.begin(), keys.end(), less);
    std::set<std::string> probes = universe;
    for (auto& p : extraProbes) probes.insert(p);
    static const SearchOptions::Options os[] = {SearchOptions::GREATER_OR_EQUAL, SearchOptions::GREATER,
                                                SearchOptions::SMALLER_OR_EQUAL, SearchOptions::SMALLER};
    static const char* on[] = {">=", ">", "<=", "<"};
    for (auto& k : probes)
        for (int oi = 0; oi < 4; ++oi) {
            ctx.transitions++;
            // Tombstones may or may not be physically present: the answer is the
            // nearest key among live ones, or a tombstone nearer than that.
            std::vector<const MRec*> ok;
            bool live = false;
            auto in = [&](const std::string& x) {
                if (oi == 0) return !less(x, k);
                if (oi == 1) return less(k, x);
                if (oi == 2) return !less(k, x);
                return less(x, k);
            };
            if (oi < 2) {
                for (auto& x : keys)
                    if (in(x)) {
                        ok.push_back(&v.at(x));
                        if (v.at(x).type == Record::INSERTION) { live = true; break; }
                    }
            } else {
                for (auto it = keys.rbegin(); it != keys.rend(); ++it)
                    if (in(*it)) {
                        ok.push_back(&v.at(*it));
                        if (v.at(*it).type == Record::INSERTION) { live = true; break; }
                    }
            }
            Record r;
            Record::Holder h(r);
            Status s = d->getNearestRecordByKey(SizedBuf(k), r, os[oi]);
            ctx.note("%s: nearest %s '%s' -> %s '%s'", what, on[oi], k.c_str(), s.toString().c_str(),
                     s.ok() ? sb2s(r.kv.key).c_str() : "");
            if (!s.ok()) {
                MC_CHECK(!live, "%s: nearest search %s '%s' returned %s although '%s' exists", what, on[oi],
                         k.c_str(), s.toString().c_str(), ok.back()->key.c_str());
                continue;
            }
            bool found = false;
            for (auto* m : ok)
                if (m->key == sb2s(r.kv.key)) {
                    found = true;
                    sameRec(r, *m, m->type == Record::INSERTION, what, "nearest search:");
                }
            MC_CHECK(found, "%s: nearest search %s '%s' returned key '%s', expected '%s'", what, on[oi],
                     k.c_str(), sb2s(r.kv.key).c_str(), ok.empty() ? "(none)" : ok.back()->key.c_str());
        }
}

void World::checkPrefix(DB* d, const View& v, const char* what) {
    std::set<std::string> prefixes;
    std::set<std::string> probes = universe;
    for (auto& p : extraProbes) probes.insert(p);
    for (auto& k : probes)
        for (size_t l = 1; l <= k.size(); ++l) prefixes.insert(k.substr(0, l));
    for (auto& p : prefixes) {
        ctx.transitions++;
        std::map<std::string, MRec> got;
        std::string dup;
        Status s = d->getRecordsByPrefix(SizedBuf(p), [&](const SearchCbParams& prm) {
            MRec m;
            m.key = sb2s(prm.rec.kv.key);
            m.val = sb2s(prm.rec.kv.value);
            m.meta = sb2s(prm.rec.meta);
            m.seq = prm.rec.seqNum;
            m.type = prm.rec.type;
            ctx.note("   prefix '%s': %s seq %llu type %d", p.c_str(), m.key.c_str(),
                     (unsigned long long)m.seq, m.type);
            auto e = got.find(m.key);
            if (e == got.end()) got[m.key] = m;
            return NEXT;
        });
        ctx.note("%s: prefix '%s' -> %s", what, p.c_str(), s.toString().c_str());
        for (auto& e : v) {
            if (e.first.compare(0, p.size(), p)) continue;
            auto g = got.find(e.first);
            if (e.second.type == Record::INSERTION) {
                MC_CHECK(g != got.end(), "%s: prefix search '%s' misses key '%s' (%s)", what, p.c_str(),
                         e.first.c_str(), s.toString().c_str());
            }
            if (g != got.end()) {
                const MRec& m = e.second;
                const MRec& x = g->second;
                MC_CHECK(x.seq == m.seq && x.type == m.type && (m.type || (x.val == m.val && x.meta == m.meta)),
                         "%s: prefix search '%s' returned key '%s' seq %llu value '%s' first, expected seq %llu '%s'",
                         what, p.c_str(), m.key.c_str(), (unsigned long long)x.seq, x.val.c_str(),
                         (unsigned long long)m.seq, m.val.c_str());
            }
        }
        for (auto& g : got) {
            MC_CHECK(g.first.compare(0, p.size(), p) == 0, "%s: prefix search '%s' returned key '%s'", what,
                     p.c_str(), g.first.c_str());
            MC_CHECK(v.count(g.first), "%s: prefix search '%s' returned unknown key '%s'", what, p.c_str(),
                     g.first.c_str());
        }
    }
}

void World::checkSeqNums() {
    uint64_t m = 0;
    Status s = db->getMaxSeqNum(m);
    if (hist.empty()) return;
    MC_CHECK(s.ok(), "getMaxSeqNum returned %s", s.toString().c_str());
    MC_CHECK(m == maxSeq, "maximum sequence number is %llu instead of %llu", (unsigned long long)m,
             (unsigned long long)maxSeq);
}

void World::checkSnaps(bool deep) {
    for (size_t i = 0; i < snaps.size(); ++i) {
        std::string w = "snapshot " + std::to_string(i) + " (upto " + std::to_string(snaps[i].upto) + ")";
        checkGets(snaps[i].db, snaps[i].view, w.c_str());
        if (deep) checkKeyIter(snaps[i].db, snaps[i].view, w.c_str());
        else checkKeyIterRange(snaps[i].db, snaps[i].view, "", "", w.c_str());
    }
}

void World::checkAll(bool deep) {
    View v = view();
    checkGets(db, v);
    if (deep) checkKeyIter(db, v); else checkKeyIterRange(db, v, "", "");
    checkSeqNums();
    checkSnaps(deep);
}

void World::observeState() {
    for (auto& e : view()) {
        ctx.observe(e.first);
        ctx.observe(e.second.val);
        ctx.observe(e.second.seq);
    }
    ctx.observe(syncedSeq);
    for (auto& f : simfs::list(path)) {
        ctx.observe(f);
        ctx.observe((uint64_t)simfs::content(f).size());
    }
    for (auto& s : snaps) ctx.observe(s.upto);
    ctx.state();
}

void addSeqSpace(mc::Check& chk, const std::string& name, const Ops& ops, int maxLen,
                 std::function<void(World&)> setup, std::function<void(World&)> verify, int minLen,
                 std::function<bool(const std::vector<int>&)> keep) {
    uint64_t n = mc::seqCount(ops.size(), maxLen, minLen);
    chk.add(name, n, [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::vector<int> seq = mc::seqDecode(idx, ops.size(), maxLen, minLen);
        if (keep && !keep(seq)) { ctx.skipped = true; return; }
        for (int i : seq) ctx.desc += (ctx.desc.empty() ? "" : ", ") + ops[i].name;
        freshWorld();
        World w(ctx);
        try {
            setup(w);
            for (size_t i = 0; i < seq.size(); ++i) {
                ctx.note("-- %s", ops[seq[i]].name.c_str());
                ops[seq[i]].fn(w);
            }
            w.observeState();
            verify(w);
        } catch (Prune&) {
            ctx.skipped = true;
        }
    }, []() { initEngine(); });
}

} // namespace dbh
