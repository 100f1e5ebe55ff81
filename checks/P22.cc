// BUILD: seq
#include "crash.h"
#include <algorithm>
using namespace crash;

// A database on disk with several log files, tables on two levels and backups.
static void fixture(World& w, int variant) {
    w.cfg = baseConfig(2, 3);
    // (Logs after a gap would be discarded by design with truncateInconsecutiveLogs.)
    if (variant == 1) { w.cfg.truncateInconsecutiveLogs = false; w.cfg.logSectionOnly = true; w.logOnly = true; }
    if (variant == 2) { w.cfg.directIoOpt.enabled = true; w.cfg.directIoOpt.bufferSize = 2048; w.cfg.directIoOpt.alignSize = 512; }
    w.open();
    for (auto k : {"a", "b", "c", "d"}) w.set(k);
    if (variant != 1) {
        w.syncFlush();
        w.compactL0All();
        w.put("b", "newb", "meta", Record::INSERTION);
        w.del("a");
        w.syncFlush();
    }
    w.set("c"); w.put("d", "dd", "m", Record::INSERTION); w.del("b"); w.set("e"); w.set("f");
    w.sync();
    w.close();
}

enum Kind { LOG_MANIFEST, TABLE_MANIFEST, DB_MANIFEST, BACKUP, LOG, TABLE, OTHER };
static Kind kindOf(const std::string& p) {
    std::string f = p.substr(p.rfind('/') + 1);
    if (f.size() > 4 && f.substr(f.size() - 4) == ".bak") return BACKUP;
    if (f == "log0000_manifest") return LOG_MANIFEST;
    if (f == "table0000_manifest") return TABLE_MANIFEST;
    if (f == "db_manifest") return DB_MANIFEST;
    if (f.compare(0, 7, "log0000") == 0) return LOG;
    if (f.compare(0, 9, "table0000") == 0) return TABLE;
    return OTHER;
}

static const int NMODE = 6;
static const char* modeName[NMODE] = {"bit 0 flipped", "bit 7 flipped", "zeroed", "set to ff", "truncated", "zeroed to the end"};
static bool damage(std::string& c, size_t pos, int mode) {
    std::string o = c;
    switch (mode) {
    case 0: c[pos] ^= 1; break;
    case 1: c[pos] ^= 0x80; break;
    case 2: c[pos] = 0; break;
    case 3: c[pos] = (char)0xff; break;
    case 4: c.resize(pos); break;
    case 5: std::fill(c.begin() + pos, c.end(), 0); break;
    }
    return o != c;
}

// Positions of the 8-byte flags in front of each entry of an intact log file: no checksum covers them (known finding).
static bool inEntryFlags(const std::string& c, size_t pos) {
    auto u32 = [&](size_t at) { return (uint64_t)(uint8_t)c[at] << 24 | (uint64_t)(uint8_t)c[at + 1] << 16 | (uint64_t)(uint8_t)c[at + 2] << 8 | (uint8_t)c[at + 3]; };
    size_t at = 12;
    while (at + 8 <= c.size()) {
        if (pos >= at && pos < at + 8) return true;
        uint8_t t = c[at];
        if (t == 0) {
            if (at + 36 > c.size()) break;
            at += 36 + u32(at + 20) + u32(at + 24) + u32(at + 28);
        } else break;
    }
    return false;
}

// No lookup or scan may show anything that was never written.
static void onlyHistory(World& w, DB* d, const std::string& what0, bool flags) {
    std::string what = flags ? "damaged entry flags of a log file were accepted: " + what0 : what0;
    auto known = [&](const MRec& m) {
        for (auto& h : w.hist) if (h.key == m.key && h.seq == m.seq && h.type == m.type && h.val == m.val && h.meta == m.meta) return true;
        return false;
    };
    for (auto& k : w.universe) {
        w.ctx.transitions++;
        Record r;
        Status s = d->getRecordByKey(SizedBuf(k), r);
        Record::Holder h(r);
        if (!s.ok()) continue;
        MRec m;
        m.key = sb2s(r.kv.key); m.val = sb2s(r.kv.value); m.meta = sb2s(r.meta); m.seq = r.seqNum; m.type = r.type;
        MC_CHECK(m.key == k && known(m), "%s: lookup of %s returned %s=%s meta=%s #%llu type %d, which was never written", what.c_str(), k.c_str(),
                 m.key.c_str(), m.val.c_str(), m.meta.c_str(), (unsigned long long)m.seq, m.type);
    }
    Iterator it;
    Status s = it.init(d);
    if (s.ok()) {
        std::string prev;
        int n = 0;
        do {
            Record r;
            s = it.get(r);
            if (!s.ok()) { break; }
            Record::Holder h(r);
            MRec m;
            m.key = sb2s(r.kv.key); m.val = sb2s(r.kv.value); m.meta = sb2s(r.meta); m.seq = r.seqNum; m.type = r.type;
            MC_CHECK(known(m), "%s: scan returned %s=%s meta=%s #%llu type %d, which was never written", what.c_str(),
                     m.key.c_str(), m.val.c_str(), m.meta.c_str(), (unsigned long long)m.seq, m.type);
            MC_CHECK(n == 0 || prev < m.key, "%s: scan is not in order", what.c_str());
            prev = m.key;
            MC_CHECK(++n < 100, "%s: scan does not end", what.c_str());
        } while (it.next().ok());
        it.close();
    }
}

// ---- damaged records inside table files ------------------------------------
struct DocAt { std::string file; size_t payload; std::string key; uint64_t seq; };
// Record payloads (metadata and value) of the table files, found through the block layout of the ForestDB stand-in.
static std::vector<DocAt> tableDocs(const simfs::Image& im) {
    std::vector<DocAt> out;
    for (auto& f : im.files) {
        if (kindOf(f.first) != TABLE) continue;
        const std::string& c = f.second;
        size_t at = 0;
        auto u32 = [&](size_t o) { uint32_t v; memcpy(&v, &c[o], 4); return v; };
        while (at + 48 <= c.size()) {
            uint32_t magic = u32(at);
            if (magic == 0xc0ffee02) { at += 48; continue; }
            if (magic != 0xd0c0d0c1) break;
            uint64_t seq;
            memcpy(&seq, &c[at + 8], 8);
            uint32_t kl = u32(at + 16), ml = u32(at + 20), bl = u32(at + 24);
            if (ml + bl) out.push_back(DocAt{f.first, at + 48 + kl, c.substr(at + 48, kl), seq});
            at += 48 + kl + ml + bl;
        }
    }
    return out;
}

// Every answer is the current record or an error that says so: never silence, never an older version.
static void rightOrError(World& w, DB* d, const std::string& what) {
    View v = w.view();
    auto same = [&](const MRec& m, const Record& r) {
        return m.key == sb2s(r.kv.key) && m.val == sb2s(r.kv.value) && m.meta == sb2s(r.meta) && m.seq == r.seqNum && m.type == (int)r.type;
    };
    for (auto& e : v) {
        for (int meta = 0; meta < 2; ++meta) {
            w.ctx.transitions++;
            Record r;
            Status s = d->getRecordByKey(SizedBuf(e.first), r, meta);
            Record::Holder h(r);
            w.ctx.observe((uint64_t)(int)s);
            if (s.ok()) {
                MC_CHECK(r.seqNum == e.second.seq && (int)r.type == e.second.type && sb2s(r.meta) == e.second.meta && (meta || sb2s(r.kv.value) == e.second.val),
                         "%s: lookup of %s returned #%llu %s instead of #%llu %s", what.c_str(), e.first.c_str(), (unsigned long long)r.seqNum,
                         sb2s(r.kv.value).c_str(), (unsigned long long)e.second.seq, e.second.val.c_str());
            } else {
                MC_CHECK(s != Status::KEY_NOT_FOUND || e.second.type != Record::INSERTION, "%s: lookup of %s returned KEY_NOT_FOUND, not an error", what.c_str(), e.first.c_str());
            }
        }
        for (auto opt : {SearchOptions::GREATER_OR_EQUAL, SearchOptions::SMALLER_OR_EQUAL, SearchOptions::GREATER, SearchOptions::SMALLER}) {
            w.ctx.transitions++;
            Record r;
            Status s = d->getNearestRecordByKey(SizedBuf(e.first), r, SearchOptions(opt));
            Record::Holder h(r);
            w.ctx.observe((uint64_t)(int)s);
            if (!s.ok() && s != Status::KEY_NOT_FOUND) continue;
            // (deleted keys count as records here)
            const MRec* exp = nullptr;
            SearchOptions so(opt);
            for (auto& x : v) {
                if (opt == SearchOptions::GREATER_OR_EQUAL && x.first >= e.first) { if (!exp) exp = &x.second; }
                if (opt == SearchOptions::GREATER && x.first > e.first) { if (!exp) exp = &x.second; }
                if (opt == SearchOptions::SMALLER_OR_EQUAL && x.first <= e.first) exp = &x.second;
                if (opt == SearchOptions::SMALLER && x.first < e.first) exp = &x.second;
            }
            (void)so;
            if (s.ok()) {
                MRec m;
                for (auto& x : v) if (x.first == sb2s(r.kv.key)) m = x.second;
                MC_CHECK(same(m, r), "%s: nearest search returned a record that is not current: %s #%llu", what.c_str(), sb2s(r.kv.key).c_str(), (unsigned long long)r.seqNum);
            } else {
                MC_CHECK(!exp || exp->type != Record::INSERTION, "%s: nearest search at %s returned KEY_NOT_FOUND, not an error", what.c_str(), e.first.c_str());
            }
        }
    }
    std::vector<MRec> live;
    for (auto& e : v) if (e.second.type == Record::INSERTION) live.push_back(e.second);
    // Scans: forward, backward, and from each key.
    for (int mode = 0; mode < 2 + 2 * (int)live.size(); ++mode) {
        w.ctx.transitions++;
        bool fwd = mode % 2 == 0;
        Iterator it;
        Status s = it.init(d);
        size_t pos = fwd ? 0 : live.size() - 1;
        if (s.ok() && mode == 1) s = it.gotoEnd();
        if (s.ok() && mode >= 2) {
            pos = (mode - 2) / 2;
            s = it.seek(SizedBuf(live[pos].key), fwd ? Iterator::GREATER : Iterator::SMALLER);
        }
        w.ctx.observe((uint64_t)(int)s);
        bool failed = !s.ok();
        while (!failed && !live.empty()) {
            Record r;
            s = it.get(r);
            Record::Holder h(r);
            if (!s.ok() && s != Status::KEY_NOT_FOUND) { failed = true; break; }
            MC_CHECK(s.ok(), "%s: scan (mode %d) returned KEY_NOT_FOUND instead of %s or an error", what.c_str(), mode, live[pos].key.c_str());
            MC_CHECK(same(live[pos], r), "%s: scan (mode %d) returned %s #%llu instead of %s #%llu", what.c_str(), mode, sb2s(r.kv.key).c_str(),
                     (unsigned long long)r.seqNum, live[pos].key.c_str(), (unsigned long long)live[pos].seq);
            Status n = fwd ? it.next() : it.prev();
            bool last = fwd ? pos + 1 == live.size() : pos == 0;
            if (!n.ok()) {
                if (n != Status::OUT_OF_RANGE) { failed = true; break; }
                MC_CHECK(last, "%s: scan (mode %d) ended at %s without an error", what.c_str(), mode, live[pos].key.c_str());
                break;
            }
            if (last) { Record r2; s = it.get(r2); Record::Holder h2(r2); MC_CHECK(!s.ok(), "%s: scan (mode %d) goes on beyond the last key", what.c_str(), mode); failed = true; break; }
            fwd ? ++pos : --pos;
        }
        it.close();
    }
    // By sequence number: the latest version of each key in order of its number.
    {
        w.ctx.transitions++;
        Iterator it;
        Status s = it.initSN(d);
        std::set<uint64_t> seen;
        bool failed = !s.ok();
        while (!failed) {
            Record r;
            s = it.get(r);
            Record::Holder h(r);
            if (!s.ok()) { failed = s != Status::KEY_NOT_FOUND; break; }
            seen.insert(r.seqNum);
            if (!it.next().ok()) break;
        }
        it.close();
        w.ctx.observe(failed);
        if (!failed) for (auto& m : live) MC_CHECK(seen.count(m.seq), "%s: scan by sequence number misses #%llu without an error", what.c_str(), (unsigned long long)m.seq);
    }
}

static const int MAXFILES = 16;
int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P22", "fault_enumeration",
                  "a closed database with every byte of every file damaged in six ways (bit flips, overwritten, truncated, zeroed tail), each file removed, and manifest with its backup damaged together");
    bool th = chk.thorough();
    for (int variant : {0, 1, 2}) {
        static const char* vn[] = {"", "-logonly", "-directio"};
        // Direct-I/O logs are padded: only sizes below the bound matter, tails are padding.
        const uint64_t MAXPOS = 1024;
        chk.add(std::string("bytes") + vn[variant], (uint64_t)MAXFILES * MAXPOS * NMODE, [=](uint64_t idx, mc::CaseCtx& ctx) {
            int mode = idx % NMODE;
            size_t pos = idx / NMODE % MAXPOS;
            int fi = idx / NMODE / MAXPOS;
            freshWorld();
            static simfs::Image base[3];
            static World* model[3];
            static mc::CaseCtx* mctx[3];
            if (!model[variant]) {
                mctx[variant] = new mc::CaseCtx();
                model[variant] = new World(*mctx[variant]);
                fixture(*model[variant], variant);
                base[variant] = simfs::snapshot();
            }
            World& m = *model[variant];
            freshWorld();
            simfs::Image im = base[variant];
            std::vector<std::string> names;
            for (auto& f : im.files) names.push_back(f.first);
            MC_CHECK(names.size() <= MAXFILES, "%zu files, space holds %d", names.size(), MAXFILES);
            if (fi >= (int)names.size()) { ctx.skipped = true; return; }
            std::string name = names[fi];
            Kind k = kindOf(name);
            std::string& c = im.files[name];
            MC_CHECK(k == LOG && variant == 2 || k == TABLE || c.size() <= MAXPOS, "file %s has %zu bytes, space holds %zu", name.c_str(), c.size(), (size_t)MAXPOS);
            if (pos >= c.size() || !damage(c, pos, mode)) { ctx.skipped = true; return; }
            if (!th && k == TABLE && mode != 0 && mode != 4) { ctx.skipped = true; return; }
            ctx.desc = mc::fmt("%s byte %zu of %zu %s", name.c_str(), pos, base[variant].files[name].size(), modeName[mode]);
            simfs::restore(im);
            World w(ctx);
            w.cfg = m.cfg; w.hist = m.hist; w.universe = m.universe; w.maxSeq = m.maxSeq; w.valCounter = 50;
            Status s = DB::open(&w.db, w.path, w.cfg);
            ctx.note("%s: open -> %s", ctx.desc.c_str(), s.toString().c_str());
            ctx.observe((uint64_t)(int)s);
            bool recoverable = k == LOG_MANIFEST || k == TABLE_MANIFEST || k == DB_MANIFEST || k == BACKUP;
            if (recoverable) {
                MC_CHECK(s.ok(), "with one manifest damaged, open returned %s (%s)", s.toString().c_str(), ctx.desc.c_str());
                View got = scanView(w, w.db);
                MC_CHECK(sameLive(got, m.view()), "with one manifest damaged, the content changed (%s)", ctx.desc.c_str());
                for (auto& e : got) ctx.observe(e.second.seq);
            }
            if (!s.ok()) { w.db = nullptr; return; }
            onlyHistory(w, w.db, ctx.desc, k == LOG && inEntryFlags(base[variant].files[name], pos));
            if (k == LOG) {
                // Whatever was lost, it is the end of the log: what the tables hold stays visible (or is superseded).
                for (auto& x : w.universe) {
                    Record r;
                    Status g = w.db->getRecordByKey(SizedBuf(x), r);
                    Record::Holder h(r);
                    ctx.observe((uint64_t)(int)g);
                    if (g.ok()) ctx.observe(r.seqNum);
                }
            }
            if (k == TABLE) return;
            // Still usable.
            Status ws = w.db->set(KV("zz", "new"));
            MC_CHECK(ws.ok(), "after damage, a write returned %s (%s)", ws.toString().c_str(), ctx.desc.c_str());
            ws = w.db->sync();
            MC_CHECK(ws.ok(), "after damage, sync returned %s (%s)", ws.toString().c_str(), ctx.desc.c_str());
            DB::close(w.db);
            w.db = nullptr;
            s = DB::open(&w.db, w.path, w.cfg);
            MC_CHECK(s.ok(), "after damage, a write and close, reopening returned %s (%s)", s.toString().c_str(), ctx.desc.c_str());
            SizedBuf out;
            s = w.db->get(SizedBuf("zz"), out);
            MC_CHECK(s.ok() && sb2s(out) == "new", "after damage, a new synced write is lost: %s (%s)", s.toString().c_str(), ctx.desc.c_str());
            out.free();
        }, []() { initEngine(); });
    }
    // Damaged records in tables, followed by each kind of maintenance.
    static const char* actName[] = {"nothing", "compaction of L0", "compaction of L1", "in-place compaction of L1", "split of L1", "merge of L1", "new writes and compaction of L0"};
    const int NACT = 7, MAXDOCS = 48;
    for (int variant : {0, 1}) {
        chk.add(variant ? "table-records-bloom" : "table-records", (uint64_t)NACT * MAXDOCS, [=](uint64_t idx, mc::CaseCtx& ctx) {
            int act = idx % NACT, di = idx / NACT;
            static simfs::Image base[2];
            static World* model[2];
            freshWorld();
            if (!model[variant]) {
                World& w = *(model[variant] = new World(*new mc::CaseCtx()));
                w.cfg = baseConfig(2, 16384);
                w.cfg.maxL1TableSize = 1; // boundaries: every few records a new table
                if (variant) { w.cfg.maxL1TableSize = 4096; w.cfg.bloomFilterBitsPerUnit = 10; } // the filter is sized by the table limit
                w.open();
                for (auto k : {"a", "b", "c", "d", "e", "f"}) w.set(k);
                w.syncFlush();
                w.compactL0All();
                w.put("b", "newb", "meta", Record::INSERTION);
                w.del("a"); w.set("c"); w.set("g");
                w.syncFlush();
                w.compactL0(0);
                w.put("b", "newb2", "meta", Record::INSERTION);
                w.del("d"); w.set("e");
                w.syncFlush();
                w.close();
                base[variant] = simfs::snapshot();
            }
            World& m = *model[variant];
            freshWorld();
            simfs::Image im = base[variant];
            std::vector<DocAt> docs = tableDocs(im);
            MC_CHECK(docs.size() >= 8 && docs.size() <= MAXDOCS, "%zu table records", docs.size());
            if (di >= (int)docs.size()) { ctx.skipped = true; return; }
            im.files[docs[di].file][docs[di].payload] ^= 1;
            ctx.desc = mc::fmt("record %s #%llu in %s damaged, then %s", docs[di].key.c_str(), (unsigned long long)docs[di].seq, docs[di].file.c_str(), actName[act]);
            simfs::restore(im);
            World w(ctx);
            w.cfg = m.cfg; w.hist = m.hist; w.universe = m.universe; w.maxSeq = m.maxSeq; w.valCounter = 50;
            Status s = DB::open(&w.db, w.path, w.cfg);
            ctx.observe((uint64_t)(int)s);
            if (!s.ok()) { w.db = nullptr; return; }
            rightOrError(w, w.db, ctx.desc);
            switch (act) {
            case 1: w.compactL0All(); break;
            case 2: w.compactLevel(1); w.compactLevel(1); break;
            case 3: w.compactInplace(1); w.compactInplace(1); break;
            case 4: w.split(1); break;
            case 5: w.merge(1); break;
            case 6: w.set("b"); w.set("h"); w.sync(); w.db->flushLogs(); w.compactL0All(); break;
            }
            ctx.note("after %s", actName[act]);
            rightOrError(w, w.db, ctx.desc + ", done");
            DB::close(w.db);
            w.db = nullptr;
            s = DB::open(&w.db, w.path, w.cfg);
            ctx.observe((uint64_t)(int)s);
            if (!s.ok()) { w.db = nullptr; return; }
            rightOrError(w, w.db, ctx.desc + ", reopened");
        }, []() { initEngine(); });
    }
    return chk.run();
}
