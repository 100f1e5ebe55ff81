// BUILD: pseq
#include "crash.h"
#include <string.h>
using namespace crash;

// Pluggable value compression: whatever the callbacks answer, every value comes back as it was written.

// A dictionary codec.  The first letter of a value picks the answer; every output is registered, and the
// decompressor accepts nothing else.
static std::map<std::string, std::string> g_dict;      // compressed -> original
static uint64_t g_calls = 0;                           // decompressions so far
static uint64_t g_failFrom = 0, g_failTo = 0;          // these decompressions fail (1-based, inclusive)
static int g_failHow = 0;
static std::set<std::string> g_written;                // values handed to the database
static std::string g_error;                            // callbacks must not throw through the library

static void bad(const std::string& s) { if (g_error.empty()) g_error = s; }
static std::string codec(const std::string& v) {
    if (v.empty()) return "e";
    char m = v[0];
    std::string id = mc::fmt("%zx.", std::hash<std::string>()(v) & 0xffffff);
    if (m == 'S') return id;                                               // shrinks
    if (m == 'Q') return v;                                                // as large as before
    if (m == 'X') return id + v + v + std::string(100, '\0');              // grows
    if (m == 'B') return id + v + std::string(4200, '\xff');               // exceeds the buffers on the stack
    return "";                                                             // cancelled
}
static ssize_t maxSize(DB*, const Record& r) {
    std::string v = sb2s(r.kv.value);
    if (!g_written.count(v)) bad("asked about a value that was never written");
    if (r.type == Record::DELETION) bad("asked about a deletion");
    if (v[0] == 'N') return 0;
    if (v[0] == 'M') return -3;
    if (v[0] == 'H') return 100000;
    std::string c = codec(v);
    return std::max<ssize_t>(c.size(), 1);
}
static ssize_t compress(DB*, const Record& r, SizedBuf& out) {
    std::string v = sb2s(r.kv.value);
    if (!g_written.count(v)) bad("asked to compress a value that was never written");
    if (v[0] == 'N' || v[0] == 'M') bad("asked to compress a value that should not be compressed");
    if (v[0] == 'E') return -5;
    std::string c = codec(v);
    if (out.size < c.size()) { bad(mc::fmt("output buffer of %u bytes is smaller than the requested %zu", out.size, c.size())); return -1; }
    memcpy(out.data, c.data(), c.size());
    if (!c.empty()) g_dict[c] = v;
    return c.size();
}
static ssize_t decompress(DB*, const SizedBuf& in, SizedBuf& out) {
    ++g_calls;
    if (g_calls >= g_failFrom && g_calls <= g_failTo) return g_failHow == 0 ? -1 : g_failHow == 1 ? 0 : (ssize_t)out.size + 1;
    auto e = g_dict.find(sb2s(in));
    if (e == g_dict.end()) { bad("asked to decompress bytes that no compression produced"); return -1; }
    if (out.size != e->second.size()) { bad(mc::fmt("output buffer of %u bytes for an original of %zu", out.size, e->second.size())); return -1; }
    memcpy(out.data, e->second.data(), out.size);
    return out.size;
}
static void none(DBConfig& c) { c.compOpt = DBConfig::CompressionOptions(); }
static void readOnlyCodec(DBConfig& c) { none(c); c.compOpt.cbDecompress = decompress; }
static void full(DBConfig& c) { c.compOpt.cbGetMaxSize = maxSize; c.compOpt.cbCompress = compress; c.compOpt.cbDecompress = decompress; }

static void resetCodec() { g_dict.clear(); g_written.clear(); g_error.clear(); g_calls = g_failFrom = g_failTo = 0; }
static void write(World& w, const std::string& k, char mode, size_t len = 0) {
    std::string v;
    if (mode) {
        v = std::string(1, mode) + w.nextVal(k);
        if (len) v.resize(len, 'z');
    }
    g_written.insert(v);
    w.put(k, v, mode == 'Q' ? "meta" : "", Record::INSERTION);
}
static void clean() { MC_CHECK(g_error.empty(), "compression callback %s", g_error.c_str()); }
static void verify(World& w) {
    clean();
    w.checkAll(true);
    w.checkPrefix(w.db, w.view());
    w.checkNearest(w.db, w.view());
    clean();
}
static void reopenAs(World& w, void (*f)(DBConfig&)) {
    w.close();
    f(w.cfg);
    w.open();
}

// With failing decompressions: an answer is right or an error; nothing hangs.  Returns the errors seen.
static int tolerant(World& w) {
    View v = w.view();
    int errors = 0;
    for (auto& k : w.universe) {
        w.ctx.transitions++;
        auto e = v.find(k);
        bool live = e != v.end() && e->second.type == Record::INSERTION;
        SizedBuf out;
        SizedBuf::Holder h(out);
        Status s = w.db->get(SizedBuf(k), out);
        w.ctx.note("get %s -> %s", k.c_str(), s.toString().c_str());
        if (s.ok()) MC_CHECK(live && sb2s(out) == e->second.val, "get of key '%s' returned '%s' while decompression fails", k.c_str(), sb2s(out).c_str());
        else if (live) {
            ++errors;
            MC_CHECK(s != Status::KEY_NOT_FOUND, "get of existing key '%s' reports it missing when its decompression fails", k.c_str());
        }
        int n = 0;
        w.db->getRecordsByPrefix(SizedBuf(k.substr(0, 1)), [&](const SearchCbParams& p) {
            auto e = v.find(sb2s(p.rec.kv.key));
            MC_CHECK(e != v.end(), "prefix search returned unknown key '%s'", sb2s(p.rec.kv.key).c_str());
            if (p.rec.seqNum == e->second.seq) MC_CHECK(e->second.type || sb2s(p.rec.kv.value) == e->second.val, "prefix search returned '%s' for key '%s' while decompression fails", sb2s(p.rec.kv.value).c_str(), e->first.c_str());
            MC_CHECK(++n < 100, "prefix search does not end");
            return NEXT;
        });
        for (SearchOptions o : {SearchOptions::GREATER_OR_EQUAL, SearchOptions::SMALLER}) {
            bool up = o == SearchOptions::GREATER_OR_EQUAL;
            const MRec* want = nullptr;            // the nearest live record; a nearer tombstone may be returned as well
            std::set<uint64_t> dead;
            auto look = [&](const MRec& x) {
                if (want) return;
                if (x.type == Record::INSERTION) want = &x; else dead.insert(x.seq);
            };
            if (up) for (auto x = v.lower_bound(k); x != v.end(); ++x) look(x->second);
            else for (auto x = v.lower_bound(k); x != v.begin();) look((--x)->second);
            Record r;
            Record::Holder hr(r);
            Status s = w.db->getNearestRecordByKey(SizedBuf(k), r, o);
            if (s.ok()) MC_CHECK(dead.count(r.seqNum) || (want && want->seq == r.seqNum && want->val == sb2s(r.kv.value)), "nearest search (%s) from key '%s' returned key '%s' with '%s' while decompression fails", up ? ">=" : "<", k.c_str(), sb2s(r.kv.key).c_str(), sb2s(r.kv.value).c_str());
            else if (want) {
                ++errors;
                MC_CHECK(s != Status::KEY_NOT_FOUND, "nearest search (%s) from key '%s' finds nothing while decompression fails", up ? ">=" : "<", k.c_str());
            }
        }
    }
    Iterator it;
    if (it.init(w.db).ok()) {
        for (int n = 0;; ++n) {
            MC_CHECK(n < 100, "iteration does not end while decompression fails");
            Record r;
            Record::Holder h(r);
            Status s = it.get(r);
            if (s.ok()) {
                auto e = v.find(sb2s(r.kv.key));
                MC_CHECK(e != v.end() && e->second.seq == r.seqNum && e->second.val == sb2s(r.kv.value), "iteration returned '%s' for key '%s' while decompression fails", sb2s(r.kv.value).c_str(), sb2s(r.kv.key).c_str());
            } else ++errors;
            if (!it.next().ok()) break;
        }
        it.close();
    } else ++errors;
    return errors;
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P15", "model_checking",
                  "all histories to the stated depth with values of every compression outcome; every single failing decompression; every value size around the write buffer; every crash point of the last operation");
    chk.hangSecs = 20;
    auto setup = [](int parts, int le) {
        return [=](World& w) {
            resetCodec();
            w.cfg = baseConfig(parts, le);
            full(w.cfg);
            w.extraProbes = {"aa"};
            w.open();
        };
    };
    Ops ops = {
        {"set a (shrinks)", [](World& w) { write(w, "a", 'S'); }},
        {"set b (grows)", [](World& w) { write(w, "b", 'X'); }},
        {"set a (cancelled)", [](World& w) { write(w, "a", 'C'); }},
        {"set b (error)", [](World& w) { write(w, "b", 'E'); }},
        {"set a (empty)", [](World& w) { write(w, "a", 0); }},
        {"set b (not to be compressed)", [](World& w) { write(w, "b", 'N'); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"sync", [](World& w) { w.sync(); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"reopen", [](World& w) { reopenAs(w, full); }},
        {"reopen, no more compression", [](World& w) { reopenAs(w, readOnlyCodec); }},
        {"snapshot", [](World& w) { if (w.snaps.size()) throw Prune{}; w.openSnap(); }},
    };
    int d = chk.thorough() ? 6 : 5;
    addSeqSpace(chk, "ops-l2", ops, d, setup(1, 2), verify);
    addSeqSpace(chk, "ops-l16384", ops, d - 1, setup(2, 16384), verify);
    Ops ops2 = {
        {"set a (huge request)", [](World& w) { write(w, "a", 'H'); }},
        {"set c (large output)", [](World& w) { write(w, "c", 'B'); }},
        {"set d (same bytes)", [](World& w) { write(w, "d", 'Q'); }},
        {"set e (negative size)", [](World& w) { write(w, "e", 'M'); }},
        {"set f (long, shrinks)", [](World& w) { write(w, "f", 'S', 9000); }},
        {"del c", [](World& w) { w.del("c"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
        {"compactL1", [](World& w) { w.compactLevel(1); }},
        {"splitL1", [](World& w) { w.split(1); }},
        {"inplaceL1", [](World& w) { w.compactInplace(1); }},
        {"reopen", [](World& w) { reopenAs(w, full); }},
    };
    auto levels = [](World& w) {
        resetCodec();
        w.cfg = baseConfig(1, 4);
        full(w.cfg);
        w.open();
        const char* m = "SXCQBN";
        for (int i = 0; i < 6; ++i) write(w, std::string(1, 'a' + i), m[i]);
        w.syncFlush();
        w.compactL0All();
        write(w, "b", 'S'); write(w, "e", 'X'); w.del("f");
        w.syncFlush();
    };
    addSeqSpace(chk, "levels", ops2, chk.thorough() ? 5 : 4, levels, verify);
    // Without the callbacks compressed data cannot be read: an error, never other data, and nothing is lost.
    Ops ops3(ops.begin(), ops.begin() + 10);
    addSeqSpace(chk, "callbacks-missing", ops3, chk.thorough() ? 4 : 3, setup(1, 2), [](World& w) {
        clean();
        w.close();
        for (int which = 0; which < 2; ++which) {
            none(w.cfg);
            if (which) { w.cfg.compOpt.cbGetMaxSize = maxSize; w.cfg.compOpt.cbCompress = compress; }
            Status s = DB::open(&w.db, w.path, w.cfg);
            w.ctx.observe(s.getValue());
            if (s.ok()) {
                int e = tolerant(w);
                w.ctx.observe((uint64_t)e);
                OKS(DB::close(w.db));
            }
            w.db = nullptr;
        }
        full(w.cfg);
        w.open();
        verify(w);
        write(w, "n", 'S');
        w.checkSeqNums();
    });
    // One (or every) decompression fails, at any point of reading, maintenance or opening.
    int nf = chk.thorough() ? 12 : 6;
    Ops ops4 = {
        {"set a (shrinks)", [](World& w) { write(w, "a", 'S'); }},
        {"set ab (grows)", [](World& w) { write(w, "ab", 'X'); }},
        {"del a", [](World& w) { w.del("a"); }},
        {"sync+flush", [](World& w) { w.syncFlush(); }},
        {"compactL0", [](World& w) { w.compactL0All(); }},
    };
    uint64_t n4 = mc::seqCount(ops4.size(), chk.thorough() ? 4 : 3, 1);
    int len4 = chk.thorough() ? 4 : 3;
    chk.add("failing-decompression", n4 * (nf + 1) * 3 * 2, [=](uint64_t idx, mc::CaseCtx& ctx) {
        bool reopen = idx % 2;
        int how = idx / 2 % 3, at = idx / 6 % (nf + 1);
        std::vector<int> seq = mc::seqDecode(idx / 6 / (nf + 1), ops4.size(), len4, 1);
        for (int i : seq) ctx.desc += ops4[i].name + ", ";
        ctx.desc += mc::fmt("%s, decompression %s fails (%s)", reopen ? "reopen" : "read", at == nf ? "every" : std::to_string(at + 1).c_str(), how == 0 ? "error" : how == 1 ? "nothing" : "too long");
        freshWorld();
        resetCodec();
        World w(ctx);
        w.cfg = baseConfig(1, 2);
        full(w.cfg);
        w.open();
        write(w, "a", 'S');
        write(w, "ac", 'Q');
        w.syncFlush();
        try { for (int i : seq) ops4[i].fn(w); } catch (Prune&) { ctx.skipped = true; return; }
        if (reopen) w.close();
        g_calls = 0;
        g_failFrom = at == nf ? 1 : at + 1;
        g_failTo = at == nf ? ~0ull : at + 1;
        g_failHow = how;
        if (reopen) {
            Status s = DB::open(&w.db, w.path, w.cfg);
            ctx.observe(s.getValue());
            if (!s.ok()) w.db = nullptr;
        }
        if (w.db) {
            ctx.observe((uint64_t)tolerant(w));
            w.db->sync();
            w.db->flushLogs();
            ctx.observe((uint64_t)w.db->compactL0(CompactOptions(), 0).getValue());
            ctx.observe((uint64_t)tolerant(w));
        }
        bool hit = g_calls >= g_failFrom;
        g_failFrom = g_failTo = 0;
        if (w.db && !reopen) { uint64_t f; w.syncedSeq = w.maxSeq; if (w.db->getLastFlushedSeqNum(f).ok()) w.flushedSeq = f; verify(w); }
        if (w.db) { OKS(DB::close(w.db)); w.db = nullptr; }
        w.open();
        verify(w);
        ctx.observe((uint64_t)hit);
        ctx.state();
    }, []() { initEngine(); });
    // Every value size around the write buffer, with outputs smaller, equal and larger than the value.
    for (size_t buf : {64, 256}) {
        std::string modes = "SQXNB";
        size_t maxLen = buf * 2 + 40;
        chk.add("buffer-" + std::to_string(buf), modes.size() * maxLen * 4, [=](uint64_t idx, mc::CaseCtx& ctx) {
            char m = modes[idx % modes.size()];
            size_t len = idx / modes.size() % maxLen, before = idx / modes.size() / maxLen;
            ctx.desc = mc::fmt("%zu records, then a value of %zu bytes (%c), then another", before, len, m);
            freshWorld();
            resetCodec();
            World w(ctx);
            w.cfg = baseConfig(1, 16384);
            full(w.cfg);
            w.open();
            for (size_t i = 0; i < before; ++i) write(w, "b" + std::to_string(i), 'S', i * 7 + 2);
            write(w, "k", len ? m : 0, len);
            write(w, "l", 'Q', 10);
            w.sync();
            w.observeState();
            w.reopen();
            w.checkGets(w.db, w.view());
            w.syncFlush();
            w.checkAll(false);
            clean();
        }, [=]() {
            GlobalConfig g;
            g.globalLogPath = "/sim";
            g.numFlusherThreads = g.numCompactorThreads = g.numTableWriters = 0;
            g.fdbCacheSize = 0;
            g.shutdownLogger = false;
            g.memTableFlushBufferSize = buf;
            initEngine(g);
        });
    }
    Run run;
    run.setup = setup(1, 2);
    run.after = [](World& r, uint64_t R, const Image& im) {
        clean();
        r.checkGets(r.db, r.view(), "recovered db");
        clean();
    };
    Ops ops5 = {ops[0], ops[1], ops[2], ops[4], ops[6], ops[7], ops[8], ops[9]};
    addCrashSpace(chk, "crash", ops5, chk.thorough() ? 4 : 3, run);
    return chk.run();
}
