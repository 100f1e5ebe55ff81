// BUILD: pseq
// P23: a failing file-system call costs at most the operation it hit.
#include "crash.h"
#include "db_mgr.h"
#include <errno.h>
using namespace crash;

struct Fault { int at, kind; };              // kind 0: fails once, 1: this type fails until the operation ends, 2: short, then fails
struct Injector {
    int n = 0;
    bool hit = false;
    simfs::OpType type = simfs::WRITE;
    std::string path;
    void arm(Fault f, bool reads) {
        n = 0; hit = false;
        simfs::setFault([this, f, reads](simfs::OpType t, const std::string& p, size_t* len) {
            bool use = t == simfs::WRITE || t == simfs::FSYNC || t == simfs::TRUNC || t == simfs::CREATE || t == simfs::MKDIR || t == simfs::UNLINK || t == simfs::RENAME;
            if (reads) use = t == simfs::READ || t == simfs::OPEN;
            if (!use) return 0;
            bool first = n++ == f.at;
            if (first) { hit = true; type = t; path = p; }
            if (!first && !(hit && f.kind && t == type)) return 0;
            if (f.kind == 2 && first) { if ((t == simfs::WRITE || t == simfs::READ) && *len > 1) { *len /= 2; return 0; } }
            return t == simfs::WRITE || t == simfs::CREATE || t == simfs::MKDIR ? ENOSPC : EIO;
        });
    }
    void off() { simfs::setFault(nullptr); }
};

struct FOp { std::string name; std::function<Status(World&)> fn; int what; };   // what: 0 other, 1 write, 2 sync, 3 flush, 4 close+open, 5 open, 6 checkpoint

static Status put(World& w, const std::string& k, bool del = false) {
    std::string v = w.nextVal(k);
    Status s = del ? w.db->del(SizedBuf(k)) : w.db->set(KV(k, v));
    MRec m;
    m.seq = w.maxSeq + 1; m.key = k; m.type = del ? Record::DELETION : Record::INSERTION; m.val = del ? "" : v;
    w.universe.insert(k);
    w.hist.push_back(m);                     // taken back by the caller if rejected
    w.maxSeq++;
    return s;
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P23", "fault_enumeration",
                  "every operation after every fixture x every failing system call (once, until the operation ends, short) x crash or continuation");
    struct Fix { std::string name; int le, parts; std::function<void(World&)> fn; };
    std::vector<Fix> fixes = {
        {"empty", 16384, 1, [](World&) {}},
        {"unsynced", 16384, 1, [](World& w) { w.set("a"); w.set("b"); }},
        {"synced+dirty", 16384, 1, [](World& w) { w.set("a"); w.set("b"); w.sync(); w.set("c"); w.set("a"); }},
        {"several logs", 2, 1, [](World& w) { for (auto k : {"a", "b", "c", "d"}) w.set(k); w.sync(); w.set("a"); w.del("b"); w.set("e"); }},
        {"flushed, dirty", 2, 2, [](World& w) { for (auto k : {"a", "b", "c"}) w.set(k); w.syncFlush(); w.set("a"); w.set("d"); w.sync(); w.set("e"); w.del("c"); }},
        {"levels", 16384, 1, [](World& w) { for (auto k : {"a", "b", "c", "d"}) w.set(k); w.syncFlush(); w.compactL0All(); w.set("a"); w.del("b"); w.set("e"); w.syncFlush(); w.set("c"); }},
        {"two level-1 tables", 16384, 1, [](World& w) { for (auto k : {"a", "b", "c", "d"}) w.setv(k, std::string(300, k[0])); w.syncFlush(); w.compactL0All(); w.split(1); w.set("a"); w.syncFlush(); w.set("d"); }},
    };
    std::vector<FOp> ops = {
        {"set", [](World& w) { return put(w, "a"); }, 1},
        {"del", [](World& w) { return put(w, "a", true); }, 1},
        {"sync", [](World& w) { return w.db->sync(true); }, 2},
        {"sync(nofsync)", [](World& w) { return w.db->sync(false); }, 0},
        {"flush", [](World& w) { return w.db->flushLogs(FlushOptions()); }, 3},
        {"flush one", [](World& w) { return w.db->flushLogs(FlushOptions(), w.flushedSeq + 1); }, 0},
        {"checkpoint", [](World& w) { uint64_t c; return w.db->checkpoint(c); }, 6},
        {"compactL0", [](World& w) { return w.db->compactL0(CompactOptions(), 0); }, 0},
        {"compactLevel", [](World& w) { return w.db->compactLevel(CompactOptions(), 1); }, 0},
        {"compactInplace", [](World& w) { return w.db->compactInplace(CompactOptions(), 1); }, 0},
        {"split", [](World& w) { return w.db->splitLevel(CompactOptions(), 1); }, 0},
        {"merge", [](World& w) { return w.db->mergeLevel(CompactOptions(), 1); }, 0},
        {"open", [](World& w) { w.close(); return Status(); }, 5},
        {"close", [](World& w) { Status s = DB::close(w.db); w.db = nullptr; return s; }, 4},
    };
    const int AT = chk.thorough() ? 60 : 40;
    for (int reads = 0; reads < 2; ++reads) {
        chk.add(reads ? "reads" : "writes", fixes.size() * ops.size() * AT * 3, [=](uint64_t idx, mc::CaseCtx& ctx) {
            uint64_t x = idx;
            const Fix& fx = fixes[x % fixes.size()]; x /= fixes.size();
            const FOp& op = ops[x % ops.size()]; x /= ops.size();
            Fault f; f.kind = x % 3; x /= 3; f.at = x;
            static const char* kn[] = {"once", "until the end of the operation", "short"};
            ctx.desc = mc::fmt("%s; %s with call %d failing (%s)", fx.name.c_str(), op.name.c_str(), f.at, kn[f.kind]);
            freshWorld();
            simfs::Image base = simfs::snapshot();
            World w(ctx);
            w.cfg = baseConfig(fx.parts, fx.le);
            w.cfg.minFileSizeToCompact = 1;
            simfs::journalStart();
            w.open();
            fx.fn(w);
            uint64_t synced = w.syncedSeq, durable = w.durableSeq;
            Injector in;
            size_t hist0 = w.hist.size();
            Status s;
            if (op.what == 5) op.fn(w);
            in.arm(f, reads);
            if (op.what == 5) s = DB::open(&w.db, w.path, w.cfg);
            else s = op.fn(w);
            in.off();
            if (op.what == 5) { synced = durable = w.maxSeq; if (!s.ok()) w.db = nullptr; }
            ctx.transitions++;
            if (!in.hit) {
                simfs::journalStop();
                if (w.db) DB::close(w.db);
                w.db = nullptr;
                ctx.skipped = true; return;
            }
            ctx.desc += mc::fmt(": %s %s -> %s", simfs::opName(in.type), in.path.c_str(), s.toString().c_str());
            ctx.note("%s", ctx.desc.c_str());
            if (auto* mgr = DBMgr::getWithoutInit()) mgr->forceRemoveFiles();   // the background file remover runs at any time
            if (op.what == 1 && !s.ok()) { w.hist.resize(hist0); w.maxSeq--; }
            if (s.ok() && (op.what == 2 || op.what == 4 || op.what == 6)) synced = durable = w.maxSeq;
            size_t j1 = simfs::journal().size();
            uint64_t s1 = synced, d1 = durable;
            auto verify = [&](const char* when) {
                View want = w.view(), got = scanView(w, w.db);
                for (auto& e : got) w.ctx.note("%s: %s=#%llu %s", when, e.first.c_str(), (unsigned long long)e.second.seq, e.second.val.c_str());
                MC_CHECK(sameLive(got, want), "%s the content differs from the accepted writes [%s]", when, ctx.desc.c_str());
                w.checkGets(w.db, want, when);
            };
            // Continue: everything works again.
            if (op.what >= 4 && op.what <= 5) {
                if (!w.db) { w.open(); }
                if (op.what == 4 && !s.ok()) {        // what could not be written out may be lost
                    View got = scanView(w, w.db);
                    bool ok = false;
                    for (uint64_t R = w.maxSeq + 1; R-- > synced && !ok;) if (sameLive(got, w.viewAt(R))) {
                        ok = true;
                        while (!w.hist.empty() && w.hist.back().seq > R) w.hist.pop_back();
                    }
                    MC_CHECK(ok, "after a failed close, durable records are lost");
                }
                uint64_t m = 0;
                w.db->getMaxSeqNum(m);
                MC_CHECK(m >= (w.hist.empty() ? 0 : w.hist.back().seq), "the last sequence number went back");
                w.maxSeq = std::max(m, w.hist.empty() ? (uint64_t)0 : w.hist.back().seq);
            }
            verify("after the failure");
            uint64_t m = 0;
            w.db->getMaxSeqNum(m);
            MC_CHECK(m == w.maxSeq || !w.maxSeq || (op.what == 1 && !s.ok() && m <= w.maxSeq + 1), "last sequence number %llu, expected %llu", (unsigned long long)m, (unsigned long long)w.maxSeq);
            if (op.what == 1 && !s.ok() && m == w.maxSeq + 1) w.maxSeq = m;
            w.set("n");
            w.set("a");
            verify("after the failure and new writes");
            w.sync();
            size_t j2 = simfs::journal().size();
            uint64_t s2 = w.maxSeq;
            int fs = w.flush();
            MC_CHECK(fs == Status::OK, "flush after the failure returned %d", fs);
            verify("after the failure and a flush");
            for (int p = 0; p < fx.parts; ++p) {
                int cs = w.compactL0(p);
                MC_CHECK(cs == Status::OK || cs == Status::TABLE_NOT_FOUND || cs == Status::COMPACTION_IS_NOT_ALLOWED || cs == Status::OPERATION_IN_PROGRESS, "compaction after the failure returned %d", cs);
            }
            verify("after the failure, a flush and a compaction");
            w.set("z");
            w.reopen();
            verify("after the failure and reopening");
            w.set("q");
            w.sync();
            verify("after the failure, reopening and a new write");
            std::vector<simfs::Op> j = simfs::journal();
            simfs::journalStop();
            w.observeState();
            World fin(ctx);
            fin.cfg = w.cfg; fin.path = w.path; fin.hist = w.hist; fin.universe = w.universe; fin.maxSeq = w.maxSeq; fin.valCounter = w.valCounter; fin.extra = w.extra;
            w.close();
            
            // Crash right after the failed operation, and right after the sync that followed.
            struct At { size_t j; uint64_t lo, du; } ats[] = {{j1, s1, d1}, {j2, s2, s2}};
            for (auto& a : ats) {
                for (int pl = 0; pl < 2; ++pl) {
                    // What a failed close wrote without fsync is taken for durable by the next open: not claimed.
                    if (pl && op.what == 4 && !s.ok() && &a != ats) continue;
                    simfs::CrashChoice c;
                    c.upto = a.j;
                    if (pl) for (auto& u : simfs::unsynced(j, a.j)) c.keep[u.first] = 0;
                    Image im;
                    im.img = simfs::applyJournal(base, j, c);
                    im.label = mc::fmt("%s after %s", pl ? "power loss" : "process crash", &a == ats ? "the failed operation" : "the following sync");
                    im.powerLoss = pl;
                    ctx.transitions++;
                    World r(ctx);
                    uint64_t R = recover(r, fin, im, pl ? a.du : a.lo, fin.maxSeq, false, false);
                    ctx.observe(R);
                    ctx.state();
                    r.setv("a", "new");
                    r.sync();
                    r.reopen();
                    View got = scanView(r, r.db);
                    MC_CHECK(sameLive(got, r.view()), "content after recovery, a write, sync and reopen is wrong [%s]", im.label.c_str());
                }
            }
            ctx.validated = 4;
        }, []() { initEngine(); });
    }
    chk.assume("ForestDB table files are replaced by a stand-in whose own failures are reported as ForestDB reports them");
    return chk.run();
}
