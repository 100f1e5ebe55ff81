// BUILD: unit internal_helper.cc fileops_posix.cc murmurhash3.cc
// P37: copies and backups of manifest files are exact, or reported as failed.
#include "fileops_posix.h"
#include "internal_helper.h"
#include "mc.h"
#include "simfs.h"
#include "simrt.h"
#include <errno.h>
#include <memory>
using namespace jungle;
using mc::fmt;

static std::string bytes(size_t n, int salt) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i) s[i] = (char)(salt * 37 + i * 11 + (i >> 8) + 1);
    return s;
}
static const char* SRC = "/sim/mani";
static const char* BAK = "/sim/mani.bak";

// The k-th operation of the given kinds fails; kind: 0 error at once, 1 error for good (all later ones of the same type too), 2 one byte less than asked, for good.
struct Fault { int at = -1, kind = 0; };
struct Injector {
    int n = 0;
    bool hit = false;
    simfs::OpType type = simfs::WRITE;
    void arm(Fault f) {
        n = 0;
        hit = false;
        if (f.at < -1) return;
        simfs::setFault([this, f](simfs::OpType t, const std::string&, size_t* len) {
            if (t == simfs::CLOSE) return 0;
            bool first = n++ == f.at;
            if (first) { hit = true; type = t; }
            if (!first && !(hit && f.kind && t == type)) return 0;
            if (f.kind < 2) return t == simfs::WRITE || t == simfs::TRUNC ? ENOSPC : EIO;
            if ((t == simfs::WRITE || t == simfs::READ) && *len) { *len -= 1; return 0; }
            return EIO;
        });
    }
    void off() { simfs::setFault(nullptr); }
};
// The worst power loss: nothing survives that was not followed by fsync.
static std::string afterPowerLoss(const simfs::Image& base, const std::string& path) {
    simfs::CrashChoice c;
    c.upto = simfs::journal().size();
    for (auto& u : simfs::unsynced(simfs::journal(), c.upto)) c.keep[u.first] = 0;
    simfs::Image im = simfs::applyJournal(base, simfs::journal(), c);
    return im.files.count(path) ? im.files[path] : "<no file>";
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P37", "fault_enumeration",
                  "every copy, backup and restore over the stated contents with every single failing system call (once, for good, short), and every sequence of incremental backups to the stated depth");
    const std::vector<size_t> sizes = {0, 1, 2, 511, 512, 4096, 70000};
    const int FAULTS = 3, AT = 16;
    // ---- copyFile, backup, restore ----
    chk.add("copy", sizes.size() * (sizes.size() + 1) * 2 * 3 * (1 + AT * FAULTS), [=](uint64_t idx, mc::CaseCtx& ctx) {
        uint64_t x = idx;
        size_t ns = sizes[x % sizes.size()]; x /= sizes.size();
        size_t di = x % (sizes.size() + 1); x /= sizes.size() + 1;
        bool sync = x % 2; x /= 2;
        int op = x % 3; x /= 3;
        Fault f;
        if (x) { f.at = (x - 1) % AT; f.kind = (x - 1) / AT; }
        static const char* on[] = {"copyFile", "backup", "restore"};
        bool dstPresent = di < sizes.size();
        ctx.desc = fmt("%s of %zu bytes over %s%s, %s", on[op], ns, dstPresent ? fmt("%zu bytes", sizes[di]).c_str() : "nothing", sync ? ", fsync" : "",
                       f.at < 0 ? "no fault" : fmt("fault kind %d at call %d", f.kind, f.at).c_str());
        simfs::reset(); simrt::reset(); simfs::setFault(nullptr);
        std::string from = op == 0 ? "/sim/a" : op == 1 ? SRC : BAK, to = op == 0 ? "/sim/b" : op == 1 ? BAK : SRC;
        std::string src = bytes(ns, 1), old = dstPresent ? bytes(sizes[di], 7) : "";
        simfs::setContent(from, src);
        if (dstPresent) simfs::setContent(to, old);
        simfs::Image base = simfs::snapshot();
        FileOpsPosix ops;
        Injector in;
        in.arm(f);
        simfs::journalStart();
        Status s = op == 0 ? BackupRestore::copyFile(&ops, from, to, sync)
                 : op == 1 ? BackupRestore::backup(&ops, SRC, sync) : BackupRestore::restore(&ops, SRC);
        simfs::journalStop();
        in.off();
        ctx.transitions = in.n;
        if (f.at >= 0 && !in.hit) { ctx.skipped = true; return; }
        MC_CHECK(simfs::content(from) == src, "the source was modified");
        MC_CHECK(simfs::openCount() == 0, "%zu files were left open", simfs::openCount());
        if (f.at < 0) MC_CHECK(s.ok(), "returned %s", s.toString().c_str());
        if (s.ok()) {
            MC_CHECK(simfs::exists(to) && simfs::content(to) == src, "the copy has %zu bytes, not the %zu of the source", simfs::content(to).size(), src.size());
            if (sync || op == 2) MC_CHECK(afterPowerLoss(base, to) == src, "the copy was acknowledged but does not survive a power loss");
        }
        ctx.observe(s.ok());
        ctx.observe(in.type);
        ctx.state();
    });
    chk.add("no-source", 4, [](uint64_t i, mc::CaseCtx& ctx) {
        simfs::reset(); simrt::reset(); simfs::setFault(nullptr);
        if (i & 1) simfs::setContent(i & 2 ? BAK : SRC, "keep");
        FileOpsPosix ops;
        ctx.desc = fmt("missing source, case %d", (int)i);
        Status s;
        if (i & 2) {   // backup of a file that does not exist
            s = BackupRestore::backup(&ops, SRC, true);
            MC_CHECK(!s.ok(), "backup of a missing file succeeded");
            MC_CHECK(simfs::exists(BAK) == (i == 3) && (i != 3 || simfs::content(BAK) == "keep") && !simfs::exists(SRC), "files were touched");
        } else {
            s = BackupRestore::restore(&ops, SRC);
            MC_CHECK(!s.ok(), "restoring from a missing backup succeeded");
            MC_CHECK(simfs::exists(SRC) == (i == 1) && (i != 1 || simfs::content(SRC) == "keep") && !simfs::exists(BAK), "files were touched");
        }
        ctx.observe(i);
        ctx.state();
    });
    // ---- incremental backups: a series of contents, each written from the first difference on ----
    // Contents: a base, a change near the beginning / the end, appended, cut, empty, much longer.
    auto contentOf = [](int c) {
        std::string b = bytes(600, 3);
        switch (c) {
        case 0: return b;
        case 1: b[5] ^= 0x55; return b;
        case 2: b[599] ^= 1; return b;
        case 3: return b + bytes(100, 9);
        case 4: return b.substr(0, 300);
        default: return bytes(40000, 3);
        }
    };
    const int NC = 6, EV = 4;       // events: plain, handle reopened, backup file removed, backup file cut
    for (int viaHandle = 0; viaHandle < 2; ++viaHandle) {
        int L = chk.thorough() ? 4 : 3;
        int kinds = NC * EV;
        chk.add(viaHandle ? "series-handle" : "series", mc::seqCount(kinds, L, 1) , [=](uint64_t idx, mc::CaseCtx& ctx) {
            std::vector<int> seq = mc::seqDecode(idx, kinds, L, 1);
            if (!viaHandle) for (int o : seq) if (o / NC == 1) { ctx.skipped = true; return; }
            simfs::reset(); simrt::reset(); simfs::setFault(nullptr);
            FileOpsPosix ops;
            FileHandle* h = nullptr;
            std::string prev;
            static const char* ev[] = {"", " handle reopened", " backup removed", " backup cut"};
            for (size_t i = 0; i < seq.size(); ++i) {
                int c = seq[i] % NC, e = seq[i] / NC;
                ctx.desc += fmt("%scontent %d%s", i ? ", " : "", c, ev[e]);
                ctx.transitions++;
                std::string now = contentOf(c);
                size_t skip = 0;
                while (skip < prev.size() && skip < now.size() && prev[skip] == now[skip]) ++skip;
                if (e == 1 && h) { ops.close(h); delete h; h = nullptr; }
                if (e == 2) { ops.remove(BAK); if (!viaHandle) skip = 0; }
                if (e == 3) { if (simfs::exists(BAK)) simfs::setContent(BAK, simfs::content(BAK).substr(0, 3)); if (!viaHandle) skip = 0; }
                SizedBuf ctxb(now.size(), &now[0]);
                simfs::Image base = simfs::snapshot();
                simfs::journalStart();
                Status s = viaHandle ? BackupRestore::backup(&ops, &h, SRC, ctxb, now.size(), skip, true)
                                     : BackupRestore::backup(&ops, SRC, ctxb, now.size(), skip, true);
                simfs::journalStop();
                MC_CHECK(s.ok(), "backup returned %s", s.toString().c_str());
                MC_CHECK(simfs::content(BAK) == now, "the backup differs from the content (skip %zu)", skip);
                MC_CHECK(afterPowerLoss(base, BAK) == now, "the backup was acknowledged but does not survive a power loss");
                MC_CHECK(simfs::openCount() == (viaHandle ? 1u : 0u), "%zu files open", simfs::openCount());
                prev = now;
                ctx.observe(simfs::content(BAK).size() * 16 + c);
                ctx.state();
            }
            if (h) { ops.close(h); delete h; }
            MC_CHECK(BackupRestore::restore(&ops, SRC).ok() && simfs::content(SRC) == prev, "restoring does not give the last content");
            MC_CHECK(simfs::openCount() == 0, "files left open");
        });
        // a fault in the first or second backup of a series, then the whole content again
        chk.add(viaHandle ? "series-handle-fault" : "series-fault", NC * NC * 2 * 8 * FAULTS, [=](uint64_t idx, mc::CaseCtx& ctx) {
            uint64_t x = idx;
            int c1 = x % NC; x /= NC;
            int c2 = x % NC; x /= NC;
            int step = x % 2; x /= 2;
            Fault f; f.at = x % 8; f.kind = x / 8;
            ctx.desc = fmt("content %d, then %d; fault kind %d at call %d of backup %d", c1, c2, f.kind, f.at, step);
            simfs::reset(); simrt::reset(); simfs::setFault(nullptr);
            FileOpsPosix ops;
            FileHandle* h = nullptr;
            std::string prev;
            size_t known = 0;          // what of prev is in the backup for sure
            Injector in;
            bool hit = false;
            for (int i = 0; i < 3; ++i) {
                std::string now = contentOf(i == 1 ? c2 : i == 0 ? c1 : (c1 + 1) % NC);
                size_t skip = 0;
                while (skip < known && skip < now.size() && prev[skip] == now[skip]) ++skip;
                SizedBuf cb(now.size(), &now[0]);
                simfs::Image base = simfs::snapshot();
                simfs::journalStart();
                if (i == step) in.arm(f);
                Status s = viaHandle ? BackupRestore::backup(&ops, &h, SRC, cb, now.size(), skip, true)
                                     : BackupRestore::backup(&ops, SRC, cb, now.size(), skip, true);
                if (i == step) { in.off(); hit = in.hit; }
                simfs::journalStop();
                ctx.transitions++;
                if (i != step || !hit) MC_CHECK(s.ok(), "backup without a fault returned %s", s.toString().c_str());
                if (s.ok()) {
                    MC_CHECK(simfs::content(BAK) == now, "an acknowledged backup differs from the content");
                    MC_CHECK(afterPowerLoss(base, BAK) == now, "the backup was acknowledged but does not survive a power loss");
                    known = now.size();
                } else known = 0;
                MC_CHECK(simfs::openCount() == (h ? 1u : 0u), "%zu files open", simfs::openCount());
                prev = now;
                ctx.observe(s.ok());
            }
            if (!hit) { ctx.skipped = true; }
            if (h) { ops.close(h); delete h; }
            ctx.observe(in.type);
            ctx.state();
        });
    }
    chk.assume("close never fails; the directory entry of a new file is durable with the first fsync of the file");
    return chk.run();
}
