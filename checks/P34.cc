// BUILD: unit fileops_directio.cc murmurhash3.cc
// Direct-IO files.  The protocol of the only user (LogFile) is followed:
// append*, flush, fsync, reopen + ftruncate to the end of the data.
#include "fileops_directio.h"
#include "mc.h"
#include "simfs.h"
#include "simrt.h"
#include <errno.h>
using namespace jungle;

static std::string bytes(int n, int salt) {
    std::string s(n, 0);
    for (int i = 0; i < n; ++i) s[i] = (char)(salt * 37 + i * 11 + 1);
    return s;
}
static const std::string path = "/sim/f";

struct M {
    size_t buf, align;
    FileOpsDirectIO ops_; FileOps& ops;
    FileHandle* h = nullptr;
    std::string model;          // all bytes appended
    size_t flushed = 0;         // how many of them were flushed
    int salt = 1;
    bool failed = false;
    M(size_t b, size_t a) : buf(b), align(a), ops_(nullptr, b, a), ops(ops_) { simfs::directAlign = a; }
    ~M() { delete h; }
    // What the reader of the file relies on: the data, then nothing, or a
    // padding mark (a word of 8 bytes whose first is fe) at once.
    void checkFile(const char* when, bool exact) {
        std::string c = simfs::content(path);
        MC_CHECK(c.size() >= flushed, "after %s the file has %zu bytes, %zu were flushed", when, c.size(), flushed);
        MC_CHECK(c.compare(0, flushed, model, 0, flushed) == 0, "after %s the flushed bytes differ from what was appended", when);
        if (exact) {
            MC_CHECK(c.size() == flushed, "after %s the file has %zu bytes, the data %zu", when, c.size(), flushed);
            return;
        }
        MC_CHECK(c.size() == flushed || c.size() % align == 0, "after %s the size %zu is not a multiple of the alignment", when, c.size());
        if (flushed == model.size() && c.size() > flushed) {
            MC_CHECK(c.size() - flushed >= 8 && (uint8_t)c[flushed] == 0xfe,
                     "after %s the %zu bytes following the data (%zu bytes) do not start with the padding mark", when, c.size() - flushed, flushed);

        }
    }
    void checkAligned() {
        for (auto& o : simfs::journal())
            if (o.type == simfs::WRITE)
                MC_CHECK(o.off % align == 0 && o.data.size() % align == 0, "unaligned direct write: %zu bytes at %llu", o.data.size(), (unsigned long long)o.off);
    }
    void checkReads(size_t step) {
        cs_off_t end = ops.eof(h);
        std::string c = simfs::content(path);
        MC_CHECK(end == (cs_off_t)c.size(), "eof is %lld, the file has %zu bytes", (long long)end, c.size());
        for (size_t off = 0; off < c.size(); off += step)
            for (size_t n : {(size_t)1, align - 1, align, align + 1, buf - 1, buf, buf + 1, 2 * buf + 1, c.size() - off, c.size() - off + 1}) {
                std::string got(n, '\x5a');
                char* b = (char*)malloc(n);
                Status s = ops.pread(h, b, n, off);
                if (s.ok()) got.assign(b, n);
                free(b);
                if (off + n <= c.size()) MC_CHECK(s.ok() && c.compare(off, n, got) == 0, "pread(%zu bytes at %zu) of a %zu-byte file: %s", n, off, c.size(), s.ok() ? "wrong bytes" : s.toString().c_str());
                else MC_CHECK(!s.ok(), "reading %zu bytes at %zu of a %zu-byte file succeeded", n, off, c.size());
            }
    }
    void open() {
        Status s = ops.open(&h, path);
        MC_CHECK(s.ok() && h && h->isOpened(), "open returned %s", s.toString().c_str());
    }
    void flush() {
        Status s = ops.flush(h);
        MC_CHECK(s.ok(), "flush returned %s", s.toString().c_str());
        flushed = model.size();
        checkFile("flush", false);
    }
    void append(int n) {
        std::string d = bytes(n, salt++);
        Status s = ops.append(h, d.data(), n);
        MC_CHECK(s.ok(), "append returned %s", s.toString().c_str());
        model += d;
        // Data may reach the file early, but never wrongly.
        std::string c = simfs::content(path);
        size_t common = std::min(c.size(), flushed);
        MC_CHECK(c.compare(0, common, model, 0, common) == 0, "append damaged data already flushed");
    }
    void reopen() {
        Status s = ops.close(h);
        MC_CHECK(s.ok(), "close returned %s", s.toString().c_str());
        flushed = model.size();
        checkFile("close", false);
        char c = 0;
        MC_CHECK(!h->isOpened() && !ops.close(h).ok() && !ops.pread(h, &c, 1, 0).ok() && !ops.append(h, &c, 1).ok() && !ops.flush(h).ok() && !ops.fsync(h).ok()
                 && !ops.ftruncate(h, 0).ok() && ops.eof(h) < 0, "an operation on a closed file reported success");
        delete h; h = nullptr;
        MC_CHECK(simfs::openCount() == 0, "a descriptor leaked");
        open();
        s = ops.ftruncate(h, model.size());
        MC_CHECK(s.ok(), "dropping the padding returned %s", s.toString().c_str());
        checkFile("dropping the padding", true);
    }
    void truncate(size_t len) {
        Status s = ops.ftruncate(h, len);
        MC_CHECK(s.ok(), "ftruncate returned %s", s.toString().c_str());
        model.resize(len);
        flushed = len;
        checkFile("ftruncate", true);
    }
    void fsync() {
        Status s = ops.fsync(h);
        MC_CHECK(s.ok(), "fsync returned %s", s.toString().c_str());
        auto& j = simfs::journal();
        // Whatever part of the operations not yet made durable a crash keeps,
        // the flushed data are there.
        for (auto& u : simfs::unsynced(j, j.size()))
            for (size_t keep = 0; keep <= u.second; ++keep) {
                simfs::CrashChoice c;
                c.upto = j.size();
                c.keep[u.first] = keep;
                simfs::Image im = simfs::applyJournal(simfs::Image(), j, c);
                std::string d = im.files[path];
                MC_CHECK(d.size() >= flushed && d.compare(0, flushed, model, 0, flushed) == 0, "fsync returned success but a crash right after it loses flushed data (%zu bytes flushed)", flushed);
            }
    }
};

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P34", "model_checking",
                  "every program of appends (every size around the block boundaries), flushes, syncs, truncations and reopenings vs. a byte-string model");
    struct Geo { size_t buf, align; };
    std::vector<Geo> geos = {{32, 16}, {16, 16}, {64, 16}, {64, 32}};
    // All appended sizes 1..40, each optionally flushed: any position in the block.
    auto base = [](size_t buf, size_t align) {
        simfs::reset(); simrt::reset(); simfs::setFault(nullptr);
        simfs::journalStart();
        return std::unique_ptr<M>(new M(buf, align));
    };
    for (auto g : geos) {
        int S = 2 * g.align + 3;
        // ops: append n (1..S), append n + flush (1..S), flush, fsync, reopen, truncate by 1 / to 0 / to a boundary
        int K = 2 * S + 6;
        int d = chk.thorough() ? 3 : 2;
        auto body = [=](const std::vector<int>& seq, mc::CaseCtx& ctx) {
            auto mp = base(g.buf, g.align);
            M& m = *mp;
            m.open();
            for (int o : seq) {
                ctx.transitions++;
                if (o < S) { ctx.desc += mc::fmt("append %d; ", o + 1); m.append(o + 1); }
                else if (o < 2 * S) { ctx.desc += mc::fmt("append %d, flush; ", o - S + 1); m.append(o - S + 1); m.flush(); }
                else if (o == 2 * S) { ctx.desc += "flush; "; m.flush(); }
                else if (o == 2 * S + 1) { ctx.desc += "fsync; "; m.flush(); m.fsync(); }
                else if (o == 2 * S + 2) { ctx.desc += "reopen; "; m.reopen(); }
                else if (o == 2 * S + 3) { ctx.desc += "truncate -1; "; m.flush(); if (m.model.size()) m.truncate(m.model.size() - 1); }
                else if (o == 2 * S + 4) { ctx.desc += "truncate 0; "; m.flush(); m.truncate(0); }
                else { ctx.desc += "truncate to boundary; "; m.flush(); m.truncate(m.model.size() / g.align * g.align); }
                ctx.observe(m.model.size());
                ctx.state();
            }
            m.flush();
            m.fsync();
            m.checkReads(seq.size() > 2 ? 7 : 3);
            m.checkAligned();
            m.reopen();
            m.append(3);
            m.flush(); m.fsync();
            m.checkAligned();
        };
        chk.add(mc::fmt("programs-b%zu-a%zu", g.buf, g.align), mc::seqCount(K, d), [=](uint64_t idx, mc::CaseCtx& ctx) { body(mc::seqDecode(idx, K, d), ctx); });
        // Deeper, fewer sizes: those next to the boundaries.
        std::vector<int> pick = {0, (int)g.align - 9, (int)g.align - 4, (int)g.align - 1, (int)g.align, S + 2, S + (int)g.align - 4, S + (int)g.align - 1, 2 * S + 1, 2 * S + 2, 2 * S + 3, 2 * S + 4, 2 * S + 5};
        int dd = chk.thorough() ? 5 : 4;
        uint64_t kk = pick.size();
        chk.add(mc::fmt("deep-b%zu-a%zu", g.buf, g.align), mc::seqCount(kk, dd, 3), [=](uint64_t idx, mc::CaseCtx& ctx) {
            auto s = mc::seqDecode(idx, kk, dd, 3);
            for (auto& x : s) x = pick[x];
            body(s, ctx);
        });
    }
    // The default geometry, residues around the 512-byte blocks and the 16 KiB buffer.
    {
        std::vector<int> sizes;
        for (int b : {512, 1024, 16384, 32768}) for (int r = -10; r <= 9; ++r) sizes.push_back(b + r);
        uint64_t n = sizes.size();
        chk.add("default-geometry", n * 20 * 2, [=](uint64_t idx, mc::CaseCtx& ctx) {
            auto mp = base(16384, 512);
            M& m = *mp;
            m.open();
            int first = sizes[idx % n], second = 1 + idx / n % 20;
            ctx.desc = mc::fmt("append %d, %s append %d, flush, reopen, append", first, idx / n / 20 ? "flush," : "", second);
            m.append(first);
            if (idx / n / 20) m.flush();
            m.append(second);
            m.flush(); m.fsync();
            m.reopen();
            m.append(700);
            m.flush(); m.fsync();
            m.checkReads(5000);
            m.checkAligned();
            ctx.observe(m.model.size());
            ctx.transitions += 7;
        });
    }
    // Two users with different geometries in one process, in either order.
    chk.add("two-geometries", 4 * 4 * 2, [=](uint64_t idx, mc::CaseCtx& ctx) {
        simfs::reset(); simfs::setFault(nullptr); simfs::journalStart();
        size_t bufs[4] = {512, 1024, 4096, 16384};
        size_t b1 = bufs[idx % 4], b2 = bufs[idx / 4 % 4];
        size_t al = idx / 16 ? 512 : 256;
        ctx.desc = mc::fmt("buffers of %zu and %zu bytes", b1, b2);
        for (size_t b : {b1, b2, b1}) {
            simfs::reset(); simfs::journalStart();
            M m(b, b == b2 ? al : 512);
            m.open();
            m.append(40000);
            m.flush();
            m.checkReads(7777);
        }
        ctx.observe(b1 * 100000 + b2);
        ctx.transitions += 3;
    });
    // Transient faults are retried; permanent ones are reported.
    chk.add("faults", 3 * 4 * 2 * 40, [=](uint64_t idx, mc::CaseCtx& ctx) {
        auto mp = base(32, 16);
        M& m = *mp;
        m.open();
        int times = (int[]){1, 3, 1000000}[idx % 3];
        int kind = idx / 3 % 4;
        bool rd = idx / 12 % 2;
        int n = 1 + idx / 24;
        ctx.desc = mc::fmt("append %d with fault kind %d x%d on %s", n, kind, times, rd ? "read" : "write");
        m.append(5); m.flush();
        simfs::OpType t = rd ? simfs::READ : simfs::WRITE;
        int left = times;
        simfs::setFault([&left, kind, t](simfs::OpType ty, const std::string&, size_t* len) {
            if (ty != t || left == 0) return 0;
            --left;
            if (kind == 0) return EIO;
            if (kind == 1) return ENOSPC;
            if (kind == 2) { if (*len) *len -= 1; return 0; }
            *len = 0;
            return 0;
        });
        if (times > 1000) {
            if (!rd) {
                std::string d = bytes(n, 9);
                Status s = m.ops.append(m.h, d.data(), n);
                if (s.ok()) s = m.ops.flush(m.h);
                MC_CHECK(!s.ok(), "data that could not be written was reported as flushed");
                std::string c = simfs::content(path);
                MC_CHECK(c.compare(0, 5, m.model) == 0, "a failed write damaged earlier data");
            } else {
                char b[16];
                Status s = m.ops.pread(m.h, b, 5, 0);
                MC_CHECK(!s.ok(), "a read that never completed reported success");
            }
        } else {
            m.append(n); m.flush(); m.fsync();
            std::string got(m.model.size(), 0);
            Status s = m.ops.pread(m.h, &got[0], got.size(), 0);
            MC_CHECK(s.ok() && got == m.model, "after a transient fault %s", s.ok() ? "wrong bytes were read" : "reading failed");
        }
        simfs::setFault(nullptr);
        ctx.observe(idx);
        ctx.transitions += 3;
    });
    return chk.run();
}
