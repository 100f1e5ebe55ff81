// BUILD: unit fileops_posix.cc murmurhash3.cc
#include "fileops_posix.h"
#include "mc.h"
#include "simfs.h"
#include "simrt.h"
#include <errno.h>
using namespace jungle;

static std::string bytes(int n, int salt) {
    std::string s(n, 0);
    for (int i = 0; i < n; ++i) s[i] = (char)(salt * 37 + i * 11 + 1);
    return s;
}
struct Fault { int kind; int times; simfs::OpType type; };   // kind 0: EIO, 1: EINTR-like, 2: short by one, 3: zero bytes

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P33", "model_checking",
                  "every program of file operations to the stated depth vs. a byte-string model; every transient and permanent fault on every transfer");
    const std::string path = "/sim/f";
    enum { APP0, APP1, APP5, APP9, PW0, PW3, PWEND, PWHOLE, TR0, TR2, TRUP, SYNC, FLUSH, REOPEN, RDONLY, REMOVE, NOPS };
    static const char* names[] = {"append 0", "append 1", "append 5", "append 9", "pwrite@0", "pwrite@3", "pwrite@eof+2", "pwrite whole",
                                  "truncate 0", "truncate 2", "truncate up", "fsync", "flush", "reopen", "reopen read-only", "remove"};
    auto run = [=](const std::vector<int>& seq, mc::CaseCtx& ctx, int faultAt, Fault f) {
        simfs::reset(); simrt::reset();
        simfs::setFault(nullptr);
        FileOpsPosix ops_; FileOps& ops = ops_;
        std::string model;
        bool present = true, ro = false;
        FileHandle* h = nullptr;
        MC_CHECK(!ops.exist(path), "a file not yet created exists");
        MC_CHECK(ops.open(&h, path).ok() && h && h->isOpened() && h->ops() == &ops, "cannot create a file");
        MC_CHECK(ops.exist(path), "a created file does not exist");
        int transfers = 0, salt = 1;
        bool tolerant = false;          // a permanent fault happened
        auto arm = [&](simfs::OpType t) {
            if (transfers++ != faultAt || f.type != t) { simfs::setFault(nullptr); return; }
            int left = f.times;
            simfs::setFault([left, f](simfs::OpType ty, const std::string&, size_t* n) mutable {
                if (ty != f.type || left == 0) return 0;
                --left;
                if (f.kind == 0) return EIO;
                if (f.kind == 1) return ENOSPC;
                if (f.kind == 2) { if (*n > 0) *n -= 1; return 0; }
                *n = 0;
                return 0;
            });
        };
        bool permanent = false;
        auto faulty = [&](simfs::OpType t) { return faultAt >= 0 && transfers - 1 == faultAt && f.type == t && f.times > 1000; };
        auto readAll = [&](const char* when) {
            std::string got(model.size(), '\x5a');
            arm(simfs::READ);
            Status s = ops.pread(h, &got[0], model.size(), 0);
            bool pf = faulty(simfs::READ) && model.size();
            simfs::setFault(nullptr);
            if (pf) { MC_CHECK(!s.ok(), "a read that never completed reported success"); return; }
            MC_CHECK(s.ok(), "reading %zu bytes %s returned %s", model.size(), when, s.toString().c_str());
            MC_CHECK(got == model, "content read %s differs from what was written", when);
        };
        for (int o : seq) {
            ctx.transitions++;
            if (o == REMOVE) {
                Status s = ops.remove(path);
                MC_CHECK(s.ok() == present, "remove returned %s", s.toString().c_str());
                MC_CHECK(!ops.exist(path), "a removed file exists");
                present = false;
                ops.close(h); delete h; h = nullptr;
                Status s2 = ops.open(&h, path, FileOps::READ_ONLY);
                MC_CHECK(!s2.ok(), "opening a missing file read-only succeeded");
                MC_CHECK(!ops.exist(path), "a read-only open created the file");
                h = nullptr;
                MC_CHECK(ops.open(&h, path).ok(), "cannot create the file again");
                present = true; model.clear(); ro = false;
                continue;
            }
            if (o == REOPEN || o == RDONLY) {
                MC_CHECK(ops.close(h).ok(), "close failed");
                MC_CHECK(!h->isOpened(), "a closed file reports being open");
                char c = 0;
                MC_CHECK(!ops.close(h).ok() && !ops.pread(h, &c, 1, 0).ok() && !ops.pwrite(h, &c, 1, 0).ok() && !ops.append(h, &c, 1).ok()
                         && !ops.flush(h).ok() && !ops.fsync(h).ok() && !ops.ftruncate(h, 0).ok() && ops.eof(h) < 0,
                         "an operation on a closed file reported success");
                delete h; h = nullptr;
                MC_CHECK(simfs::openCount() == 0, "a descriptor leaked");
                ro = (o == RDONLY);
                MC_CHECK(ops.open(&h, path, ro ? FileOps::READ_ONLY : FileOps::NORMAL).ok(), "reopen failed");
                MC_CHECK(ops.eof(h) == (cs_off_t)model.size(), "reopening changed the size to %lld", (long long)ops.eof(h));
                readAll("after reopening");
                continue;
            }
            if (o <= PWHOLE) {
                int n = o == APP0 ? 0 : o == APP1 ? 1 : o == APP5 ? 5 : o == APP9 ? 9 : o == PWHOLE ? (int)model.size() : 4;
                int64_t off = o <= APP9 ? (int64_t)model.size() : o == PW0 || o == PWHOLE ? 0 : o == PW3 ? 3 : (int64_t)model.size() + 2;
                std::string d = bytes(n, salt++);
                arm(simfs::WRITE);
                Status s = o <= APP9 ? ops.append(h, d.data(), n) : ops.pwrite(h, d.data(), n, off);
                permanent = faulty(simfs::WRITE) && n;
                simfs::setFault(nullptr);
                if (permanent || (ro && n)) {
                    MC_CHECK(!s.ok(), "%s reported success although the data could not be written", names[o]);
                    if (!ro) tolerant = true;
                } else {
                    MC_CHECK(s.ok(), "%s returned %s", names[o], s.toString().c_str());
                    if (n) {
                        if (model.size() < (size_t)off + n) model.resize(off + n, 0);
                        model.replace(off, n, d);
                    }
                }
            } else if (o == TR0 || o == TR2 || o == TRUP) {
                size_t len = o == TR0 ? 0 : o == TR2 ? std::min<size_t>(2, model.size()) : model.size() + 3;
                Status s = ops.ftruncate(h, len);
                MC_CHECK(s.ok() == !ro, "ftruncate returned %s", s.toString().c_str());
                if (!ro) model.resize(len, 0);
            } else if (o == SYNC) {
                MC_CHECK(ops.fsync(h).ok(), "fsync failed");
            } else if (o == FLUSH) {
                MC_CHECK(ops.flush(h).ok(), "flush failed");
            }
            if (tolerant) { ctx.state(); break; }     // partial data of a failed write may remain
            MC_CHECK(simfs::content(path) == model, "after %s the file holds other bytes than the model (%zu vs %zu)", names[o], simfs::content(path).size(), model.size());
            MC_CHECK(ops.eof(h) == (cs_off_t)model.size(), "after %s eof is %lld, the file has %zu bytes", names[o], (long long)ops.eof(h), model.size());
            ctx.observe(model);
            ctx.state();
        }
        if (!tolerant) {
            readAll("at the end");
            for (size_t off = 0; off <= model.size(); off += 2)
                for (size_t n : {1, 3}) {
                    char b[4] = {0};
                    Status s = ops.pread(h, b, n, off);
                    if (off + n <= model.size()) {
                        MC_CHECK(s.ok() && model.compare(off, n, b, n) == 0, "pread(%zu bytes at %zu) is wrong", n, off);
                    } else {
                        MC_CHECK(!s.ok(), "reading %zu bytes at %zu of a %zu-byte file succeeded", n, off, model.size());
                    }
                }
        }
        MC_CHECK(!ops.pread(h, nullptr, 1, 0).ok(), "reading into no buffer succeeded");
        delete h;
        MC_CHECK(simfs::openCount() == 0, "dropping the handle leaked its descriptor");
        char c;
        MC_CHECK(!ops.close(nullptr).ok() && !ops.pread(nullptr, &c, 1, 0).ok() && !ops.pwrite(nullptr, &c, 1, 0).ok() && !ops.append(nullptr, &c, 1).ok()
                 && ops.eof(nullptr) < 0 && !ops.flush(nullptr).ok() && !ops.fsync(nullptr).ok() && !ops.ftruncate(nullptr, 0).ok(), "a null handle was accepted");
    };
    int d = chk.thorough() ? 5 : 4;
    chk.add("programs", mc::seqCount(NOPS, d), [=](uint64_t idx, mc::CaseCtx& ctx) {
        auto seq = mc::seqDecode(idx, NOPS, d);
        std::string desc;
        for (int o : seq) desc += std::string(names[o]) + "; ";
        ctx.desc = desc;
        run(seq, ctx, -1, Fault{0, 0, simfs::WRITE});
    });
    // One faulty transfer: EIO/ENOSPC/short/zero, transient (1,2,5 times) or for ever.
    std::vector<Fault> faults;
    for (auto t : {simfs::WRITE, simfs::READ}) for (int k = 0; k < 4; ++k) for (int n : {1, 2, 5, 1000000}) faults.push_back(Fault{k, n, t});
    int df = chk.thorough() ? 4 : 3;
    std::vector<int> fops = {APP1, APP5, APP9, PW0, PWEND, PWHOLE, REOPEN};
    uint64_t k = fops.size(), nseq = mc::seqCount(k, df);
    chk.add("faults", nseq * faults.size() * 4, [=](uint64_t idx, mc::CaseCtx& ctx) {
        Fault f = faults[idx % faults.size()];
        int at = idx / faults.size() % 4;
        auto s0 = mc::seqDecode(idx / faults.size() / 4, k, df);
        std::vector<int> seq;
        std::string desc;
        for (int o : s0) { seq.push_back(fops[o]); desc += std::string(names[fops[o]]) + "; "; }
        ctx.desc = desc + mc::fmt("fault kind %d x%d on %s #%d", f.kind, f.times, f.type == simfs::WRITE ? "write" : "read", at);
        run(seq, ctx, at, f);
    });
    chk.add("directories", 8, [=](uint64_t idx, mc::CaseCtx& ctx) {
        simfs::reset(); simfs::setFault(nullptr);
        FileOpsPosix ops_; FileOps& ops = ops_;
        MC_CHECK(!ops.exist("/sim/d") && ops.mkdir("/sim/d").ok() && ops.exist("/sim/d"), "mkdir");
        MC_CHECK(!ops.mkdir("/sim/d").ok(), "creating an existing directory succeeded");
        MC_CHECK(!ops.mkdir("/sim/x/y").ok(), "creating a directory below a missing one succeeded");
        FileHandle* h = nullptr;
        MC_CHECK(ops.open(&h, "/sim/d/f").ok(), "open below a directory");
        ops.append(h, "x", 1); ops.close(h); delete h;
        MC_CHECK(ops.exist("/sim/d/f") && !ops.remove("/sim/d/g").ok() && ops.remove("/sim/d/f").ok() && !ops.exist("/sim/d/f"), "remove");
        h = nullptr;
        MC_CHECK(!ops.open(&h, "/sim/none/f").ok(), "opening below a missing directory succeeded");
        ctx.observe(idx);
        ctx.transitions += 8;
    });
    return chk.run();
}
