// BUILD: unit internal_helper.cc fileops_posix.cc murmurhash3.cc
#include "internal_helper.h"
#include "fileops_posix.h"
#include "mc.h"
#include "simfs.h"
#include "simrt.h"
using namespace jungle;

// Operations: U8/U16/U32/U64 with a few values, raw bytes and sized buffers.
struct Op { int kind; uint64_t v; int n; };     // kind 0..3: uint of 1<<kind bytes, 4: raw n, 5: sized buffer n
static std::string bytes(int n) { std::string s(n, 0); for (int i = 0; i < n; ++i) s[i] = (char)(i * 11 + 129); return s; }
static std::string be(uint64_t v, int n) { std::string s; for (int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i)); return s; }
static std::string image(const Op& o) {
    if (o.kind < 4) return be(o.v, 1 << o.kind);
    if (o.kind == 4) return bytes(o.n);
    return be(o.n, 4) + bytes(o.n);
}
static std::vector<Op> OPS = {{0, 0x81, 0}, {1, 0x8102, 0}, {2, 0x81020304u, 0}, {3, 0x8102030405060708ULL, 0}, {3, ~0ULL, 0},
                              {4, 0, 0}, {4, 0, 3}, {4, 0, 33}, {5, 0, 0}, {5, 0, 5}};
static Status doPut(RwSerializer& s, const Op& o) {
    switch (o.kind) {
    case 0: return s.putU8(o.v);
    case 1: return s.putU16(o.v);
    case 2: return s.putU32(o.v);
    case 3: return s.putU64(o.v);
    case 4: { std::string b = bytes(o.n); return s.put(b.data(), b.size()); }
    default: { std::string b = bytes(o.n); return s.putSb(SizedBuf(b)); }
    }
}
// Reads with op `o` at model position `pos` of `img`; checks the outcome.
static void doGet(RwSerializer& s, const Op& o, const std::string& img, size_t& pos, bool file, bool clone, const char* mode) {
    size_t need = o.kind < 4 ? (size_t)1 << o.kind : o.kind == 4 ? (size_t)o.n : 4;
    bool fits = pos + need <= img.size() || (need == 0 && o.kind == 4);
    Status st;
    if (!file) MC_CHECK(s.available(need) == (pos + need <= img.size()), "%s: available(%zu) at %zu of %zu is wrong", mode, need, pos, img.size());
    if (o.kind < 4) {
        uint64_t v = o.kind == 0 ? s.getU8(st) : o.kind == 1 ? s.getU16(st) : o.kind == 2 ? s.getU32(st) : s.getU64(st);
        MC_CHECK(st.ok() == fits, "%s: reading %zu bytes at %zu of %zu returned %s", mode, need, pos, img.size(), st.toString().c_str());
        if (fits) {
            uint64_t want = 0;
            for (size_t i = 0; i < need; ++i) want = (want << 8) | (uint8_t)img[pos + i];
            MC_CHECK(v == want, "%s: integer of %zu bytes at %zu reads as %llx, written %llx", mode, need, pos, (unsigned long long)v, (unsigned long long)want);
            pos += need;
        }
    } else if (o.kind == 4) {
        char* b = (char*)malloc(need);
        st = s.get(b, need);
        bool same = !fits || img.compare(pos, need, b, need) == 0;
        free(b);
        MC_CHECK(st.ok() == fits, "%s: reading %zu raw bytes at %zu of %zu returned %s", mode, need, pos, img.size(), st.toString().c_str());
        MC_CHECK(same, "%s: raw bytes at %zu differ", mode, pos);
        if (fits) pos += need;
    } else {
        SizedBuf out;
        SizedBuf::Holder h(out);
        uint64_t len = 0;
        if (fits) {
            for (int i = 0; i < 4; ++i) len = (len << 8) | (uint8_t)img[pos + i];
            if (file && len > 100000) return;       // not a length written by this program
            fits = pos + 4 + len <= img.size();
        }
        st = s.getSb(out, clone);
        MC_CHECK(st.ok() == fits, "%s: reading a sized buffer at %zu of %zu returned %s", mode, pos, img.size(), st.toString().c_str());
        if (!fits) { MC_CHECK(out.empty(), "%s: a failed read left a buffer behind", mode); pos = s.pos(); return; }
        MC_CHECK(out.size == len && img.compare(pos + 4, len, (char*)out.data, len) == 0, "%s: sized buffer at %zu differs", mode, pos);
        pos += 4 + len;
    }
    MC_CHECK(s.pos() == pos, "%s: position is %zu after reading up to %zu", mode, s.pos(), pos);
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P35", "model_checking",
                  "every program of writes and every program of reads to the stated depth, for each buffer kind and every capacity, vs. a byte-string model");
    uint64_t K = OPS.size();
    int d = chk.thorough() ? 5 : 4;
    auto load = [](uint64_t idx, uint64_t k, int d) {
        std::vector<Op> v;
        for (int i : mc::seqDecode(idx, k, d)) v.push_back(OPS[i]);
        return v;
    };
    auto readBack = [](const std::vector<Op>& prog, const std::string& img, mc::CaseCtx& ctx) {
        char* raw = (char*)malloc(img.size());
        memcpy(raw, img.data(), img.size());
        for (int clone = 0; clone < 2; ++clone) {
            SizedBuf sb(img.size(), raw);
            RwSerializer r(sb), r2((void*)raw, img.size());
            size_t pos = 0, pos2 = 0;
            for (auto& o : prog) { doGet(r, o, img, pos, false, clone, "buffer"); doGet(r2, o, img, pos2, false, clone, "memory"); ctx.transitions += 2; }
            // One more of each type past the end.
            if (img.size()) for (auto& o : OPS) { size_t p = pos; r.pos(p); doGet(r, o, img, p, false, clone, "buffer end"); }
        }
        free(raw);
    };
    // Growing buffer: content always equals the concatenation.
    chk.add("growing", mc::seqCount(K, d), [=](uint64_t idx, mc::CaseCtx& ctx) {
        auto prog = load(idx, K, d);
        std::string img;
        for (int start : {0, 1, 8}) {
            SizedBuf buf;
            if (start) buf.alloc(start);
            SizedBuf::Holder h(buf);
            RwSerializer w(&buf);
            img.clear();
            for (auto& o : prog) {
                Status s = doPut(w, o);
                MC_CHECK(s.ok(), "writing to a growing buffer returned %s", s.toString().c_str());
                img += image(o);
                MC_CHECK(w.pos() == img.size(), "position is %zu after writing %zu bytes", w.pos(), img.size());
                MC_CHECK(buf.size >= img.size() && img.compare(0, img.size(), (char*)buf.data, img.size()) == 0, "the growing buffer differs from what was written");
                ctx.transitions++;
            }
        }
        ctx.observe(img);
        ctx.state();
        readBack(prog, img, ctx);
    });
    // Fixed memory of every capacity: fits or is refused, never written outside.
    int fd = chk.thorough() ? 3 : 2;
    chk.add("fixed", mc::seqCount(K, fd) * 48, [=](uint64_t idx, mc::CaseCtx& ctx) {
        size_t cap = 1 + idx % 48;
        auto prog = load(idx / 48, K, fd);
        for (int mode = 0; mode < 2; ++mode) {
            char* raw = (char*)malloc(cap);
            memset(raw, 0x5a, cap);
            RwSerializer w1((void*)raw, cap), w2(SizedBuf(cap, raw));
            RwSerializer& w = mode ? w2 : w1;
            MC_CHECK(w.size() == cap, "size of a fixed buffer is wrong");
            std::string img;
            for (auto& o : prog) {
                std::string add = image(o);
                Status s = doPut(w, o);
                bool fits = img.size() + add.size() <= cap;
                MC_CHECK(s.ok() == fits, "writing %zu bytes at %zu of a %zu-byte buffer returned %s", add.size(), img.size(), cap, s.toString().c_str());
                if (fits) img += add;
                MC_CHECK(w.pos() == img.size(), "position is %zu, %zu bytes were accepted", w.pos(), img.size());
                ctx.transitions++;
            }
            MC_CHECK(!memcmp(raw, img.data(), img.size()), "the fixed buffer differs from what was written");
            ctx.observe(img);
            free(raw);
        }
        ctx.state();
    });
    // Files, positioned and appending.
    int ff = chk.thorough() ? 4 : 3;
    chk.add("files", mc::seqCount(K, ff), [=](uint64_t idx, mc::CaseCtx& ctx) {
        auto prog = load(idx, K, ff);
        simfs::reset(); simrt::reset();
        FileOpsPosix ops_; FileOps& ops = ops_;
        for (int app = 0; app < 2; ++app) {
            std::string p = app ? "/sim/a" : "/sim/p", img;
            FileHandle* h = nullptr;
            ops.open(&h, p);
            {
                RwSerializer w(&ops, h, app);
                for (auto& o : prog) {
                    Status s = doPut(w, o);
                    MC_CHECK(s.ok(), "writing to a file returned %s", s.toString().c_str());
                    img += image(o);
                    MC_CHECK(simfs::content(p) == img, "the file differs from what was written");
                    if (!app) MC_CHECK(w.pos() == img.size(), "position is %zu after writing %zu bytes", w.pos(), img.size());
                    ctx.transitions++;
                }
                MC_CHECK(w.size() == img.size(), "size of the file is reported as %zu, it is %zu", w.size(), img.size());
            }
            RwSerializer r(&ops, h);
            size_t pos = 0;
            for (auto& o : prog) doGet(r, o, img, pos, true, true, "file");
            for (int k : {0, 3}) { size_t q = pos; doGet(r, OPS[k], img, q, true, true, "file end"); }
            delete h;
            if (app) ctx.observe(img);
        }
        ctx.state();
    });
    // Arbitrary reads over arbitrary content: a reader never leaves its buffer.
    int rd = chk.thorough() ? 4 : 3;
    chk.add("foreign-bytes", mc::seqCount(K, rd) * 12 * 3, [=](uint64_t idx, mc::CaseCtx& ctx) {
        auto prog = load(idx / 36, K, rd);
        size_t len = 1 + idx % 12;
        int fill = idx / 12 % 3;
        std::string img(len, 0);
        for (size_t i = 0; i < len; ++i) img[i] = fill == 0 ? 0 : fill == 1 ? (i % 4 == 3 ? 6 : 0) : (char)0xff;
        readBack(prog, img, ctx);
        ctx.observe(idx % 36);
    });
    return chk.run();
}
