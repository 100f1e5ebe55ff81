// BUILD: unit crc32.cc
#include "crc32.h"
#include "mc.h"
#include <stdlib.h>
#include <set>

static uint32_t refCrc(const std::string& s, uint32_t prev) {
    uint32_t c = ~prev;
    for (unsigned char ch : s) {
        c ^= ch;
        for (int i = 0; i < 8; ++i) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0);
    }
    return ~c;
}
// Exactly sized heap copy at the given misalignment, so that ASan sees any overread.
struct Buf {
    char* raw; char* p;
    Buf(const std::string& s, int mis) { raw = (char*)malloc(s.size() + mis); p = raw + mis; memcpy(p, s.data(), s.size()); }
    ~Buf() { free(raw); }
};

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P32", "model_checking",
                  "every length, alignment, byte value at every position, split point and one- or two-bit flip up to the stated sizes");
    const uint32_t prevs[] = {0, 1, 0xffffffffu, 0x80000000u, 0x12345678u};
    int maxLen = chk.thorough() ? 200 : 72;
    // length x alignment x byte value, every position
    chk.add("values", (uint64_t)(maxLen + 1) * 256, [=](uint64_t idx, mc::CaseCtx& ctx) {
        int len = idx / 256, val = idx % 256;
        std::string base(len, 0);
        for (int i = 0; i < len; ++i) base[i] = (char)(i * 7 + 3);
        for (int pos = 0; pos < std::max(len, 1); ++pos) {
            std::string s = base;
            if (len) s[pos] = (char)val;
            Buf b(s, pos % 8);
            uint32_t prev = prevs[(pos + val) % 5], want = refCrc(s, prev);
            uint32_t a = crc32_8(b.p, len, prev), c = crc32_1(b.p, len, prev);
            MC_CHECK(a == want, "crc32_8 of %d bytes (byte %d = 0x%02x, misaligned by %d) is %08x, CRC-32 is %08x", len, pos, val, pos % 8, a, want);
            MC_CHECK(c == want, "crc32_1 of %d bytes (byte %d = 0x%02x) is %08x, CRC-32 is %08x", len, pos, val, c, want);
            std::string tail = s.size() > 8 ? s.substr(s.size() - 8) : s;
            MC_CHECK(crc32_8_last8(b.p, len, prev) == refCrc(tail, prev), "crc32_8_last8 of %d bytes is wrong", len);
            ctx.observe(a);
            ctx.transitions += 3;
        }
        ctx.desc = mc::fmt("%d bytes, value 0x%02x at every position", len, val);
    });
    // incremental: crc(a+b) = crc(b, crc(a)) at every split into three parts
    int L2 = chk.thorough() ? 64 : 40;
    chk.add("incremental", (uint64_t)(L2 + 1) * 5, [=](uint64_t idx, mc::CaseCtx& ctx) {
        int len = idx / 5; uint32_t prev = prevs[idx % 5];
        std::string s(len, 0);
        for (int i = 0; i < len; ++i) s[i] = (char)(i * i * 13 + 5);
        uint32_t want = refCrc(s, prev);
        for (int i = 0; i <= len; ++i) for (int j = i; j <= len; ++j) {
            uint32_t c = crc32_8(s.data(), i, prev);
            c = crc32_8(s.data() + i, j - i, c);
            c = crc32_8(s.data() + j, len - j, c);
            MC_CHECK(c == want, "checksum fed in parts %d+%d+%d differs from the whole", i, j - i, len - j);
            ctx.transitions++;
        }
        ctx.observe(want);
    });
    // detection: every one- and two-bit error, every burst of up to 32 bits in a small block
    int L3 = chk.thorough() ? 48 : 20;
    chk.add("detect", L3 * 8, [=](uint64_t idx, mc::CaseCtx& ctx) {
        std::string s(L3, 0);
        for (int i = 0; i < L3; ++i) s[i] = (char)(i * 31 + 7);
        uint32_t good = crc32_8(s.data(), s.size(), 0);
        auto flip = [](std::string& t, uint64_t bit) { t[bit / 8] ^= 1 << (bit % 8); };
        for (uint64_t o = idx; o < (uint64_t)L3 * 8; ++o) {
            std::string t = s;
            flip(t, idx);
            if (o != idx) flip(t, o);
            uint32_t c = crc32_8(t.data(), t.size(), 0);
            MC_CHECK(c != good, "flipping bits %llu and %llu is not detected", (unsigned long long)idx, (unsigned long long)o);
            ctx.transitions++;
        }
        for (uint64_t w = 2; w <= 32 && idx + w <= (uint64_t)L3 * 8; ++w) {
            std::string t = s;
            for (uint64_t b = idx; b < idx + w; ++b) flip(t, b);
            MC_CHECK(crc32_8(t.data(), t.size(), 0) != good, "a burst of %llu bits at %llu is not detected", (unsigned long long)w, (unsigned long long)idx);
            ctx.transitions++;
        }
        ctx.observe(good);
    });
    return chk.run();
}
