// BUILD: unit bloomfilter.cc murmurhash3.cc
#include "bloomfilter.h"
#include "mc.h"
#include "murmurhash3.h"
#include <set>
#include <stdlib.h>

static std::string keyOf(uint64_t i) {
    // Lengths 0..40 with distinct contents: all tail lengths of the hash.
    std::string s;
    uint64_t len = i % 41;
    for (uint64_t j = 0; j < len; ++j) s += (char)(i * 131 + j * 29 + (i / 41) * 7);
    return s;
}
static void* P(const std::string& s) { return (void*)s.data(); }
// Independent statement of MurmurHash3_x64_128 (byte-wise), seed 0.
static uint64_t rotl(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static uint64_t fmix(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }
static void refHash(const std::string& s, uint64_t out[2]) {
    const uint64_t c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
    uint64_t h1 = 0, h2 = 0;
    size_t nb = s.size() / 16;
    auto rd = [&](size_t off, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= (uint64_t)(uint8_t)s[off + i] << (8 * i); return v; };
    for (size_t b = 0; b < nb; ++b) {
        uint64_t k1 = rd(b * 16, 8), k2 = rd(b * 16 + 8, 8);
        k1 *= c1; k1 = rotl(k1, 31); k1 *= c2; h1 ^= k1; h1 = rotl(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729;
        k2 *= c2; k2 = rotl(k2, 33); k2 *= c1; h2 ^= k2; h2 = rotl(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5;
    }
    size_t t = s.size() % 16;
    if (t > 8) { uint64_t k2 = rd(nb * 16 + 8, t - 8); k2 *= c2; k2 = rotl(k2, 33); k2 *= c1; h2 ^= k2; }
    if (t) { uint64_t k1 = rd(nb * 16, std::min<size_t>(t, 8)); k1 *= c1; k1 = rotl(k1, 31); k1 *= c2; h1 ^= k1; }
    h1 ^= s.size(); h2 ^= s.size(); h1 += h2; h2 += h1; h1 = fmix(h1); h2 = fmix(h2); h1 += h2; h2 += h1;
    out[0] = h1; out[1] = h2;
}
static size_t bits(BloomFilter& f) {
    size_t n = 0;
    for (size_t i = 0; i < f.size(); ++i) n += f.getBitmap().get(i);
    return n;
}

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P31", "model_checking",
                  "every small filter geometry x key sets; every set/get/export/import program on small bitmaps");
    // Geometry x key: no false negative, hash-pair form agrees with key form,
    // export/import keeps everything.
    int maxBits = chk.thorough() ? 256 : 96, maxHash = 8;
    int keys = 41 * 3;
    chk.add("geometry", (uint64_t)maxBits * maxHash, [=](uint64_t idx, mc::CaseCtx& ctx) {
        uint64_t nbits = 1 + idx / maxHash;
        uint8_t hc = 1 + idx % maxHash;
        BloomFilter all(nbits, hc);
        MC_CHECK(all.size() >= nbits && all.size() % 8 == 0 && all.size() < nbits + 8, "a filter of %llu bits has size %zu", (unsigned long long)nbits, all.size());
        MC_CHECK(bits(all) == 0, "a new filter is not empty");
        for (int k = 0; k < keys; ++k) {
            std::string s = keyOf(k);
            uint64_t hp[2] = {0, 0}, ref[2];
            MurmurHash3_x64_128(P(s), s.size(), 0, hp);
            refHash(s, ref);
            MC_CHECK(hp[0] == ref[0] && hp[1] == ref[1], "the 128-bit hash of a %zu-byte key differs from the published function", s.size());
            BloomFilter one(nbits, hc), two(nbits, hc);
            MC_CHECK(!one.check(P(s), s.size()) && !one.check(hp), "an empty filter claims to contain a key");
            one.set(P(s), s.size());
            two.set(hp);
            MC_CHECK(one.check(P(s), s.size()) && one.check(hp), "a key just set is not found (key %d, %llu bits, %d hashes)", k, (unsigned long long)nbits, hc);
            MC_CHECK(two.check(P(s), s.size()) && two.check(hp), "a key set through its hash pair is not found");
            MC_CHECK(!memcmp(one.getPtr(), two.getPtr(), one.size() / 8), "key and hash pair set different bits");
            size_t b = bits(one);
            MC_CHECK(b >= 1 && b <= hc, "one key set %zu bits with %d hashes", b, hc);
            // Positions are (h1 + i*h2) mod size: files written earlier stay readable.
            for (int i = 0; i < hc; ++i)
                MC_CHECK(one.getBitmap().get((ref[0] + (uint64_t)i * ref[1]) % one.size()), "hash function %d of key %d sets another bit", i, k);
            all.set(P(s), s.size());
            for (int j = 0; j <= k; ++j) {
                std::string s2 = keyOf(j);
                MC_CHECK(all.check(P(s2), s2.size()), "key %d is lost after adding key %d (%llu bits, %d hashes)", j, k, (unsigned long long)nbits, hc);
            }
            ctx.transitions += 3;
        }
        size_t bytes = all.size() / 8;
        for (size_t room : {bytes, bytes + 5}) {
            std::string buf(room, '\x5a');
            all.exportBitmap((void*)buf.data(), buf.size());
            MC_CHECK(!memcmp(buf.data(), all.getPtr(), bytes), "exported bitmap differs");
            for (size_t i = bytes; i < room; ++i) MC_CHECK(buf[i] == '\x5a', "export wrote past the bitmap");
            BloomFilter c((void*)buf.data(), bytes, hc);
            BloomFilter m(8, hc);
            void* raw = malloc(bytes);
            memcpy(raw, buf.data(), bytes);
            m.moveBitmapFrom(raw, bytes);
            MC_CHECK(c.size() == all.size() && m.size() == all.size(), "imported filter has another size");
            for (int k = 0; k < keys; ++k) {
                std::string s = keyOf(k), miss = keyOf(k) + "#";
                MC_CHECK(c.check(P(s), s.size()) && m.check(P(s), s.size()), "a key is lost by export/import");
                bool w = all.check(P(miss), miss.size());
                MC_CHECK(c.check(P(miss), miss.size()) == w && m.check(P(miss), miss.size()) == w, "an imported filter answers differently");
            }
        }
        ctx.observe(bits(all));
        ctx.state();
        ctx.desc = mc::fmt("filter of %llu bits, %d hashes", (unsigned long long)nbits, hc);
    });
    // Hash positions near 2^64: sums must wrap, never index outside.
    chk.add("hash-pairs", 8 * 8 * 3 * 4, [](uint64_t idx, mc::CaseCtx& ctx) {
        const uint64_t v[8] = {0, 1, 7, 8, 1ULL << 31, 1ULL << 32, 1ULL << 63, ~0ULL};
        uint64_t hp[2] = {v[idx % 8], v[idx / 8 % 8]};
        size_t nb = (size_t[]){8, 24, 1000}[idx / 64 % 3];
        uint8_t hc = (uint8_t[]){1, 3, 16, 255}[idx / 192];
        BloomFilter f(nb, hc);
        f.set(hp);
        MC_CHECK(f.check(hp), "hash pair just set is not found");
        size_t n = 0;
        std::set<uint64_t> want;
        for (int i = 0; i < hc; ++i) want.insert((hp[0] + (uint64_t)i * hp[1]) % f.size());
        for (size_t i = 0; i < f.size(); ++i) MC_CHECK(f.getBitmap().get(i) == (want.count(i) > 0), "bit %zu is wrong", i);
        ctx.observe(want.size());
        ctx.transitions += 2;
    });
    // Bitmap programs.
    int d = chk.thorough() ? 5 : 4;
    for (int nb : {1, 7, 9, 17}) {
        uint64_t k = (uint64_t)nb * 2;
        chk.add(mc::fmt("bitmap-%d", nb), mc::seqCount(k, nb > 10 ? d - 1 : d), [=](uint64_t idx, mc::CaseCtx& ctx) {
            auto seq = mc::seqDecode(idx, k, nb > 10 ? d - 1 : d);
            GenericBitmap b(nb);
            std::vector<bool> ref(nb, false);
            MC_CHECK(b.size() == (size_t)nb, "size of a bitmap of %d bits is %zu", nb, b.size());
            for (int s : seq) {
                int i = s / 2; bool v = s % 2;
                bool prev = b.set(i, v);
                MC_CHECK(prev == ref[i], "set(%d) returned %d, the bit was %d", i, (int)prev, (int)ref[i]);
                ref[i] = v;
                for (int j = 0; j < nb; ++j) MC_CHECK(b.get(j) == ref[j], "bit %d is wrong after setting bit %d", j, i);
                ctx.transitions++;
            }
            GenericBitmap c(b.getPtr(), b.getMemorySize(), nb);
            for (int j = 0; j < nb; ++j) MC_CHECK(c.get(j) == ref[j], "copy of the bitmap differs at bit %d", j);
            ctx.observe(b.getPtr(), b.getMemorySize());
            ctx.state();
        });
    }
    // The 32-bit hash used for bucket selection agrees with the published function.
    chk.add("hash32", 64, [](uint64_t idx, mc::CaseCtx& ctx) {
        for (int fill = 0; fill < 64; ++fill) {
            std::string s;
            for (uint64_t j = 0; j < idx; ++j) s += (char)(fill * 4 + j * 37);
            uint32_t got = 0;
            MurmurHash3_x86_32(P(s), s.size(), 0, &got);
            uint32_t h = 0; size_t nb = s.size() / 4;
            auto rd = [&](size_t off, size_t n) { uint32_t v = 0; for (size_t i = 0; i < n; ++i) v |= (uint32_t)(uint8_t)s[off + i] << (8 * i); return v; };
            auto r32 = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
            for (size_t b = 0; b < nb; ++b) { uint32_t k = rd(b * 4, 4); k *= 0xcc9e2d51; k = r32(k, 15); k *= 0x1b873593; h ^= k; h = r32(h, 13); h = h * 5 + 0xe6546b64; }
            if (s.size() % 4) { uint32_t k = rd(nb * 4, s.size() % 4); k *= 0xcc9e2d51; k = r32(k, 15); k *= 0x1b873593; h ^= k; }
            h ^= s.size(); h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16;
            MC_CHECK(h == got, "the 32-bit hash of %llu bytes differs from the published function", (unsigned long long)idx);
            ctx.observe(got);
            ctx.transitions++;
        }
    });
    return chk.run();
}
