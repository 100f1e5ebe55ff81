prop='P31'
kind='unit'; srcs=['bloomfilter.cc','murmurhash3.cc']
edits=[('src/bloomfilter.cc','    bitmap.moveFrom(data, len, len * 8);\n','    bitmap.moveFrom(data, len, (len / 8) * 64);\n')]
needs='a filter whose bitmap length is not a multiple of 8 bytes, exported and loaded back with moveBitmapFrom'
breaks='a loaded Bloom filter uses another modulus than the one it was built with: false negatives'
demo=r'''#include "demo.h"
#include "bloomfilter.h"
int main() {
    for (size_t bits : {64, 128, 200, 256, 1000}) {
        BloomFilter a(bits, 3);
        for (int i = 0; i < 10; ++i) { std::string k = "key" + std::to_string(i); a.set((void*)k.data(), k.size()); }
        size_t len = a.size() / 8;
        void* p = malloc(len);
        a.exportBitmap(p, len);
        BloomFilter b(8, 3);
        b.moveBitmapFrom(p, len);
        for (int i = 0; i < 10; ++i) { std::string k = "key" + std::to_string(i);
            REQ(b.check((void*)k.data(), k.size()), "bits %zu key %d", bits, i); }
    }
    return 0;
}
'''
