prop='P32'
kind='unit'; srcs=['crc32.cc']
edits=[('src/crc32.cc','    size_t min = MIN(len, 8);\n','    size_t min = (len < 16) ? MIN(len, 8) : 16;\n')]
needs='crc32_8_last8 on a buffer of 16 bytes or more'
breaks='crc32_8_last8 covers the last 16 bytes instead of 8'
demo=r'''#include "demo.h"
#include "crc32.h"
int main() {
    unsigned char b[64];
    for (int i = 0; i < 64; ++i) b[i] = i * 37 + 5;
    for (size_t n = 0; n <= 64; ++n) {
        size_t m = n < 8 ? n : 8;
        REQ(crc32_8_last8(b, n, 0) == crc32_8(b + n - m, m, 0), "%zu", n);
    }
    return 0;
}
'''
