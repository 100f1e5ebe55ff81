prop='P34'
kind='unit'; srcs=['fileops_directio.cc','internal_helper.cc','crc32.cc']
edits=[('src/fileops_directio.cc','        phandle->flushedFilePos = length;\n','        phandle->flushedFilePos = aligned_length;\n')]
needs='truncate a direct-I/O file to an unaligned length, append a little within the same block, flush'
breaks='the flush after the append is skipped as a duplicate, the appended bytes are lost'
demo=r'''#include "demo.h"
#include "fileops_directio.h"
int main() {
    FileOpsDirectIO ops(nullptr, 16384, 512);
    FileHandle* h = nullptr;
    if (!ops.open(&h, "f", FileOps::NORMAL).ok()) return 0;    // not supported by this file system
    std::string a(1000, 'a'), b(100, 'b');
    OKAY(ops.append(h, a.data(), a.size()));
    OKAY(ops.flush(h));
    OKAY(ops.ftruncate(h, 600));
    OKAY(ops.append(h, b.data(), b.size()));
    OKAY(ops.flush(h));
    std::string buf(700, 0);
    OKAY(ops.pread(h, &buf[0], 700, 0));
    REQ(buf == std::string(600, 'a') + b);
    OKAY(ops.close(h)); delete h;
    return 0;
}
'''
