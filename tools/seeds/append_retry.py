prop='P33'
kind='unit'; srcs=['fileops_posix.cc','fileops_directio.cc','internal_helper.cc','crc32.cc']
edits=[('src/fileops_posix.cc','''    off_t offset = ::lseek(phandle->fd, 0, SEEK_END);
    do {
        r = ::pwrite(phandle->fd, buf, count, offset);
''','''    do {
        off_t offset = ::lseek(phandle->fd, 0, SEEK_END);
        r = ::pwrite(phandle->fd, buf, count, offset);
''')]
needs='a short write during an append, followed by the retry'
breaks='after a short write the retried append duplicates the part already written'
demo=r'''#include "demo.h"
#include "fileops_posix.h"
#include <dlfcn.h>
#include <unistd.h>
static int shorts = 0;
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    static auto real = (ssize_t (*)(int, const void*, size_t, off_t))dlsym(RTLD_NEXT, "pwrite");
    if (shorts) { shorts--; n /= 2; }
    return real(fd, b, n, o);
}
extern "C" ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
int main() {
    FileOpsPosix ops;
    FileHandle* h = nullptr;
    OKAY(ops.open(&h, "f", FileOps::NORMAL));
    OKAY(ops.append(h, "0123456789", 10));
    shorts = 1;
    OKAY(ops.append(h, "abcdefghij", 10));
    REQ(ops.eof(h) == 20, "size %ld", (long)ops.eof(h));
    char b[21] = {};
    OKAY(ops.pread(h, b, 20, 0));
    REQ(!strcmp(b, "0123456789abcdefghij"), "%s", b);
    OKAY(ops.close(h)); delete h;
    return 0;
}
'''
