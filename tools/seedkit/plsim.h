// Power-loss image: a copy of the directory in which every file has the bytes
// it had at its last fsync (never-synced files are empty).
#pragma once
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include <set>
namespace pl {
static std::string live, img;
static bool on = false;
static inline void copyFile(const std::string& from, const std::string& to) {
    FILE* a = fopen(from.c_str(), "rb");
    if (!a) return;
    FILE* b = fopen(to.c_str(), "wb");
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), a)) > 0) fwrite(buf, 1, n, b);
    fclose(a);
    fclose(b);
}
static inline void start(const std::string& l, const std::string& i) {
    live = l; img = i;
    ::mkdir(live.c_str(), 0755); ::mkdir(img.c_str(), 0755);
    char r[PATH_MAX];
    if (realpath(live.c_str(), r)) live = r;
    if (realpath(img.c_str(), r)) img = r;
    on = true;
}
static inline void synced(int fd) {
    if (!on) return;
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof(p) - 1);
    if (n <= 0) return;
    p[n] = 0;
    std::string s(p);
    if (s.compare(0, live.size() + 1, live + "/")) return;
    copyFile(s, img + s.substr(live.size()));
}
// The power goes off: adds the empty files, removes the removed ones.
static inline void finish() {
    on = false;
    std::set<std::string> have;
    DIR* d = opendir(live.c_str());
    while (dirent* e = readdir(d)) have.insert(e->d_name);
    closedir(d);
    for (auto& f : have) {
        if (f[0] == '.') continue;
        std::string t = img + "/" + f;
        if (access(t.c_str(), F_OK)) close(open(t.c_str(), O_CREAT | O_WRONLY, 0644));
    }
    std::set<std::string> gone;
    d = opendir(img.c_str());
    while (dirent* e = readdir(d)) if (!have.count(e->d_name)) gone.insert(e->d_name);
    closedir(d);
    for (auto& f : gone) unlink((img + "/" + f).c_str());
}
}
extern "C" int fsync(int fd) {
    static int (*real)(int) = (int (*)(int))dlsym(RTLD_NEXT, "fsync");
    int r = real(fd);
    if (!r) pl::synced(fd);
    return r;
}
extern "C" int fdatasync(int fd) {
    static int (*real)(int) = (int (*)(int))dlsym(RTLD_NEXT, "fdatasync");
    int r = real(fd);
    if (!r) pl::synced(fd);
    return r;
}
