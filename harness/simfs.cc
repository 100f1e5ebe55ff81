#include "simfs.h"

#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <sstream>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

namespace simfs {

struct Spin {
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    void lock() { while (f.test_and_set(std::memory_order_acquire)) {} }
    void unlock() { f.clear(std::memory_order_release); }
};
struct G {
    Spin& s;
    explicit G(Spin& x) : s(x) { s.lock(); }
    ~G() { s.unlock(); }
};

struct FD {
    InodeP node;
    std::string path;
    off_t pos = 0;
    int flags = 0;
};

static Spin g_lock;
static std::map<std::string, InodeP> g_nodes;
static std::map<int, FD> g_fds;
static int g_nextFd = 1 << 20;
static uint64_t g_nextIno = 1;
static bool g_journaling = false;
static std::vector<Op> g_journal;
static uint64_t g_mutations = 0;
static FaultHook g_fault;
static bool g_hasFault = false;

const char* opName(OpType t) {
    static const char* n[] = {"write", "truncate", "create", "mkdir", "unlink", "rename",
                              "fsync", "open", "read", "close", "stat"};
    return n[t];
}

static bool isSim(const char* p) { return p && strncmp(p, "/sim/", 5) == 0; }

static std::string norm(const char* p) {
    std::string o;
    for (; *p; ++p) {
        if (*p == '/' && !o.empty() && o.back() == '/') continue;
        o.push_back(*p);
    }
    while (o.size() > 1 && o.back() == '/') o.pop_back();
    return o;
}

static int fault(OpType t, const std::string& path, size_t* n = nullptr) {
    if (!g_hasFault) return 0;
    size_t dummy = 0;
    return g_fault(t, path, n ? n : &dummy);
}

static void log(OpType t, uint64_t ino, const std::string& path, uint64_t off = 0,
                const void* d = nullptr, size_t n = 0, const std::string& path2 = "") {
    if (t != FSYNC) ++g_mutations;
    if (!g_journaling) return;
    Op o;
    o.type = t;
    o.ino = ino;
    o.path = path;
    o.path2 = path2;
    o.off = off;
    if (n) o.data.assign((const char*)d, n);
    g_journal.push_back(std::move(o));
}

void reset() {
    G l(g_lock);
    g_nodes.clear();
    g_fds.clear();
    g_journal.clear();
    g_journaling = false;
    g_hasFault = false;
    // Inode numbers restart so that runs are reproducible.
    g_nextIno = 1;
    g_nextFd = 1 << 20;
}

Image snapshot() {
    G l(g_lock);
    Image im;
    for (auto& e : g_nodes) {
        if (e.second->dir) {
            im.dirs.push_back(e.first);
        } else {
            im.files[e.first] = e.second->data;
            im.inos[e.first] = e.second->id;
        }
    }
    return im;
}

void restore(const Image& im) {
    G l(g_lock);
    g_nodes.clear();
    g_fds.clear();
    for (auto& d : im.dirs) {
        InodeP n = std::make_shared<Inode>();
        n->id = g_nextIno++;
        n->dir = true;
        g_nodes[d] = n;
    }
    for (auto& f : im.files) {
        InodeP n = std::make_shared<Inode>();
        auto e = im.inos.find(f.first);
        n->id = e != im.inos.end() ? e->second : g_nextIno;
        if (n->id >= g_nextIno) g_nextIno = n->id + 1;
        n->data = f.second;
        n->lastPath = f.first;
        g_nodes[f.first] = n;
    }
}

size_t openCount() {
    G l(g_lock);
    return g_fds.size();
}

void journalStart() { g_journal.clear(); g_journaling = true; }
std::vector<Op>& journal() { return g_journal; }
void journalStop() { g_journaling = false; }
uint64_t mutations() { return g_mutations; }
void setFault(FaultHook h) {
    g_hasFault = (bool)h;
    g_fault = h;
}

static void applyData(std::string& c, const Op& o, size_t torn) {
    if (o.type == TRUNC) {
        c.resize(o.off, 0);
    } else {
        size_t n = std::min(torn, o.data.size());
        if (!n) return;
        if (c.size() < o.off + n) c.resize(o.off + n, 0);
        memcpy(&c[o.off], o.data.data(), n);
    }
}

std::vector<size_t> unsyncedOps(const std::vector<Op>& j, size_t upto, uint64_t ino) {
    std::vector<size_t> r;
    for (size_t i = 0; i < upto && i < j.size(); ++i) {
        if (j[i].ino != ino) continue;
        if (j[i].type == WRITE || j[i].type == TRUNC) r.push_back(i);
        else if (j[i].type == FSYNC) r.clear();
    }
    return r;
}

std::map<uint64_t, size_t> unsynced(const std::vector<Op>& j, size_t upto) {
    std::map<uint64_t, size_t> r;
    for (size_t i = 0; i < upto && i < j.size(); ++i) {
        if (j[i].type == WRITE || j[i].type == TRUNC) r[j[i].ino]++;
        else if (j[i].type == FSYNC) r.erase(j[i].ino);
    }
    return r;
}

Image applyJournal(const Image& base, const std::vector<Op>& j, const CrashChoice& c) {
    // content by inode
    std::map<uint64_t, std::string> content;
    std::map<std::string, uint64_t> names = base.inos;
    Image out;
    out.dirs = base.dirs;
    for (auto& f : base.files) content[base.inos.at(f.first)] = f.second;

    // Which data operations are dropped or torn.
    std::set<size_t> dropped;
    size_t tornIdx = (size_t)-1;
    for (auto& k : c.keep) {
        std::vector<size_t> u = unsyncedOps(j, c.upto, k.first);
        for (size_t i = k.second; i < u.size(); ++i) dropped.insert(u[i]);
    }
    if (c.tornIno) {
        std::vector<size_t> u = unsyncedOps(j, c.upto, c.tornIno);
        size_t keep = u.size();
        auto e = c.keep.find(c.tornIno);
        if (e != c.keep.end()) keep = e->second;
        if (keep && keep <= u.size()) tornIdx = u[keep - 1];
    }
    for (size_t i = 0; i < c.upto && i < j.size(); ++i) {
        const Op& o = j[i];
        switch (o.type) {
        case CREATE: names[o.path] = o.ino; content[o.ino] = ""; break;
        case MKDIR: out.dirs.push_back(o.path); break;
        case UNLINK: {
            names.erase(o.path);
            for (size_t d = 0; d < out.dirs.size(); ++d)
                if (out.dirs[d] == o.path) { out.dirs.erase(out.dirs.begin() + d); break; }
            break;
        }
        case RENAME:
            if (names.count(o.path)) { names[o.path2] = names[o.path]; names.erase(o.path); }
            break;
        case WRITE:
        case TRUNC:
            if (dropped.count(i)) break;
            applyData(content[o.ino], o, i == tornIdx ? c.tornBytes : (size_t)-1);
            break;
        default: break;
        }
    }
    for (auto& n : names) {
        out.files[n.first] = content[n.second];
        out.inos[n.first] = n.second;
    }
    return out;
}

bool exists(const std::string& path) {
    G l(g_lock);
    return g_nodes.count(path) > 0;
}
std::string content(const std::string& path) {
    G l(g_lock);
    auto e = g_nodes.find(path);
    return e == g_nodes.end() ? std::string() : e->second->data;
}
void setContent(const std::string& path, const std::string& data) {
    G l(g_lock);
    auto e = g_nodes.find(path);
    if (e == g_nodes.end()) {
        InodeP n = std::make_shared<Inode>();
        n->id = g_nextIno++;
        n->lastPath = path;
        g_nodes[path] = n;
        e = g_nodes.find(path);
    }
    e->second->data = data;
}
std::vector<std::string> list(const std::string& prefix) {
    G l(g_lock);
    std::vector<std::string> r;
    for (auto& e : g_nodes)
        if (e.first.compare(0, prefix.size(), prefix) == 0 && !e.second->dir) r.push_back(e.first);
    return r;
}
void removeTree(const std::string& prefix) {
    G l(g_lock);
    for (auto it = g_nodes.begin(); it != g_nodes.end();) {
        if (it->first == prefix || it->first.compare(0, prefix.size() + 1, prefix + "/") == 0) {
            log(UNLINK, it->second->id, it->first);
            it = g_nodes.erase(it);
        } else {
            ++it;
        }
    }
}

static std::string parentOf(const std::string& p) {
    size_t i = p.rfind('/');
    return p.substr(0, i);
}
static bool parentOk(const std::string& p) {
    std::string d = parentOf(p);
    if (d == "/sim") return true;
    auto e = g_nodes.find(d);
    return e != g_nodes.end() && e->second->dir;
}

static int doOpen(const char* path, int flags) {
    G l(g_lock);
    std::string p = norm(path);
    int f = fault(OPEN, p);
    if (f) { errno = f; return -1; }
    auto e = g_nodes.find(p);
    InodeP n;
    if (e == g_nodes.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (!parentOk(p)) { errno = ENOENT; return -1; }
        f = fault(CREATE, p);
        if (f) { errno = f; return -1; }
        n = std::make_shared<Inode>();
        n->id = g_nextIno++;
        n->lastPath = p;
        g_nodes[p] = n;
        log(CREATE, n->id, p);
    } else {
        n = e->second;
        if (n->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) { errno = EEXIST; return -1; }
        if (flags & O_TRUNC) {
            n->data.clear();
            log(TRUNC, n->id, p, 0);
        }
    }
    int fd = g_nextFd++;
    FD d;
    d.node = n;
    d.path = p;
    d.flags = flags;
    g_fds[fd] = d;
    return fd;
}

static FD* getFd(int fd) {
    auto e = g_fds.find(fd);
    return e == g_fds.end() ? nullptr : &e->second;
}
size_t directAlign = 512;
static bool simFd(int fd) { return fd >= (1 << 20); }

static bool directOk(FD* d, const void* buf, size_t n, off_t off) {
    if (!(d->flags & O_DIRECT)) return true;
    return ((uintptr_t)buf % directAlign == 0) && (n % directAlign == 0) && (off % directAlign == 0);
}

static ssize_t doPread(int fd, void* buf, size_t n, off_t off, bool usePos) {
    G l(g_lock);
    FD* d = getFd(fd);
    if (!d) { errno = EBADF; return -1; }
    if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (usePos) off = d->pos;
    if (off < 0 || !directOk(d, buf, n, off)) { errno = EINVAL; return -1; }
    size_t len = n;
    int f = fault(READ, d->path, &len);
    if (f) { errno = f; return -1; }
    const std::string& c = d->node->data;
    if ((size_t)off >= c.size()) return 0;
    size_t m = std::min(len, c.size() - (size_t)off);
    memcpy(buf, c.data() + off, m);
    if (usePos) d->pos += m;
    return m;
}

static ssize_t doPwrite(int fd, const void* buf, size_t n, off_t off, bool usePos) {
    G l(g_lock);
    FD* d = getFd(fd);
    if (!d) { errno = EBADF; return -1; }
    if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (usePos) off = (d->flags & O_APPEND) ? (off_t)d->node->data.size() : d->pos;
    if (off < 0 || !directOk(d, buf, n, off)) { errno = EINVAL; return -1; }
    size_t len = n;
    int f = fault(WRITE, d->path, &len);
    if (f) { errno = f; return -1; }
    std::string& c = d->node->data;
    if (len && c.size() < (size_t)off + len) c.resize(off + len, 0);
    if (len) memcpy(&c[off], buf, len);
    log(WRITE, d->node->id, d->path, off, buf, len);
    if (usePos) d->pos = off + len;
    return len;
}

static void fillStat(struct stat* st, const InodeP& n) {
    memset(st, 0, sizeof(*st));
    st->st_ino = n->id;
    st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = n->data.size();
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_blocks = (n->data.size() + 511) / 512;
}

struct SimDir {
    uint64_t magic;
    std::vector<std::string> names;
    std::vector<bool> dirs;
    size_t pos;
    struct dirent ent;
};
static std::set<void*> g_dirs;

static int rmPath(const std::string& p, bool dirOnly, bool fileOnly) {
    auto e = g_nodes.find(p);
    if (e == g_nodes.end()) { errno = ENOENT; return -1; }
    int f = fault(UNLINK, p);
    if (f) { errno = f; return -1; }
    if (e->second->dir) {
        if (fileOnly) { errno = EISDIR; return -1; }
        auto nx = std::next(e);
        if (nx != g_nodes.end() && nx->first.compare(0, p.size() + 1, p + "/") == 0) {
            errno = ENOTEMPTY;
            return -1;
        }
    } else if (dirOnly) {
        errno = ENOTDIR;
        return -1;
    }
    log(UNLINK, e->second->id, p);
    g_nodes.erase(e);
    return 0;
}

static int doRename(const std::string& a, const std::string& b) {
    auto e = g_nodes.find(a);
    if (e == g_nodes.end()) { errno = ENOENT; return -1; }
    InodeP n = e->second;
    g_nodes.erase(e);
    if (n->dir) {
        std::vector<std::pair<std::string, InodeP>> mv;
        for (auto it = g_nodes.lower_bound(a + "/");
             it != g_nodes.end() && it->first.compare(0, a.size() + 1, a + "/") == 0;) {
            mv.push_back({b + it->first.substr(a.size()), it->second});
            log(RENAME, it->second->id, it->first, 0, nullptr, 0, mv.back().first);
            it = g_nodes.erase(it);
        }
        for (auto& m : mv) g_nodes[m.first] = m.second;
    }
    g_nodes[b] = n;
    log(RENAME, n->id, a, 0, nullptr, 0, b);
    return 0;
}

// cp -R / mv / rm -rf as issued by the code under test through the shell.
static int shell(const std::string& cmd) {
    G l(g_lock);
    std::istringstream ss(cmd);
    std::vector<std::string> w;
    std::string x;
    while (ss >> x) {
        if (x == "2>" || x == ">") { ss >> x; continue; }
        w.push_back(x);
    }
    std::string verb = w.empty() ? "" : w[0];
    std::vector<std::string> args;
    for (size_t i = 1; i < w.size(); ++i)
        if (w[i][0] != '-') args.push_back(norm(w[i].c_str()));
    if (verb == "rm") {
        for (auto& a : args) {
            for (auto it = g_nodes.lower_bound(a); it != g_nodes.end();) {
                if (it->first == a || it->first.compare(0, a.size() + 1, a + "/") == 0) {
                    log(UNLINK, it->second->id, it->first);
                    it = g_nodes.erase(it);
                } else if (it->first.compare(0, a.size(), a) != 0) {
                    break;
                } else {
                    ++it;
                }
            }
        }
        return 0;
    }
    if (verb == "cp" && args.size() == 2) {
        std::string to = args[1];
        auto t = g_nodes.find(to);
        if (t != g_nodes.end() && t->second->dir) to += args[0].substr(args[0].rfind('/'));
        std::vector<std::pair<std::string, InodeP>> add;
        for (auto& e : g_nodes) {
            if (e.first == args[0]) add.push_back({to, e.second});
            else if (e.first.compare(0, args[0].size() + 1, args[0] + "/") == 0)
                add.push_back({to + e.first.substr(args[0].size()), e.second});
        }
        if (add.empty()) return 256;
        for (auto& a : add) {
            InodeP n = std::make_shared<Inode>();
            n->id = g_nextIno++;
            n->dir = a.second->dir;
            n->data = a.second->data;
            n->lastPath = a.first;
            if (n->dir) log(MKDIR, n->id, a.first); else {
                log(CREATE, n->id, a.first);
                log(WRITE, n->id, a.first, 0, n->data.data(), n->data.size());
            }
            g_nodes[a.first] = n;
        }
        return 0;
    }
    if (verb == "mv" && args.size() == 2) {
        std::string to = args[1];
        auto t = g_nodes.find(to);
        if (t != g_nodes.end() && t->second->dir) to += args[0].substr(args[0].rfind('/'));
        return doRename(args[0], to) == 0 ? 0 : 256;
    }
    fprintf(stderr, "simfs: unsupported shell command: %s\n", cmd.c_str());
    return 256;
}

} // namespace simfs

using namespace simfs;

extern "C" {
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pwrite64(int, const void*, size_t, off_t);
off_t __real_lseek(int, off_t, int);
off_t __real_lseek64(int, off_t, int);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off_t);
int __real_stat(const char*, struct stat*);
int __real_fstat(int, struct stat*);
int __real_lstat(const char*, struct stat*);
int __real_access(const char*, int);
int __real_mkdir(const char*, mode_t);
int __real_rmdir(const char*);
int __real_unlink(const char*);
int __real_remove(const char*);
int __real_rename(const char*, const char*);
DIR* __real_opendir(const char*);
struct dirent* __real_readdir(DIR*);
int __real_closedir(DIR*);
int __real_system(const char*);
FILE* __real_popen(const char*, const char*);
int __real_pclose(FILE*);

int __wrap_open(const char* p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (isSim(p)) return doOpen(p, flags);
    return __real_open(p, flags, mode);
}
int __wrap_open64(const char* p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (isSim(p)) return doOpen(p, flags);
    return __real_open64(p, flags, mode);
}
int __wrap_close(int fd) {
    if (!simFd(fd)) return __real_close(fd);
    G l(g_lock);
    FD* d = getFd(fd);
    if (!d) { errno = EBADF; return -1; }
    int f = fault(CLOSE, d->path);
    g_fds.erase(fd);
    if (f) { errno = f; return -1; }
    return 0;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
    return simFd(fd) ? doPread(fd, b, n, 0, true) : __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    return simFd(fd) ? doPwrite(fd, b, n, 0, true) : __real_write(fd, b, n);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    return simFd(fd) ? doPread(fd, b, n, o, false) : __real_pread(fd, b, n, o);
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) {
    return simFd(fd) ? doPread(fd, b, n, o, false) : __real_pread64(fd, b, n, o);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
    return simFd(fd) ? doPwrite(fd, b, n, o, false) : __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) {
    return simFd(fd) ? doPwrite(fd, b, n, o, false) : __real_pwrite64(fd, b, n, o);
}
static off_t simSeek(int fd, off_t o, int wh) {
    G l(g_lock);
    FD* d = getFd(fd);
    if (!d) { errno = EBADF; return -1; }
    if (wh == SEEK_SET) d->pos = o;
    else if (wh == SEEK_CUR) d->pos += o;
    else d->pos = d->node->data.size() + o;
    return d->pos;
}
off_t __wrap_lseek(int fd, off_t o, int wh) { return simFd(fd) ? simSeek(fd, o, wh) : __real_lseek(fd, o, wh); }
off_t __wrap_lseek64(int fd, off_t o, int wh) { return simFd(fd) ? simSeek(fd, o, wh) : __real_lseek64(fd, o, wh); }
static int simSync(int fd) {
    G l(g_lock);
    FD* d = getFd(fd);
    if (!d) { errno = EBADF; return -1; }
    int f = fault(FSYNC, d->path);
    if (f) { errno = f; return -1; }
    log(FSYNC, d->node->id, d->path);
    return 0;
}
int __wrap_fsync(int fd) { return simFd(fd) ? simSync(fd) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return simFd(fd) ? simSync(fd) : __real_fdatasync(fd); }
static int simTrunc(int fd, off_t n) {
    G l(g_lock);
    FD* d = getFd(fd);
    if (!d) { errno = EBADF; return -1; }
    if (n < 0 || (d->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    int f = fault(TRUNC, d->path);
    if (f) { errno = f; return -1; }
    d->node->data.resize(n, 0);
    log(TRUNC, d->node->id, d->path, n);
    return 0;
}
int __wrap_ftruncate(int fd, off_t n) { return simFd(fd) ? simTrunc(fd, n) : __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return simFd(fd) ? simTrunc(fd, n) : __real_ftruncate64(fd, n); }
static int simStat(const char* p, struct stat* st) {
    G l(g_lock);
    std::string s = norm(p);
    int f = fault(STAT, s);
    if (f) { errno = f; return -1; }
    auto e = g_nodes.find(s);
    if (e == g_nodes.end()) { errno = ENOENT; return -1; }
    fillStat(st, e->second);
    return 0;
}
int __wrap_stat(const char* p, struct stat* st) { return isSim(p) ? simStat(p, st) : __real_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { return isSim(p) ? simStat(p, st) : __real_lstat(p, st); }
int __wrap_fstat(int fd, struct stat* st) {
    if (!simFd(fd)) return __real_fstat(fd, st);
    G l(g_lock);
    FD* d = getFd(fd);
    if (!d) { errno = EBADF; return -1; }
    fillStat(st, d->node);
    return 0;
}
int __wrap_access(const char* p, int m) {
    if (!isSim(p)) return __real_access(p, m);
    struct stat st;
    return simStat(p, &st);
}
int __wrap_mkdir(const char* p, mode_t m) {
    if (!isSim(p)) return __real_mkdir(p, m);
    G l(g_lock);
    std::string s = norm(p);
    int f = fault(MKDIR, s);
    if (f) { errno = f; return -1; }
    if (g_nodes.count(s)) { errno = EEXIST; return -1; }
    if (!parentOk(s)) { errno = ENOENT; return -1; }
    InodeP n = std::make_shared<Inode>();
    n->id = g_nextIno++;
    n->dir = true;
    g_nodes[s] = n;
    log(MKDIR, n->id, s);
    return 0;
}
int __wrap_rmdir(const char* p) {
    if (!isSim(p)) return __real_rmdir(p);
    G l(g_lock);
    return rmPath(norm(p), true, false);
}
int __wrap_unlink(const char* p) {
    if (!isSim(p)) return __real_unlink(p);
    G l(g_lock);
    return rmPath(norm(p), false, true);
}
int __wrap_remove(const char* p) {
    if (!isSim(p)) return __real_remove(p);
    G l(g_lock);
    return rmPath(norm(p), false, false);
}
int __wrap_rename(const char* a, const char* b) {
    if (!isSim(a)) return __real_rename(a, b);
    G l(g_lock);
    int f = fault(RENAME, norm(a));
    if (f) { errno = f; return -1; }
    return doRename(norm(a), norm(b));
}
DIR* __wrap_opendir(const char* p) {
    if (!isSim(p)) return __real_opendir(p);
    G l(g_lock);
    std::string s = norm(p);
    auto e = g_nodes.find(s);
    if (e == g_nodes.end() || !e->second->dir) { errno = ENOENT; return nullptr; }
    SimDir* d = new SimDir();
    d->pos = 0;
    for (auto it = g_nodes.lower_bound(s + "/");
         it != g_nodes.end() && it->first.compare(0, s.size() + 1, s + "/") == 0; ++it) {
        std::string r = it->first.substr(s.size() + 1);
        if (r.find('/') != std::string::npos) continue;
        d->names.push_back(r);
        d->dirs.push_back(it->second->dir);
    }
    g_dirs.insert(d);
    return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* dp) {
    {
        G l(g_lock);
        if (g_dirs.count(dp)) {
            SimDir* d = (SimDir*)dp;
            if (d->pos >= d->names.size()) return nullptr;
            memset(&d->ent, 0, sizeof(d->ent));
            snprintf(d->ent.d_name, sizeof(d->ent.d_name), "%s", d->names[d->pos].c_str());
            d->ent.d_type = d->dirs[d->pos] ? DT_DIR : DT_REG;
            d->ent.d_ino = d->pos + 1;
            d->pos++;
            return &d->ent;
        }
    }
    return __real_readdir(dp);
}
struct dirent* __wrap_readdir64(DIR* dp) { return __wrap_readdir(dp); }
int __wrap_closedir(DIR* dp) {
    {
        G l(g_lock);
        if (g_dirs.count(dp)) {
            g_dirs.erase(dp);
            delete (SimDir*)dp;
            return 0;
        }
    }
    return __real_closedir(dp);
}
int __wrap_system(const char* c) {
    if (c && strstr(c, "/sim/")) return shell(c);
    fprintf(stderr, "simfs: blocked shell command: %s\n", c ? c : "(null)");
    return 256;
}
static char g_popenMark;
FILE* __wrap_popen(const char* c, const char*) {
    static thread_local int rc;
    if (c && strstr(c, "/sim/")) { rc = shell(c); g_popenMark = (char)(rc ? 1 : 0); return (FILE*)&g_popenMark; }
    fprintf(stderr, "simfs: blocked shell command: %s\n", c ? c : "(null)");
    g_popenMark = 1;
    return (FILE*)&g_popenMark;
}
int __wrap_pclose(FILE* f) {
    if (f == (FILE*)&g_popenMark) return g_popenMark ? 256 : 0;
    return __real_pclose(f);
}
}
