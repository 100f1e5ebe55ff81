// In-memory file system behind libc's file calls (linked with -Wl,--wrap=...).
// Paths under /sim/ live here; everything else goes to the real libc.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdint.h>
#include <string>
#include <vector>

namespace simfs {

enum OpType { WRITE, TRUNC, CREATE, MKDIR, UNLINK, RENAME, FSYNC, OPEN, READ, CLOSE, STAT };
const char* opName(OpType t);

struct Op {
    OpType type;
    uint64_t ino;
    std::string path, path2;
    uint64_t off;           // also the new length for TRUNC
    std::string data;
};

struct Inode {
    uint64_t id;
    bool dir = false;
    std::string data;
    std::string lastPath;
    int links = 1;
};
typedef std::shared_ptr<Inode> InodeP;

// A whole file system image (deep copy).
struct Image {
    std::map<std::string, std::string> files;   // path -> content
    std::map<std::string, uint64_t> inos;
    std::vector<std::string> dirs;
};

void reset();                       // drop everything; open descriptors become invalid
Image snapshot();
void restore(const Image& im);      // replaces the content of the file system
size_t openCount();                 // descriptors currently open

// Journal of mutating operations (and fsyncs).
void journalStart();
std::vector<Op>& journal();
void journalStop();
uint64_t mutations();               // mutating calls since process start

// Fault injection: called before every operation on a /sim/ path.  Return 0 to
// proceed, or an errno to fail; *shortLen may be lowered for READ/WRITE.
typedef std::function<int(OpType t, const std::string& path, size_t* shortLen)> FaultHook;
void setFault(FaultHook h);

// Rebuild an image: `base` + the journal prefix [0, upto), where per-inode
// `keep` (ino -> number of trailing unsynced data operations dropped) ...
struct CrashChoice {
    size_t upto;                       // operations [0, upto) were issued
    // For every inode with unsynced WRITE/TRUNC operations: how many of them
    // (in order) survived.  Missing entry: all survive.
    std::map<uint64_t, size_t> keep;
    // The last surviving write of this inode is torn at this many bytes.
    uint64_t tornIno = 0;
    size_t tornBytes = 0;
};
Image applyJournal(const Image& base, const std::vector<Op>& j, const CrashChoice& c);
// Number of unsynced data operations per inode at point `upto`.
std::map<uint64_t, size_t> unsynced(const std::vector<Op>& j, size_t upto);
std::vector<size_t> unsyncedOps(const std::vector<Op>& j, size_t upto, uint64_t ino);

extern size_t directAlign;            // alignment demanded of O_DIRECT transfers (512)

bool exists(const std::string& path);
std::string content(const std::string& path);
void setContent(const std::string& path, const std::string& data);
std::vector<std::string> list(const std::string& prefix);
void removeTree(const std::string& prefix);

} // namespace simfs
