// Whole-database harness: drives the real library through its public API on the
// in-memory file system, next to a reference model (the history of all records
// ever accepted, in sequence order).
#pragma once
#include "mc.h"
#include "simfs.h"
#include "simrt.h"

#include <libjungle/jungle.h>

#include <functional>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

extern "C" void fdbsim_reset();

namespace dbh {
using namespace jungle;

struct MRec {
    uint64_t seq = 0;
    int type = 0;               // Record::Type
    std::string key, val, meta;
};

typedef std::map<std::string, MRec> View;      // key -> latest record (tombstones included)

struct Snap {
    DB* db = nullptr;
    View view;
    uint64_t chk = 0;          // 0: latest
    uint64_t upto = 0;         // last sequence number visible
};

extern const GlobalConfig& gcfg();
void initEngine();                         // once per worker process
void initEngine(const GlobalConfig& g);
void freshWorld();                         // reset fs, clock, fdb stand-in

std::string sb2s(const SizedBuf& b);

class World {
public:
    explicit World(mc::CaseCtx& c) : ctx(c) {}
    ~World();

    mc::CaseCtx& ctx;
    std::string path = "/sim/db";
    DBConfig cfg;
    DB* db = nullptr;

    // ---- model
    std::vector<MRec> hist;
    uint64_t maxSeq = 0;                   // last sequence number ever used
    uint64_t syncedSeq = 0, flushedSeq = 0;
    uint64_t durableSeq = 0;               // last number promised to survive a power loss
    std::vector<uint64_t> chks;
    std::set<std::string> universe;        // keys used so far
    std::vector<Snap> snaps;
    uint64_t valCounter = 0;
    bool logOnly = false;
    std::map<std::string, int> extra;      // per-check scratch

    // ---- lifecycle
    void open();
    void close();
    void reopen() { close(); open(); }

    // ---- mutations (asserting OK)
    std::string nextVal(const std::string& k);
    void set(const std::string& k);
    void setv(const std::string& k, const std::string& v);
    void del(const std::string& k);
    // with explicit sequence number (0: auto) and metadata
    void put(const std::string& k, const std::string& v, const std::string& meta, int type,
             uint64_t seq = 0);
    void batch(const std::vector<MRec>& recs);     // atomic batch, automatic seqnums
    void sync(bool fsync = true);
    // flush everything that is synced; returns status value
    int flush(FlushOptions o = FlushOptions(), uint64_t upto = (uint64_t)-1);
    void syncFlush() { sync(); flush(); }
    uint64_t checkpoint();
    int compactL0(int part, CompactOptions o = CompactOptions());
    void compactL0All(CompactOptions o = CompactOptions());
    int compactLevel(size_t lv, CompactOptions o = CompactOptions());
    int compactInplace(size_t lv, CompactOptions o = CompactOptions());
    int split(size_t lv);
    int merge(size_t lv);
    void openSnap(uint64_t chk = 0);
    void closeSnap(size_t i = 0);

    // ---- views
    View viewAt(uint64_t seq) const;
    View view() const { return viewAt((uint64_t)-1); }

    // ---- verification
    void checkGets(DB* d, const View& v, const char* what = "db");
    void checkKeyIter(DB* d, const View& v, const char* what = "db");
    void checkKeyIterRange(DB* d, const View& v, const std::string& s, const std::string& e,
                           const char* what = "db");
    void checkSeqNums();
    void checkNearest(DB* d, const View& v, const char* what = "db");
    void checkPrefix(DB* d, const View& v, const char* what = "db");
    void checkSnaps(bool deep = true);
    void checkAll(bool deep = true);
    // Every record observed by a full scan.
    std::vector<MRec> scan(DB* d, bool forward = true, const std::string& s = "", const std::string& e = "");

    void observeState();                   // hash of logical + physical state
    // key order used by the configured comparator
    std::function<bool(const std::string&, const std::string&)> less =
        [](const std::string& a, const std::string& b) { return a < b; };
    std::vector<std::string> extraProbes;  // keys probed by verification besides universe
    std::vector<std::string> sortedLive(const View& v) const;
};

struct OpDef {
    std::string name;
    std::function<void(World&)> fn;
};
typedef std::vector<OpDef> Ops;

struct Prune {};                           // thrown by an op that is a no-op here

// Adds the space of all sequences (length in [minLen, maxLen]) over `ops`.
void addSeqSpace(mc::Check& chk, const std::string& name, const Ops& ops, int maxLen,
                 std::function<void(World&)> setup,        // config + open + fixture
                 std::function<void(World&)> verify, int minLen = 1,
                 std::function<bool(const std::vector<int>&)> keep = nullptr);

// A default configuration suitable for deterministic exploration.
DBConfig baseConfig(int partitions = 1, int logEntries = 16384);

#define OKS(expr)                                                                      \
    do {                                                                               \
        jungle::Status _s = (expr);                                                    \
        MC_CHECK(_s.ok(), "%s returned %s", #expr, _s.toString().c_str());             \
    } while (0)

} // namespace dbh
