// Small helpers of the demonstrations.
#pragma once
#include <libjungle/jungle.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <functional>
using namespace jungle;
#define REQ(c, ...) do { if (!(c)) { fprintf(stderr, "FAILED %s:%d  %s  ", __FILE__, __LINE__, #c); \
    fprintf(stderr, "" __VA_ARGS__); fprintf(stderr, "\n"); fflush(nullptr); _Exit(1); } } while (0)
#define OKAY(x) do { Status s_ = (x); REQ(s_.ok(), "status %s", s_.toString().c_str()); } while (0)
static inline void initJungle() {
    GlobalConfig g;
    g.numFlusherThreads = 0;
    g.numCompactorThreads = 0;
    g.numTableWriters = 0;
    g.fdbCacheSize = 0;
    g.shutdownLogger = false;
    OKAY(jungle::init(g));
}
static inline DBConfig conf(int partitions = 1, int logEntries = 8) {
    DBConfig c;
    c.numL0Partitions = partitions;
    c.maxEntriesInLogFile = logEntries;
    c.allowLogging = false;
    c.minFileSizeToCompact = 1;
    c.minNumTablesPerLevel = 2;
    c.maxParallelWritesPerJob = 1;
    return c;
}
static inline std::string str(const SizedBuf& b) { return std::string((const char*)b.data, b.size); }
static inline std::string get(DB* db, const std::string& k) {
    SizedBuf v;
    Status s = db->get(SizedBuf(k), v);
    if (!s) return "<" + s.toString() + ">";
    std::string r = str(v);
    v.free();
    return r;
}
static inline void put(DB* db, const std::string& k, const std::string& v) { OKAY(db->set(KV(k, v))); }
