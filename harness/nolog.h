// No-op replacement for the logger, selected through the build's LOGGER_H
// define.  Arguments are type checked but never evaluated.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <functional>
#include <list>
#include <mutex>
#include <ostream>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/time.h>

class SimpleLogger {
public:
    enum Levels { SYS = 0, FATAL = 1, ERROR = 2, WARNING = 3, INFO = 4, DEBUG = 5, TRACE = 6, UNKNOWN = 99 };
    struct EndOfStmt {
        EndOfStmt() {}
        template <typename T> EndOfStmt& operator=(const T&) { return *this; }
        template <typename T> EndOfStmt& operator=(T&&) { return *this; }
    };
    struct LoggerStream : std::ostringstream {};
    SimpleLogger(const std::string&, size_t = 4096, uint64_t = 0, uint32_t = 0) : lv(4) {}
    static void setCriticalInfo(const std::string&) {}
    static void setCrashDumpPath(const std::string&, bool = true) {}
    static void setStackTraceOriginOnly(bool = true) {}
    static void logStackBacktrace() {}
    static void shutdown() {}
    int start() { return 0; }
    int stop() { return 0; }
    bool traceAllowed() const { return false; }
    bool debugAllowed() const { return false; }
    bool checkWhetherToLog(int, const char*, const char*, size_t) { return false; }
    void setLogLevel(int l) { lv = l; }
    void setDispLevel(int) {}
    int getLogLevel() const { return lv; }
    int getDispLevel() const { return -1; }
    void put(int, const char*, const char*, size_t, const char*, ...) {}
    void flush(size_t) {}
    LoggerStream stream(int, SimpleLogger*, const char*, const char*, size_t) { return LoggerStream(); }
    EndOfStmt eos() { return EndOfStmt(); }
private:
    int lv;
};

class SimpleLoggerMgr {
public:
    struct TimeInfo {
        TimeInfo(std::chrono::system_clock::time_point) : year(0), month(0), day(0), hour(1), min(0), sec(0), msec(0), usec(0) {}
        int year, month, day, hour, min, sec, msec, usec;
    };
    static SimpleLoggerMgr* init() { return nullptr; }
    static SimpleLoggerMgr* get() { return nullptr; }
    static SimpleLoggerMgr* getWithoutInit() { return nullptr; }
    static void destroy() {}
    static int getTzGap() { return 0; }
    static void logStackBacktrace(size_t = 0) {}
    void setCriticalInfo(const std::string&) {}
};

#define _log_(level, l, ...) \
    do { if (false) (l)->put(level, __FILE__, __func__, __LINE__, __VA_ARGS__); } while (0)
#define _log_sys(l, ...)    _log_(SimpleLogger::SYS,     l, __VA_ARGS__)
#define _log_fatal(l, ...)  _log_(SimpleLogger::FATAL,   l, __VA_ARGS__)
#define _log_err(l, ...)    _log_(SimpleLogger::ERROR,   l, __VA_ARGS__)
#define _log_warn(l, ...)   _log_(SimpleLogger::WARNING, l, __VA_ARGS__)
#define _log_info(l, ...)   _log_(SimpleLogger::INFO,    l, __VA_ARGS__)
#define _log_debug(l, ...)  _log_(SimpleLogger::DEBUG,   l, __VA_ARGS__)
#define _log_trace(l, ...)  _log_(SimpleLogger::TRACE,   l, __VA_ARGS__)
#define _stream_(level, l)  if (false) std::ostringstream()
#define _s_sys(l)   _stream_(0, l)
#define _s_fatal(l) _stream_(1, l)
#define _s_err(l)   _stream_(2, l)
#define _s_warn(l)  _stream_(3, l)
#define _s_info(l)  _stream_(4, l)
#define _s_debug(l) _stream_(5, l)
#define _s_trace(l) _stream_(6, l)
#define _timed_log_g(l, interval_ms, lv1, lv2, ...) { if (false) (l)->put(lv1, "", "", 0, __VA_ARGS__); }
#define _timed_log_t(l, interval_ms, lv1, lv2, ...) { if (false) (l)->put(lv1, "", "", 0, __VA_ARGS__); }
