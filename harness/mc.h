// Exhaustive-enumeration driver.  A check declares finite, indexed spaces of
// cases; every index in [0,size) is executed on the real code, in parallel
// worker processes, and judged by an oracle inside the case function.
#pragma once
#include <functional>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>

namespace mc {

// Thrown by CHECK: the property is violated by the current case.
struct Violation {
    std::string msg;
};
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...)                                                       \
    do { if (!(cond)) throw mc::Violation{mc::fmt(__VA_ARGS__)}; } while (0)

struct CaseCtx {
    bool verbose = false;          // replay mode: print every step
    uint64_t transitions = 0;      // operations executed by this case
    uint64_t obs = 1469598103934665603ULL;   // hash of everything observed
    bool skipped = false;          // case pruned (duplicate of another one)
    bool nontrivial = true;
    uint64_t validated = 1;        // reference traces validated in this case
    std::vector<uint64_t> states;  // hashes of states visited
    std::string desc;              // human readable form, for samples/replay
    void note(const char* f, ...) __attribute__((format(printf, 2, 3)));
    void observe(const void* p, size_t n);
    void observe(uint64_t v) { observe(&v, sizeof(v)); }
    void observe(const std::string& s) { observe(s.size()); observe(s.data(), s.size()); }
    void state() { states.push_back(obs); }
};
typedef std::function<void(uint64_t idx, CaseCtx& ctx)> CaseFn;

struct Space {
    std::string name;
    uint64_t size;
    CaseFn fn;
    std::function<void()> workerInit;   // once per worker process
    double hangSecs = 20;
};

class Check {
public:
    Check(int argc, char** argv, const std::string& prop, const std::string& level,
          const std::string& rule);
    bool thorough() const { return thorough_; }
    int seed() const { return seed_; }
    double hangSecs = 20;               // for the spaces added from here on
    void add(const Space& s);
    void add(const std::string& name, uint64_t size, CaseFn fn,
             std::function<void()> init = nullptr) {
        Space s;
        s.name = name; s.size = size; s.fn = fn; s.workerInit = init; s.hangSecs = hangSecs;
        add(s);
    }
    void assume(const std::string& a) { assumptions_.push_back(a); }
    void setBudget(double secs) { budget_ = secs; }
    void extra(const std::string& k, const std::string& json) { extra_.push_back({k, json}); }
    int run();     // exit code

private:
    int replay(const std::string& id);
    std::string prop_, level_, rule_, tier_;
    bool thorough_ = false;
    int seed_ = 1;
    double budget_ = 0;
    std::string replayId_, only_;
    std::vector<Space> spaces_;
    std::vector<std::string> assumptions_;
    std::vector<std::pair<std::string, std::string>> extra_;
};

uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);

// Mixed-radix helper: number of sequences over `k` symbols with length in
// [1, maxLen], and decoding of an index into such a sequence (shorter first).
uint64_t seqCount(uint64_t k, int maxLen, int minLen = 1);
std::vector<int> seqDecode(uint64_t idx, uint64_t k, int maxLen, int minLen = 1);

} // namespace mc
