// Deterministic runtime for single-threaded exploration: virtual clock, no
// threads, scripted rand().
#pragma once
#include <functional>
#include <stdint.h>
#include <vector>
namespace simrt {
void reset();
void advanceUs(uint64_t us);
uint64_t nowUs();
extern uint64_t yieldLimit;             // sched_yield calls before the case counts as hung
void setRand(std::vector<int> script);  // values returned by rand(), then 0s cycled
uint64_t threadsRequested();
// Called on every sleep/yield so that a harness can run "background" work.
void setIdle(std::function<void()> f);
}
