// Linearizability of short concurrent histories, by trying every order that is
// consistent with real time.
#pragma once
#include "mc.h"
#include "thr.h"
#include <string>
#include <vector>
namespace lin {
template<typename OP> struct Ev {
    OP op;
    uint64_t from = 0, to = 0;     // invocation, response
};
// apply(state, op): performs op on the state; false when its recorded result
// is not what the state gives.
template<typename S, typename OP, typename F>
bool search(const std::vector<Ev<OP>>& h, uint32_t done, const S& st, const F& apply) {
    if (done == (1u << h.size()) - 1) return true;
    uint64_t first = ~0ULL;        // earliest response among the pending ones
    for (size_t i = 0; i < h.size(); ++i)
        if (!(done >> i & 1) && h[i].to < first) first = h[i].to;
    for (size_t i = 0; i < h.size(); ++i) {
        if (done >> i & 1 || h[i].from > first) continue;
        S n = st;
        if (!apply(n, h[i].op)) continue;
        if (search(h, done | 1u << i, n, apply)) return true;
    }
    return false;
}
} // namespace lin
