// BUILD: tunit skiplist.cc
// P24: the skiplist is a linearizable ordered set under concurrent use, and
// nodes may be freed once skiplist_wait_for_free() returns.
#include "lin.h"
#include "skiplist.h"

#include <map>
#include <set>
#include <stdlib.h>

using mc::fmt;
namespace {
struct KN { skiplist_node snode; int key; int layer; };
int cmpKN(skiplist_node* a, skiplist_node* b, void*) {
    KN *x = _get_entry(a, KN, snode), *y = _get_entry(b, KN, snode);
    return x->key < y->key ? -1 : x->key > y->key ? 1 : 0;
}
KN* knOf(skiplist_node* n) { return n ? _get_entry(n, KN, snode) : nullptr; }

enum Kind { INS, PUT, ERA, ERQ, FIND, GE, LE, SCAN, RSCAN };
bool walks(Kind k) { return k == SCAN || k == RSCAN; }
struct Op {
    Kind k;
    int key, layer;
    // result
    int got = 0;                  // success, or the key that was found (0: none)
    std::vector<int> keys;        // scans
};
std::string name(const Op& o) {
    static const char* n[] = {"insert_nodup", "insert", "erase_node", "erase", "find",
                              "find_ge", "find_le", "scan", "scan_back"};
    if (o.k >= SCAN) return n[o.k];
    if (o.k <= PUT) return fmt("%s(%d,layer %d)", n[o.k], o.key, o.layer);
    return fmt("%s(%d)", n[o.k], o.key);
}
int pendingLayer[17];
int layerRand() {
    int& l = pendingLayer[sched::self() + 1];
    return l-- > 0 ? 0 : 1;
}
std::set<KN*> live;      // nodes allocated and not freed
KN* mk(int key, int layer) {
    KN* n = (KN*)calloc(1, sizeof(KN));
    skiplist_init_node(&n->snode);
    n->key = key;
    n->layer = layer;
    live.insert(n);
    return n;
}
void drop(KN* n) { live.erase(n); skiplist_free_node(&n->snode); free(n); }
void dropAll() { while (!live.empty()) drop(*live.begin()); }

struct List {
    skiplist_raw sl;
    List(int fanout, int layers) {
        skiplist_init(&sl, cmpKN);
        skiplist_raw_config c = skiplist_get_default_config();
        c.fanout = fanout;
        c.maxLayer = layers;
        skiplist_set_config(&sl, c);
    }
    int insert(KN* n, bool nodup) {
        pendingLayer[sched::self() + 1] = n->layer;
        return nodup ? skiplist_insert_nodup(&sl, &n->snode) : skiplist_insert(&sl, &n->snode);
    }
    void exec(Op& o) {
        KN q;
        skiplist_init_node(&q.snode);
        q.key = o.key;
        switch (o.k) {
        case INS: case PUT: {
            KN* n = mk(o.key, o.layer);
            int r = insert(n, o.k == INS);
            o.got = r == 0;
            if (r) drop(n);
            break;
        }
        case ERA: {
            skiplist_node* s = skiplist_find(&sl, &q.snode);
            if (!s) { o.got = 0; break; }
            int r = skiplist_erase_node(&sl, s);
            o.got = r == 0;
            skiplist_release_node(s);
            if (r == 0) {
                skiplist_wait_for_free(s);
                drop(knOf(s));
            }
            break;
        }
        case ERQ: {                       // the node is leaked: nobody knows it
            int r = skiplist_erase(&sl, &q.snode);
            o.got = r == 0;
            break;
        }
        case FIND: case GE: case LE: {
            skiplist_node* s = o.k == FIND ? skiplist_find(&sl, &q.snode) :
                               o.k == GE ? skiplist_find_greater_or_equal(&sl, &q.snode)
                                         : skiplist_find_smaller_or_equal(&sl, &q.snode);
            o.got = s ? knOf(s)->key : 0;
            if (s) skiplist_release_node(s);
            break;
        }
        case SCAN: case RSCAN: {
            skiplist_node* s = o.k == SCAN ? skiplist_begin(&sl) : skiplist_end(&sl);
            while (s) {
                o.keys.push_back(knOf(s)->key);
                skiplist_node* n = o.k == SCAN ? skiplist_next(&sl, s) : skiplist_prev(&sl, s);
                skiplist_release_node(s);
                s = n;
            }
            break;
        }
        }
        skiplist_free_node(&q.snode);
    }
    std::vector<int> all(bool back) {
        Op o{back ? RSCAN : SCAN, 0, 0};
        exec(o);
        return o.keys;
    }
};
bool doApply(std::set<int>& st, const Op& o) {
    switch (o.k) {
    case INS: case PUT: return (o.got != 0) == st.insert(o.key).second;
    case ERA: case ERQ: return (o.got != 0) == (st.erase(o.key) != 0);
    case FIND: return o.got == (st.count(o.key) ? o.key : 0);
    case GE: { auto i = st.lower_bound(o.key); return o.got == (i == st.end() ? 0 : *i); }
    case LE: { auto i = st.upper_bound(o.key); return o.got == (i == st.begin() ? 0 : *--i); }
    default: return true;
    }
}
typedef lin::Ev<Op> Ev;
typedef std::vector<std::vector<Op>> Prog;
struct Init { std::vector<std::pair<int, int>> nodes; int fanout, layers; };

void quiescent(List& l, const std::set<int>& want) {
    std::vector<int> w(want.begin(), want.end()), r(want.rbegin(), want.rend());
    MC_CHECK(l.all(false) == w, "after the threads: forward scan is wrong");
    MC_CHECK(l.all(true) == r, "after the threads: backward scan is wrong");
    MC_CHECK(skiplist_get_size(&l.sl) == w.size(), "after the threads: size %zu, %zu keys",
             skiplist_get_size(&l.sl), w.size());
    for (int k = 10; k <= 30; k += 5)
        for (Kind m : {FIND, GE, LE}) {
            if (k % 10 == 0 ? m != FIND : m == FIND && k != 15) continue;
            Op o{m, k, 0};
            l.exec(o);
            std::set<int> s = want;
            MC_CHECK(doApply(s, o), "after the threads: %s gives %d", name(o).c_str(), o.got);
        }
    // Every node that is left can be taken out and freed, every place used again.
    for (int k : w) {
        Op o{ERA, k, 0};
        KN q;
        skiplist_init_node(&q.snode);
        q.key = k;
        skiplist_node* s = skiplist_find(&l.sl, &q.snode);
        MC_CHECK(s, "after the threads: %d is gone", k);
        int rc = -2;
        for (int n = 0; n < 3 && rc == -2; ++n) rc = skiplist_erase_node_passive(&l.sl, s);
        MC_CHECK(rc == 0, "after the threads: erase of %d gives %d", k, rc);
        skiplist_release_node(s);
        MC_CHECK(skiplist_is_safe_to_free(s), "after the threads: the node of %d never becomes free", k);
        drop(knOf(s));
    }
    MC_CHECK(skiplist_get_size(&l.sl) == 0 && l.all(false).empty(), "not empty in the end");
    for (int k = 10; k <= 30; k += 10) {
        Op o{INS, k, k == 20 ? 1 : 0};
        l.exec(o);
        MC_CHECK(o.got, "insert into the emptied list fails");
    }
    MC_CHECK((l.all(false) == std::vector<int>{10, 20, 30}), "reused list is wrong");
    for (int k = 10; k <= 30; k += 10) { Op o{ERA, k, 0}; l.exec(o); }
    skiplist_free(&l.sl);
    dropAll();
}

void runProg(mc::CaseCtx& ctx, const Init& in, const Prog& prog, const sched::Options& opt,
             uint64_t chunk = 0, uint64_t chunks = 1) {
    std::string d = "list";
    for (auto& n : in.nodes) d += fmt(" %d/%d", n.first, n.second);
    for (auto& t : prog) {
        d += " |";
        for (auto& o : t) d += " " + name(o);
    }
    ctx.desc = d;
    sched::randFn = layerRand;
    sched::explore(ctx, opt, chunk, chunks, [&](sched::Run& run) {
        simrt::reset();
        simrt::yieldLimit = 1000;
        List l(in.fanout, in.layers);
        std::set<int> st;
        for (auto& n : in.nodes) {
            KN* k = mk(n.first, n.second);
            MC_CHECK(l.insert(k, true) == 0, "setup insert");
            st.insert(n.first);
        }
        std::vector<std::vector<Ev>> h(prog.size());
        std::vector<std::function<void()>> fns;
        for (size_t t = 0; t < prog.size(); ++t) {
            h[t].reserve(prog[t].size());
            fns.push_back([&, t]() {
                for (auto& o : prog[t]) {
                    h[t].push_back(Ev{o, sched::Run::now(), 0});
                    l.exec(h[t].back().op);
                    h[t].back().to = sched::Run::now();
                }
            });
        }
        run.go(fns);
        std::vector<Ev> pts, scans;
        for (auto& t : h)
            for (auto& e : t) (e.op.k >= GE ? scans : pts).push_back(e);
        for (auto& t : h)
            for (auto& e : t) {
                ctx.observe(e.op.got);
                for (int k : e.op.keys) ctx.observe(k);
            }
        auto show = [&]() {
            std::string res;
            for (auto& t : h) {
                res += " |";
                for (auto& e : t) {
                    res += fmt(" %s=%d", name(e.op).c_str(), e.op.got);
                    if (walks(e.op.k)) { res += "["; for (int k : e.op.keys) res += fmt("%d ", k); res += "]"; }
                }
            }
            return res;
        };
        if (ctx.verbose && sched::executions() == 0) ctx.note("first execution: %s", show().c_str());
        // An erase that loses against a concurrent one may come back before that
        // one took effect.
        auto isE = [](const Ev& e) { return e.op.k == ERA || e.op.k == ERQ; };
        for (size_t i = 0; i < pts.size(); ++i) {
            bool lost = false;
            if (isE(pts[i]) && !pts[i].op.got)
                for (auto& f : pts)
                    if (isE(f) && f.op.got && f.op.key == pts[i].op.key && f.from <= pts[i].to && pts[i].from <= f.to) lost = true;
            if (lost) { pts.erase(pts.begin() + i); --i; }
        }
        MC_CHECK(lin::search(pts, 0, st, doApply), "not linearizable:%s", show().c_str());
        // Scans: strictly ordered, everything that was in the list throughout
        // is there, nothing that never was.
        for (auto& s : scans) {
            for (size_t i = 1; i < s.op.keys.size(); ++i)
                MC_CHECK(s.op.k == SCAN ? s.op.keys[i - 1] < s.op.keys[i] : s.op.keys[i - 1] > s.op.keys[i],
                         "scan out of order:%s", show().c_str());
            std::set<int> seen(s.op.keys.begin(), s.op.keys.end());
            std::set<int> may = st, must = st;
            for (auto& e : pts) {
                if (e.op.k == INS || e.op.k == PUT) {
                    if (e.op.got && e.from <= s.to) may.insert(e.op.key);
                    if (e.op.got && e.to < s.from) must.insert(e.op.key);
                }
            }
            for (auto& e : pts)
                if ((e.op.k == ERA || e.op.k == ERQ) && e.op.got && e.from <= s.to) must.erase(e.op.key);
            for (auto& e : pts)       // erased before, and not inserted again since
                if ((e.op.k == ERA || e.op.k == ERQ) && e.op.got && e.to < s.from) {
                    bool again = false;
                    for (auto& f : pts)
                        if ((f.op.k == INS || f.op.k == PUT) && f.op.key == e.op.key && f.op.got && f.to > e.from) again = true;
                    if (!again) may.erase(e.op.key);
                }
            if (!walks(s.op.k)) {
                // Neighbours: no key that was there throughout is closer.
                auto i = s.op.k == GE ? must.lower_bound(s.op.key) : must.upper_bound(s.op.key);
                int best = s.op.k == GE ? (i == must.end() ? 0 : *i) : (i == must.begin() ? 0 : *--i);
                int g = s.op.got;
                MC_CHECK(!g || may.count(g), "%s gives %d, which was not there:%s", name(s.op).c_str(), g, show().c_str());
                MC_CHECK(g ? (s.op.k == GE ? g >= s.op.key : g <= s.op.key) : !best, "%s gives %d:%s",
                         name(s.op).c_str(), g, show().c_str());
                MC_CHECK(!best || (s.op.k == GE ? g <= best : g >= best), "%s gives %d, though %d is there:%s",
                         name(s.op).c_str(), g, best, show().c_str());
                continue;
            }
            for (int k : must) MC_CHECK(seen.count(k), "scan misses %d:%s", k, show().c_str());
            for (int k : seen) MC_CHECK(may.count(k), "scan shows %d:%s", k, show().c_str());
        }
        // Final contents: the successful changes, per key.
        std::map<int, int> cnt;
        for (int k : st) cnt[k]++;
        for (auto& e : pts)
            if (e.op.got) {
                if (e.op.k == INS || e.op.k == PUT) cnt[e.op.key]++;
                if (e.op.k == ERA || e.op.k == ERQ) cnt[e.op.key]--;
            }
        std::set<int> fin;
        for (auto& c : cnt) if (c.second) fin.insert(c.first);
        quiescent(l, fin);
    });
    ctx.state();
}

// ---- sequential: every operation sequence -----------------------------------
void seqCase(const std::vector<Op>& alpha, uint64_t idx, int maxLen, mc::CaseCtx& ctx) {
    auto seq = mc::seqDecode(idx, alpha.size(), maxLen);
    sched::randFn = layerRand;
    simrt::reset();
    simrt::yieldLimit = 1000;
    List l(4, 4);
    std::set<int> st;
    ctx.desc = "sequence";
    for (int i : seq) {
        Op o = alpha[i];
        ctx.desc += " " + name(o);
        if (ctx.verbose) ctx.note("%s", name(o).c_str());
        l.exec(o);
        if (o.k >= SCAN) {
            std::vector<int> w = o.k == SCAN ? std::vector<int>(st.begin(), st.end())
                                             : std::vector<int>(st.rbegin(), st.rend());
            MC_CHECK(o.keys == w, "%s is wrong", name(o).c_str());
        } else {
            MC_CHECK(doApply(st, o), "%s gives %d", name(o).c_str(), o.got);
        }
        ctx.observe(o.got);
        ctx.transitions++;
        ctx.state();
    }
    quiescent(l, st);
}
} // namespace

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P24", "model_checking",
                  "every schedule of the thread programs up to the preemption bound, every operation sequence");
    std::vector<Init> inits = {
        {{{10, 0}, {20, 1}, {30, 0}}, 4, 4},
        {{{10, 1}, {20, 2}, {30, 1}}, 4, 4},
        {{{10, 0}, {20, 0}, {30, 0}}, 4, 4},
    };
    std::vector<Op> ops = {
        {INS, 15, 0}, {INS, 15, 1}, {INS, 20, 0}, {INS, 20, 1}, {PUT, 25, 2},
        {ERA, 10, 0}, {ERA, 20, 0}, {ERA, 30, 0}, {ERQ, 20, 0},
        {FIND, 15, 0}, {FIND, 20, 0}, {GE, 15, 0}, {LE, 25, 0}, {SCAN, 0, 0}, {RSCAN, 0, 0},
    };
    const int N = ops.size();
    auto reads = [](const Op& o) { return o.k >= FIND; };
    // Two threads, one operation each.
    {
        std::vector<std::pair<int, int>> pairs;
        for (int i = 0; i < N; ++i)
            for (int j = i; j < N; ++j)
                if (!(reads(ops[i]) && reads(ops[j])) &&
                    !(i == j && ops[i].k == PUT)) pairs.push_back({i, j});
        sched::Options o;
        o.bound = 2;
        o.points = sched::ALL;
        o.spin = 400;
        o.maxSteps = 200000;
        const int CH = 4;
        if (!chk.thorough()) inits.resize(2);
        chk.add("pairs", pairs.size() * inits.size() * CH, [=](uint64_t idx, mc::CaseCtx& ctx) {
            uint64_t c = idx % CH;
            auto p = pairs[idx / CH % pairs.size()];
            runProg(ctx, inits[idx / CH / pairs.size()], {{ops[p.first]}, {ops[p.second]}}, o, c, CH);
        });
    }
    // Three threads.
    {
        std::vector<std::vector<int>> tr;
        std::vector<int> sub = {0, 1, 3, 5, 6, 7, 10, 11, 12, 13, 14};
        for (size_t a = 0; a < sub.size(); ++a)
            for (size_t b = a; b < sub.size(); ++b)
                for (size_t c = b; c < sub.size(); ++c) {
                    int r = reads(ops[sub[a]]) + reads(ops[sub[b]]) + reads(ops[sub[c]]);
                    if (r <= 1) tr.push_back({sub[a], sub[b], sub[c]});
                }
        sched::Options o;
        o.bound = chk.thorough() ? 2 : 1;
        o.delay = true;
        o.points = sched::ALL;
        o.spin = 400;
        o.maxSteps = 200000;
        for (int wr = 0; wr < 2; ++wr) {
            // Second round: two preemptions, only in front of atomic writes.
            if (wr && chk.thorough()) break;
            if (wr) { o.bound = 2; o.points = sched::ATOMIC_WR; }
            chk.add(wr ? "triples_writes" : "triples", tr.size() * 2, [=](uint64_t idx, mc::CaseCtx& ctx) {
                auto& t = tr[idx / 2];
                runProg(ctx, inits[idx % 2], {{ops[t[0]]}, {ops[t[1]]}, {ops[t[2]]}}, o);
            });
        }
    }
    // Two operations in each of two threads, changes of neighbouring keys.
    {
        std::vector<Op> w = {{INS, 20, 1}, {INS, 15, 0}, {ERA, 20, 0}, {ERA, 10, 0}, {FIND, 20, 0}, {SCAN, 0, 0}};
        int W = w.size();
        bool full = chk.thorough();
        sched::Options o;
        o.bound = chk.thorough() ? 2 : 1;
        o.delay = true;
        o.points = sched::ALL;
        o.spin = 400;
        o.maxSteps = 200000;
        if (!chk.thorough()) { o.bound = 2; o.points = sched::ATOMIC_WR; }
        chk.add("two_each", (uint64_t)W * W * W * W * 2, [=](uint64_t idx, mc::CaseCtx& ctx) {
            uint64_t i = idx / 2;
            if (!full && idx % 2) { ctx.skipped = true; return; }
            int a = i % W, b = i / W % W, c = i / W / W % W, d = i / W / W / W;
            if (std::make_pair(a, b) > std::make_pair(c, d)) { ctx.skipped = true; return; }
            runProg(ctx, inits[idx % 2], {{w[a], w[b]}, {w[c], w[d]}}, o);
        });
    }
    // Three preemptions, conflicting changes.
    if (chk.thorough()) {
        std::vector<std::pair<int, int>> ps;
        for (int i = 0; i < N; ++i)
            for (int j = i; j < N; ++j)
                if (!reads(ops[i]) && (ops[i].k == ERA || ops[j].k == ERA)) ps.push_back({i, j});
        sched::Options o;
        o.bound = 3;
        o.points = sched::ATOMIC;
        o.spin = 400;
        o.maxSteps = 200000;
        const int CH = 48;
        chk.add("pairs_3", ps.size() * 2 * CH, [=](uint64_t idx, mc::CaseCtx& ctx) {
            uint64_t i = idx / CH;
            runProg(ctx, inits[i % 2], {{ops[ps[i / 2].first]}, {ops[ps[i / 2].second]}}, o, idx % CH, CH);
        });
    }
    {
        std::vector<Op> a = {{INS, 10, 0}, {INS, 20, 1}, {INS, 30, 2}, {INS, 20, 0}, {ERA, 10, 0}, {ERQ, 20, 0},
                             {ERA, 30, 0}, {FIND, 20, 0}, {GE, 15, 0}, {LE, 25, 0}, {SCAN, 0, 0}, {RSCAN, 0, 0}};
        int len = chk.thorough() ? 6 : 5;
        chk.add("sequences", mc::seqCount(a.size(), len), [=](uint64_t idx, mc::CaseCtx& ctx) { seqCase(a, idx, len, ctx); });
    }
    chk.assume("sequentially consistent memory: one thread runs at a time, preempted at atomic operations and plain accesses to shared memory");
    chk.assume("skiplist nodes are freed as Jungle does it: erase, release, wait_for_free, free");
    return chk.run();
}
