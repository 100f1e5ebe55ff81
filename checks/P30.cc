// BUILD: unit avltree.cc
// Inductive enumeration: every AVL tree of up to N nodes x every insertion,
// removal and search.  The set of all AVL shapes is closed under the
// operations (checked), hence every reachable tree of that size is covered.
#include "avltree.h"
#include "mc.h"
#include <algorithm>
#include <map>
#include <stdlib.h>

struct Node { avl_node av; int key; };
#define N(x) _get_entry(x, Node, av)
static int cmpFn(avl_node* a, avl_node* b, void* aux) {
    int x = N(a)->key, y = N(b)->key;
    int scale = aux ? *(int*)aux : 1;          // any magnitude is a legal answer
    return (x < y) ? -scale : (x > y) ? scale : 0;
}

// ---- shapes ----------------------------------------------------------------
// count[h][n]: AVL trees of height h with n nodes.
static std::vector<std::vector<uint64_t>> g_cnt;
static void initCounts(int maxN) {
    g_cnt.assign(9, std::vector<uint64_t>(maxN + 1, 0));
    g_cnt[0][0] = 1;
    if (maxN >= 1) g_cnt[1][1] = 1;
    for (int h = 2; h < (int)g_cnt.size(); ++h)
        for (int n = 1; n <= maxN; ++n)
            for (int l = 0; l < n; ++l) {
                int r = n - 1 - l;
                g_cnt[h][n] += g_cnt[h-1][l] * g_cnt[h-1][r] + g_cnt[h-1][l] * g_cnt[h-2][r] + g_cnt[h-2][l] * g_cnt[h-1][r];
            }
}
static uint64_t shapesOf(int n) { uint64_t s = 0; for (auto& c : g_cnt) s += c[n]; return s; }

struct Tree {
    std::vector<Node*> all;
    avl_tree t;
    int scale;
    Tree(int sc = 1) : scale(sc) { avl_init(&t, &scale); }
    ~Tree() { for (auto n : all) free(n); }
    Node* fresh(int key) {
        Node* n = (Node*)malloc(sizeof(Node));
        memset(n, 0, sizeof(*n));
        n->key = key;
        all.push_back(n);
        return n;
    }
    // Builds shape #idx of (h, n); keys are 2,4,6,... in order.
    avl_node* build(int h, int n, uint64_t idx, int& next, avl_node* parent) {
        if (n == 0) return nullptr;
        Node* me = fresh(0);
        int hl = 0, hr = 0, nl = 0, nr = 0;
        uint64_t il = 0, ir = 0;
        if (h > 1) {
            bool found = false;
            for (int l = 0; l < n && !found; ++l) {
                int r = n - 1 - l;
                int combos[3][2] = {{h-1, h-1}, {h-1, h-2}, {h-2, h-1}};
                for (auto& c : combos) {
                    uint64_t k = g_cnt[c[0]][l] * g_cnt[c[1]][r];
                    if (idx < k) {
                        hl = c[0]; hr = c[1]; nl = l; nr = r;
                        il = idx / g_cnt[hr][r]; ir = idx % g_cnt[hr][r];
                        found = true;
                        break;
                    }
                    idx -= k;
                }
            }
        }
        me->av.parent = (avl_node*)((uint64_t)parent | (uint64_t)(hr - hl + 1));
        me->av.left = build(hl, nl, il, next, &me->av);
        me->key = next; next += 2;
        me->av.right = build(hr, nr, ir, next, &me->av);
        return &me->av;
    }
    void make(int n, uint64_t idx) {
        int next = 2;
        for (int h = 0; h < (int)g_cnt.size(); ++h) {
            if (idx < g_cnt[h][n]) { t.root = build(h, n, idx, next, nullptr); return; }
            idx -= g_cnt[h][n];
        }
        abort();
    }
    // Structure: parent links, balance factors, order.
    int verify(avl_node* n, avl_node* parent, std::vector<Node*>& out) {
        if (!n) return 0;
        MC_CHECK(out.size() <= all.size(), "the tree contains a cycle");
        MC_CHECK(avl_parent(n) == parent, "node %d has a wrong parent link", N(n)->key);
        int hl = verify(n->left, n, out);
        out.push_back(N(n));
        int hr = verify(n->right, n, out);
        MC_CHECK(hr - hl >= -1 && hr - hl <= 1, "node %d is unbalanced: heights %d and %d", N(n)->key, hl, hr);
        MC_CHECK(avl_bf(n) == hr - hl, "node %d stores balance %d, real %d", N(n)->key, avl_bf(n), hr - hl);
        return 1 + std::max(hl, hr);
    }
    std::vector<Node*> content() {
        std::vector<Node*> out;
        verify(t.root, nullptr, out);
        return out;
    }
    void check(std::vector<Node*> expect, const char* what, bool searches) {
        std::vector<Node*> out = content();
        if (out != expect) {
            std::string a, b;
            for (auto n : out) a += mc::fmt(" %d", n->key);
            for (auto n : expect) b += mc::fmt(" %d", n->key);
            throw mc::Violation{mc::fmt("after %s the tree holds%s, expected%s", what, a.c_str(), b.c_str())};
        }
        size_t n = expect.size();
        avl_node* c = avl_first(&t);
        for (size_t i = 0; i < n; ++i) {
            MC_CHECK(c == &expect[i]->av, "after %s forward traversal is wrong at position %zu", what, i);
            c = avl_next(c);
        }
        MC_CHECK(!c, "after %s forward traversal does not end", what);
        c = avl_last(&t);
        for (size_t i = n; i-- > 0;) {
            MC_CHECK(c == &expect[i]->av, "after %s backward traversal is wrong at position %zu", what, i);
            c = avl_prev(c);
        }
        MC_CHECK(!c, "after %s backward traversal does not end", what);
        if (!searches) return;
        Node q; memset(&q, 0, sizeof(q));
        int hi = n ? expect.back()->key + 2 : 2;
        for (q.key = 0; q.key <= hi; ++q.key) {
            auto it = std::lower_bound(expect.begin(), expect.end(), q.key, [](Node* a, int k) { return a->key < k; });
            avl_node* eq = (it != expect.end() && (*it)->key == q.key) ? &(*it)->av : nullptr;
            avl_node* gt = it != expect.end() ? &(*it)->av : nullptr;
            avl_node* lt = eq ? eq : (it != expect.begin() ? &(*(it - 1))->av : nullptr);
            MC_CHECK(avl_search(&t, &q.av, cmpFn) == eq, "after %s exact search of %d is wrong", what, q.key);
            MC_CHECK(avl_search_greater(&t, &q.av, cmpFn) == gt, "after %s greater-or-equal search of %d is wrong", what, q.key);
            MC_CHECK(avl_search_smaller(&t, &q.av, cmpFn) == lt, "after %s smaller-or-equal search of %d is wrong", what, q.key);
        }
    }
};

int main(int argc, char** argv) {
    mc::Check chk(argc, argv, "P30", "model_checking",
                  "every AVL tree up to the node bound x every insert, remove and search; every insertion order of small key sets");
    int maxN = chk.thorough() ? 26 : 20;
    initCounts(maxN);
    for (int n = 0; n <= maxN; ++n) {
        chk.add(mc::fmt("trees-%d", n), shapesOf(n), [n](uint64_t idx, mc::CaseCtx& ctx) {
            int scale = idx % 2 ? 1 : 1000;
            {
                Tree b(scale); b.make(n, idx);
                auto c = b.content();
                b.check(c, "building", true);
                ctx.observe(c.size());
            }
            ctx.transitions += 1;
            for (int key = 1; key <= 2 * n + 1; ++key) {       // odd: new, even: duplicate
                Tree b(scale); b.make(n, idx);
                auto c = b.content();
                Node* nn = b.fresh(key);
                // Stale content of a reused node must not matter.
                nn->av.left = nn->av.right = nullptr; nn->av.parent = (avl_node*)(uint64_t)(key % 3);
                avl_node* r = avl_insert(&b.t, &nn->av, cmpFn);
                std::string what = mc::fmt("inserting %d", key);
                if (key % 2 == 0) {
                    MC_CHECK(r == &c[key / 2 - 1]->av, "inserting the existing key %d did not return the existing node", key);
                } else {
                    MC_CHECK(r == &nn->av, "inserting the new key %d did not return the new node", key);
                    c.insert(c.begin() + key / 2, nn);
                }
                b.check(c, what.c_str(), key % 4 == 1);
                ctx.transitions++;
            }
            for (int i = 0; i < n; ++i) {
                Tree b(scale); b.make(n, idx);
                auto c = b.content();
                Node* victim = c[i];
                avl_remove(&b.t, &victim->av);
                c.erase(c.begin() + i);
                // The caller frees the node right away: nothing may refer to it.
                b.all.erase(std::find(b.all.begin(), b.all.end(), victim));
                free(victim);
                std::string what = mc::fmt("removing %d", 2 * (i + 1));
                b.check(c, what.c_str(), i % 2 == 0);
                ctx.transitions++;
            }
            ctx.desc = mc::fmt("AVL tree #%llu of %d nodes: all inserts and removals", (unsigned long long)idx, n);
        });
    }
    // Whole lifetimes: every sequence of insert/remove over 4 keys.
    int d = chk.thorough() ? 8 : 6;
    chk.add("lifetimes", mc::seqCount(8, d), [d](uint64_t idx, mc::CaseCtx& ctx) {
        auto seq = mc::seqDecode(idx, 8, d);
        Tree b;
        std::map<int, Node*> m;
        for (int s : seq) {
            int key = s / 2 + 1;
            if (s % 2 == 0) {
                Node* nn = b.fresh(key);
                avl_node* r = avl_insert(&b.t, &nn->av, cmpFn);
                if (m.count(key)) MC_CHECK(r == &m[key]->av, "duplicate insert returned the wrong node");
                else { MC_CHECK(r == &nn->av, "insert returned the wrong node"); m[key] = nn; }
            } else {
                Node q; memset(&q, 0, sizeof(q)); q.key = key;
                avl_node* r = avl_search(&b.t, &q.av, cmpFn);
                MC_CHECK((r != nullptr) == (m.count(key) > 0), "search before removal is wrong");
                if (!r) { ctx.skipped = true; return; }
                avl_remove(&b.t, r);
                m.erase(key);
            }
            std::vector<Node*> e;
            for (auto& x : m) e.push_back(x.second);
            b.check(e, "a step", true);
            ctx.transitions++;
        }
        ctx.observe(m.size());
        ctx.state();
    });
    return chk.run();
}
