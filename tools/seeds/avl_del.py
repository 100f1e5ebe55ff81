prop='P30'
kind='unit'; srcs=['avltree.cc']
edits=[('src/avltree.cc','            if(_get_balance(node->left) <= 0) {\n','            if(_get_balance(node->left) < 0) {\n')]
needs='removal from an AVL tree that leaves a node whose left child is balanced (a state insertion never makes)'
breaks='rebalancing after a removal uses the wrong rotation and dereferences or loses nodes / leaves the tree unbalanced'
demo=r'''#include "demo.h"
#include "avltree.h"
struct N { avl_node an; int k; };
static int cmp(avl_node* a, avl_node* b, void*) { return _get_entry(a, N, an)->k - _get_entry(b, N, an)->k; }
static int height(avl_node* n, bool& ok) {
    if (!n) return 0;
    int l = height(n->left, ok), r = height(n->right, ok);
    if (abs(l - r) > 1 || avl_bf(n) != r - l) ok = false;
    return 1 + (l > r ? l : r);
}
int main() {
    unsigned x = 1;
    auto rnd = [&]() { x = x * 1103515245u + 12345u; return (x >> 16) & 0x7fff; };
    for (int round = 0; round < 2000; ++round) {
        const int M = 24;
        avl_tree t; avl_init(&t, nullptr);
        N n[M]; int perm[M];
        for (int i = 0; i < M; ++i) n[i].k = perm[i] = i;
        for (int i = 0; i < M; ++i) std::swap(perm[i], perm[rnd() % M]);
        for (int i = 0; i < M; ++i) avl_insert(&t, &n[perm[i]].an, cmp);
        for (int i = 0; i < M; ++i) std::swap(perm[i], perm[rnd() % M]);
        for (int i = 0; i < M; ++i) {
            avl_remove(&t, &n[perm[i]].an);
            bool ok = true; height(t.root, ok);
            int cnt = 0; for (avl_node* c = avl_first(&t); c; c = avl_next(c)) cnt++;
            REQ(ok && cnt == M - 1 - i, "round %d removal %d", round, i);
        }
    }
    return 0;
}
'''
