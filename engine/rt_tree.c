// libstdc++'s red-black tree helpers (std::map / std::set) and the hash policy, C linkage by mangled name.
#include <stddef.h>
#include <stdbool.h>
enum col { RED = 0, BLACK = 1 };
typedef struct N { enum col c; struct N *p, *l, *r; } N;
N* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(N* x) { if (x->r) { x = x->r; while (x->l) x = x->l; } else { N* y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; } return x; }
const N* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const N* x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base((N*)x); }
N* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(N* x) { if (x->c == RED && x->p->p == x) x = x->r; else if (x->l) { N* y = x->l; while (y->r) y = y->r; x = y; } else { N* y = x->p; while (x == y->l) { x = y; y = y->p; } x = y; } return x; }
const N* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const N* x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base((N*)x); }
static void rotl(N* x, N** root) { N* y = x->r; x->r = y->l; if (y->l) y->l->p = x; y->p = x->p; if (x == *root) *root = y; else if (x == x->p->l) x->p->l = y; else x->p->r = y; y->l = x; x->p = y; }
static void rotr(N* x, N** root) { N* y = x->l; x->l = y->r; if (y->r) y->r->p = x; y->p = x->p; if (x == *root) *root = y; else if (x == x->p->r) x->p->r = y; else x->p->l = y; y->r = x; x->p = y; }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, N* x, N* p, N* h)
{
    N** root = &h->p; x->p = p; x->l = x->r = 0; x->c = RED;
    if (left) { p->l = x; if (p == h) { h->p = x; h->r = x; } else if (p == h->l) h->l = x; }
    else { p->r = x; if (p == h->r) h->r = x; }
    while (x != *root && x->p->c == RED) {
        N* g = x->p->p;
        if (x->p == g->l) { N* y = g->r; if (y && y->c == RED) { x->p->c = BLACK; y->c = BLACK; g->c = RED; x = g; } else { if (x == x->p->r) { x = x->p; rotl(x, root); } x->p->c = BLACK; g->c = RED; rotr(g, root); } }
        else { N* y = g->l; if (y && y->c == RED) { x->p->c = BLACK; y->c = BLACK; g->c = RED; x = g; } else { if (x == x->p->l) { x = x->p; rotr(x, root); } x->p->c = BLACK; g->c = RED; rotl(g, root); } }
    }
    (*root)->c = BLACK;
}
N* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(N* z, N* h)
{
    N **root = &h->p, **lm = &h->l, **rm = &h->r; N *y = z, *x = 0, *xp = 0;
    if (!y->l) x = y->r; else if (!y->r) x = y->l; else { y = y->r; while (y->l) y = y->l; x = y->r; }
    if (y != z) {
        z->l->p = y; y->l = z->l;
        if (y != z->r) { xp = y->p; if (x) x->p = y->p; y->p->l = x; y->r = z->r; z->r->p = y; } else xp = y;
        if (*root == z) *root = y; else if (z->p->l == z) z->p->l = y; else z->p->r = y;
        y->p = z->p; enum col t = y->c; y->c = z->c; z->c = t; y = z;
    } else {
        xp = y->p; if (x) x->p = y->p;
        if (*root == z) *root = x; else if (z->p->l == z) z->p->l = x; else z->p->r = x;
        if (*lm == z) { if (!z->r) *lm = z->p; else { N* k = x; while (k->l) k = k->l; *lm = k; } }
        if (*rm == z) { if (!z->l) *rm = z->p; else { N* k = x; while (k->r) k = k->r; *rm = k; } }
    }
    if (y->c != RED) {
        while (x != *root && (!x || x->c == BLACK)) {
            if (x == xp->l) {
                N* w = xp->r; if (w->c == RED) { w->c = BLACK; xp->c = RED; rotl(xp, root); w = xp->r; }
                if ((!w->l || w->l->c == BLACK) && (!w->r || w->r->c == BLACK)) { w->c = RED; x = xp; xp = xp->p; }
                else { if (!w->r || w->r->c == BLACK) { w->l->c = BLACK; w->c = RED; rotr(w, root); w = xp->r; } w->c = xp->c; xp->c = BLACK; if (w->r) w->r->c = BLACK; rotl(xp, root); break; }
            } else {
                N* w = xp->l; if (w->c == RED) { w->c = BLACK; xp->c = RED; rotr(xp, root); w = xp->l; }
                if ((!w->r || w->r->c == BLACK) && (!w->l || w->l->c == BLACK)) { w->c = RED; x = xp; xp = xp->p; }
                else { if (!w->l || w->l->c == BLACK) { w->r->c = BLACK; w->c = RED; rotl(w, root); w = xp->l; } w->c = xp->c; xp->c = BLACK; if (w->l) w->l->c = BLACK; rotr(xp, root); break; }
            }
        }
        if (x) x->c = BLACK;
    }
    return y;
}
size_t _ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t s) { const unsigned char* c = p; size_t h = s ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull; return h; }
typedef struct { float mlf; size_t next; } RP;
static const size_t primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033 };
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const RP* r, size_t n) { for (unsigned i = 0; i < 13; i++) if (primes[i] >= n) { ((RP*)r)->next = primes[i]; return primes[i]; } return 14033; }
typedef struct { bool b; size_t n; } BP;
BP _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const RP* r, size_t bkt, size_t el, size_t ins)
{
    BP o = { false, 0 };
    if (el + ins > r->next || bkt == 1) { if (el + ins > bkt || bkt == 1) { o.b = true; size_t want = el + ins > 2 * bkt ? el + ins : 2 * bkt; o.n = _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(r, want < 11 ? 11 : want); } else ((RP*)r)->next = bkt; }
    return o;
}
