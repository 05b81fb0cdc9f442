/* C14: the red-black tree.
 * harness_step: from every balanced tree of up to N elements, one operation at
 *   every place gives a balanced tree with the right elements in order.
 * harness_history: every history of operations through the interface only. */
#include "env.h"
#include <string.h>
#include "lib/rbtree/hev-rbtree.h"
#include "lib/rbtree/hev-rbtree-cached.h"

#ifndef N
#define N 9
#endif
#ifndef OPS
#define OPS 6
#endif

typedef struct { long pad; HevRBTreeNode n; int id; } E;
static E e[N + 3];
static HevRBTreeNode *ord[N + 3];       /* the elements in order */
static int cnt;
static HevRBTreeCached tree;
static unsigned long red, black;        /* colour bits beside the parent pointer */
static int know;                        /* they could be found out */
static int cached;

static int pos_of (HevRBTreeNode *x)
{
    for (int i = 0; i < cnt; i++) if (ord[i] == x) return i;
    return -1;
}
/* shortest and longest way down; any colouring that keeps the rules keeps longest <= 2 * shortest */
static int check_sub (HevRBTreeNode *x, HevRBTreeNode *up, int lo, int hi, int *mn, int *mx, int pred)
{
    int p, a, b, c, d, l, r, isred = 0;
    if (!x) {
        ASSERT (lo == hi, "an element is missing");
        *mn = *mx = 0;
        return 0;
    }
    p = pos_of (x);
    ASSERT (p >= lo && p < hi, "elements out of order or not in the set");
    ASSERT (hev_rbtree_node_parent (x) == up, "wrong parent");
    if (know) {
        unsigned long bits = x->__parent_color ^ (unsigned long)up;
        ASSERT (bits == red || bits == black, "neither red nor black");
        isred = bits == red;
        ASSERT (!(isred && pred), "red child of a red element");
        ASSERT (up || !isred, "red root");
    }
    l = check_sub (x->left, x, lo, p, &a, &b, isred);
    r = check_sub (x->right, x, p + 1, hi, &c, &d, isred);
    if (know) ASSERT (l == r, "black heights differ");
    *mn = 1 + (a < c ? a : c);
    *mx = 1 + (b > d ? b : d);
    ASSERT (*mx <= 2 * *mn, "the tree is not balanced");
    return l + !isred;
}
static void check (void)
{
    HevRBTreeNode *x;
    int a, b, i;
    check_sub (tree.base.root, NULL, 0, cnt, &a, &b, 0);
    if (cached) ASSERT (hev_rbtree_cached_first (&tree) == (cnt ? ord[0] : NULL), "wrong smallest element");
    ASSERT (hev_rbtree_first (&tree.base) == (cnt ? ord[0] : NULL), "wrong first element");
    ASSERT (hev_rbtree_last (&tree.base) == (cnt ? ord[cnt - 1] : NULL), "wrong last element");
    for (i = 0, x = hev_rbtree_first (&tree.base); x && i < cnt; x = hev_rbtree_node_next (x), i++) ASSERT (x == ord[i], "forward traversal");
    ASSERT (!x && i == cnt, "forward traversal does not end at the last element");
    for (i = cnt, x = hev_rbtree_last (&tree.base); x && i > 0; x = hev_rbtree_node_prev (x), i--) ASSERT (x == ord[i - 1], "backward traversal");
    ASSERT (!x && i == 0, "backward traversal does not end at the first element");
}
/* insert x so that it becomes number p: the way a caller with keys descends */
static void insert (HevRBTreeNode *x, int p)
{
    HevRBTreeNode **l = &tree.base.root, *up = NULL;
    while (*l) {
        up = *l;
        l = p <= pos_of (up) ? &up->left : &up->right;
    }
    memset (x, 0xa5, sizeof (*x));
    hev_rbtree_node_link (x, up, l);
    if (cached) hev_rbtree_cached_insert_color (&tree, x, p == 0);
    else hev_rbtree_insert_color (&tree.base, x);
    for (int i = cnt; i > p; i--) ord[i] = ord[i - 1];
    ord[p] = x;
    cnt++;
}
static HevRBTreeNode *erase (int p)
{
    HevRBTreeNode *x = ord[p];
    if (cached) hev_rbtree_cached_erase (&tree, x);
    else hev_rbtree_erase (&tree.base, x);
    for (int i = p; i < cnt - 1; i++) ord[i] = ord[i + 1];
    cnt--;
    memset (x, 0x5a, sizeof (*x));
    return x;
}
static void replace (int p, HevRBTreeNode *x)
{
    memset (x, 0xa5, sizeof (*x));
    if (cached) hev_rbtree_cached_replace (&tree, ord[p], x);
    else hev_rbtree_replace (&tree.base, ord[p], x);
    memset (ord[p], 0x5a, sizeof (*x));
    ord[p] = x;
}

static char can[N + 1][6][2];
static void feasible (void)
{
    for (int n = 0; n <= N; n++)
        for (int h = 0; h < 6; h++)
            for (int pr = 0; pr < 2; pr++) {
                int ok = n == 0 && h == 0;
                for (int k = 0; k < n && !ok; k++) {
                    if (h && can[k][h - 1][0] && can[n - 1 - k][h - 1][0]) ok = 1;
                    if (!pr && can[k][h][1] && can[n - 1 - k][h][1]) ok = 1;
                }
                can[n][h][pr] = ok;
            }
}
static HevRBTreeNode *build (int lo, int hi, int h, int pr, HevRBTreeNode *up)
{
    int n = hi - lo, opt[2 * N + 2], m = 0, k, isred;
    HevRBTreeNode *x;
    if (!n) return NULL;
    for (k = 0; k < n; k++) {
        if (h && can[k][h - 1][0] && can[n - 1 - k][h - 1][0]) opt[m++] = 2 * k;
        if (!pr && can[k][h][1] && can[n - 1 - k][h][1]) opt[m++] = 2 * k + 1;
    }
    k = opt[sym_choice ("shape", m)];
    isred = k & 1;
    k /= 2;
    x = &e[lo + k].n;
    x->__parent_color = (unsigned long)up | (isred ? red : black);
    x->left = build (lo, lo + k, isred ? h : h - 1, isred, x);
    x->right = build (lo + k + 1, hi, isred ? h : h - 1, isred, x);
    return x;
}
void harness_step (void)
{
    int n, h, hs[6], m = 0;
    cached = sym_decide ("cached");
    /* how colours are stored: the first element is black, the second red */
    insert (&e[N + 1].n, 0);
    black = e[N + 1].n.__parent_color;
    insert (&e[N + 2].n, 1);
    red = e[N + 2].n.__parent_color ^ (unsigned long)&e[N + 1].n;
    know = red != black && red < 4 && black < 4;
    check ();
    memset (&tree, 0, sizeof (tree));
    cnt = 0;
    if (!know) {
        /* colours are stored in another way: only histories and shapes are judged */
        sym_cover ("inserted");
        sym_cover ("erased");
        sym_cover ("replaced");
        sym_end ();
    }
    feasible ();
    n = sym_pickr ("n", 0, N);
    for (h = 0; h < 6; h++) if (can[n][h][1]) hs[m++] = h;
    h = hs[sym_choice ("height", m)];
    cnt = n;
    for (int i = 0; i < n; i++) ord[i] = &e[i].n;
    tree.base.root = build (0, n, h, 1, NULL);
    tree.leftmost = n ? ord[0] : NULL;
    switch (sym_choice ("op", n ? 3 : 1)) {
    case 0:
        insert (&e[N].n, sym_pickr ("at", 0, n));
        sym_cover ("inserted");
        break;
    case 1:
        erase (sym_pickr ("which", 0, n - 1));
        sym_cover ("erased");
        break;
    case 2:
        replace (sym_pickr ("which", 0, n - 1), &e[N].n);
        sym_cover ("replaced");
        break;
    }
    check ();
}
void harness_history (void)
{
    int used = 0;
    cached = sym_decide ("cached");
    for (int k = 0; k < OPS; k++) {
        int op = cnt == 0 || k < OPS / 2 ? 0 : sym_choice ("op", 2);
        if (op == 0) {
            if (used == N) break;
            insert (&e[used].n, sym_pickr ("at", 0, cnt));
            used++;
        } else
            erase (sym_pickr ("which", 0, cnt - 1));
        check ();
    }
    sym_cover ("done");
}
