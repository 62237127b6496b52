/* An association-list model of the tree, and construction of every AVL shape
 * through the public API. */
#include <stdlib.h>
#include "vp.h"
#include "avltree.h"

#define MAXN 80
#ifdef COVER_OPS
#define op_cover(l) vp_cover(l)
#else
#define op_cover(l) ((void) 0)
#endif

typedef struct { int v; } akey_t;
typedef struct { const akey_t *key; const void *val; } assoc_t;

static akey_t keypool[600];
static char valpool[600];
static int nkeys, nvals;
static int cmp_neg = -1, cmp_pos = 1;   /* what the comparator answers */
static long cmp_calls;
static int cmp_cookie;

static const akey_t *newkey(int v) { akey_t *k = &keypool[nkeys++]; k->v = v; return k; }
static const void *newval(void) { return &valpool[nvals++]; }

static int akey_cmp(const void *a, const void *b)
{
    int x = ((const akey_t *) a)->v, y = ((const akey_t *) b)->v;
    cmp_calls++;
    if (x < y)
        return cmp_neg;
    if (x > y)
        return cmp_pos;
    return 0;
}
static int akey_cmp2(const void *a, const void *b, void *obj)
{
    vp_assert(obj == &cmp_cookie, "comparator gets the caller's object");
    return akey_cmp(a, b);
}

/* arbitrary comparator answers of the right sign */
static void symbolic_cmp(void)
{
    cmp_neg = vp_i32("cmp_neg");
    cmp_pos = vp_i32("cmp_pos");
    vp_assume(cmp_neg < 0);
    vp_assume(cmp_pos > 0);
}

typedef struct { assoc_t a[MAXN]; int n; } model_t;   /* sorted by key */

/* index of the first association with key >= v */
static int m_pos(model_t *m, int v)
{
    int i = 0;
    while (i < m->n && m->a[i].key->v < v)
        i++;
    return i;
}
static int m_find(model_t *m, int v)
{
    int i = m_pos(m, v);
    return i < m->n && m->a[i].key->v == v ? i : -1;
}
static void m_insert(model_t *m, int i, const akey_t *k, const void *val)
{
    for (int j = m->n; j > i; j--)
        m->a[j] = m->a[j - 1];
    m->a[i].key = k;
    m->a[i].val = val;
    m->n++;
}
static void m_delete(model_t *m, int i)
{
    m->n--;
    for (int j = i; j < m->n; j++)
        m->a[j] = m->a[j + 1];
}

/* ---- every AVL shape of up to a given number of nodes ---- */
static int sh_l[64], sh_r[64], sh_n, sh_max;
#ifdef SPARSE
static int sp_pattern;              /* the sparsest trees of a height, leaning by a pattern */
static bool lean(int h) { return sp_pattern == 0 || (sp_pattern == 2 && h % 2) || (sp_pattern == 3 && h % 3 == 0); }
#endif
static int shape(int h)             /* index of a new subtree of height h, -1 if h == 0 */
{
    if (h == 0)
        return -1;
    vp_assume(sh_n < sh_max);
    int me = sh_n++;
    int lh = h - 1, rh = h - 1;
#ifdef SPARSE
    if (h > 1)
        *(lean(h) ? &rh : &lh) = h - 2;
#else
    if (h > 1) {
        switch (vp_pick(3, "skew")) {
            case 1: lh = h - 2; break;
            case 2: rh = h - 2; break;
        }
    }
#endif
    sh_l[me] = shape(lh);
    sh_r[me] = shape(rh);
    return me;
}
static int sh_rank[64], sh_cnt;
static void inorder(int t)
{
    if (t < 0)
        return;
    inorder(sh_l[t]);
    sh_rank[t] = sh_cnt++;
    inorder(sh_r[t]);
}

/* least number of nodes of an AVL tree of height h: 0 1 2 4 7 12 20 33 54 */
static int max_height(int n)
{
    int a = 0, b = 1, h = 0;        /* a = N(h), b = N(h + 1) */
    while (b <= n) {
        int c = a + b + 1;
        a = b;
        b = c;
        h++;
    }
    return h;
}

/* Fill the tree so that it has an arbitrary AVL shape of height at most maxh
 * and at most maxn nodes; keys are 2, 4, 6... (KEYS_SYMBOLIC: any increasing
 * ints). */
static void build_shape(avl_tree_t *tree, model_t *m, int minh, int maxh, int maxn, bool symkeys)
{
    sh_n = sh_cnt = 0;
    sh_max = maxn;
#ifdef SPARSE
    sp_pattern = vp_pick(4, "pattern");
#endif
    int h = minh + vp_pick(maxh - minh + 1, "height");
    int root = shape(h);
    inorder(root);
    int n = sh_n;
    const akey_t *ks[64];
    for (int i = 0; i < n; i++) {
        int v = 2 * i + 2;
        if (symkeys) {
            v = (int8_t) vp_u8("key");
            if (i)
                vp_assume(ks[i - 1]->v < v);
        }
        ks[i] = newkey(v);
        m->a[i].key = ks[i];
        m->a[i].val = newval();
    }
    m->n = n;
    /* level order insertion needs no rotation, so the shape comes out as chosen */
    int queue[64], head = 0, tail = 0;
    if (root >= 0)
        queue[tail++] = root;
    while (head < tail) {
        int t = queue[head++], r = sh_rank[t];
        avl_elem_t *old = avl_tree_put(tree, ks[r], m->a[r].val);
        vp_assert(old == NULL, "put of a new key returns NULL");
        if (sh_l[t] >= 0)
            queue[tail++] = sh_l[t];
        if (sh_r[t] >= 0)
            queue[tail++] = sh_r[t];
    }
}

static void check_elem(avl_elem_t *e, const assoc_t *a, const char *what)
{
    (void) what;
    vp_assert(e != NULL, "element present");
    vp_assert(avl_elem_get_key(e) == a->key, "element has its key");
    vp_assert(avl_elem_get_value(e) == a->val, "element has its value");
}

/* every association is found, sizes agree */
static void check_map(avl_tree_t *tree, model_t *m)
{
    vp_assert(avl_tree_size(tree) == (size_t) m->n, "size is exact");
    vp_assert(!avl_tree_empty(tree) == (m->n != 0), "emptiness is exact");
    for (int i = 0; i < m->n; i++)
        check_elem(avl_tree_get(tree, m->a[i].key), &m->a[i], "get");
}

static void check_traversal(avl_tree_t *tree, model_t *m)
{
    avl_elem_t *e = avl_tree_get_first(tree);
    for (int i = 0; i < m->n; i++) {
        check_elem(e, &m->a[i], "forward");
        e = avl_tree_next(e);
    }
    vp_assert(e == NULL, "forward traversal ends");
    e = avl_tree_get_last(tree);
    for (int i = m->n - 1; i >= 0; i--) {
        check_elem(e, &m->a[i], "backward");
        e = avl_tree_previous(e);
    }
    vp_assert(e == NULL, "backward traversal ends");
}

/* One operation with a symbolic key, mirrored in the model. */
enum { OP_PUT, OP_POP, OP_GET, OP_SAME, OP_POP_FIRST, OP_POP_LAST, OP_DETACH, OP_REMOVE, OP_N };

static void detached(avl_elem_t *e, model_t *m, int i)
{
    check_elem(e, &m->a[i], "detached");
    m_delete(m, i);
    destroy_avl_element(e);
}

static void avl_op(avl_tree_t *tree, model_t *m, int op, int v)
{
    int i;
    avl_elem_t *e;
    switch (op) {
        case OP_PUT: {
            const akey_t *k = newkey(v);
            const void *val = newval();
            e = avl_tree_put(tree, k, val);
            i = m_find(m, v);
            if (i >= 0) {
                op_cover("put replaces");
                check_elem(e, &m->a[i], "replaced");
                m->a[i].key = k;
                m->a[i].val = val;
                destroy_avl_element(e);
            } else {
                op_cover("put inserts");
                vp_assert(e == NULL, "put of a new key returns NULL");
                m_insert(m, m_pos(m, v), k, val);
            }
            break;
        }
        case OP_POP:
            e = avl_tree_pop(tree, newkey(v));
            i = m_find(m, v);
            if (i >= 0) {
                op_cover("pop hits");
                detached(e, m, i);
            } else {
                op_cover("pop misses");
                vp_assert(e == NULL, "pop of an absent key returns NULL");
            }
            break;
        case OP_GET:
            e = avl_tree_get(tree, newkey(v));
            i = m_find(m, v);
            if (i >= 0)
                check_elem(e, &m->a[i], "get");
            else
                vp_assert(e == NULL, "get of an absent key returns NULL");
            break;
        case OP_SAME:
            i = m_find(m, v);
            vp_assume(i >= 0);
            op_cover("same value put again");
            vp_assert(avl_tree_put(tree, newkey(v), m->a[i].val) == NULL, "storing the same value again returns NULL");
            break;
        case OP_POP_FIRST:
            e = avl_tree_pop_first(tree);
            if (m->n)
                detached(e, m, 0);
            else
                vp_assert(e == NULL, "pop_first of an empty tree");
            break;
        case OP_POP_LAST:
            e = avl_tree_pop_last(tree);
            if (m->n)
                detached(e, m, m->n - 1);
            else
                vp_assert(e == NULL, "pop_last of an empty tree");
            break;
        case OP_DETACH:
        case OP_REMOVE:
            i = m_find(m, v);
            vp_assume(i >= 0);
            e = avl_tree_get(tree, m->a[i].key);
            check_elem(e, &m->a[i], "get");
            if (op == OP_DETACH) {
                op_cover("detach");
                avl_tree_detach(tree, e);
                detached(e, m, i);
            } else {
                avl_tree_remove(tree, e);
                m_delete(m, i);
            }
            break;
    }
}
