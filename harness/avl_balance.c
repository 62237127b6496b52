/* C03: comparator calls stay within the height of the sparsest AVL tree. */
#include "avl_model.h"
#ifndef LIMIT
#define LIMIT 20
#endif

#define BOUNDED(n, what) vp_assert(cmp_calls <= max_height(n), what)

/* look up every key, and every gap if asked */
static void check_cost(avl_tree_t *tree, model_t *m, bool gaps)
{
    for (int i = 0; i < m->n; i++) {
        cmp_calls = 0;
        avl_tree_get(tree, m->a[i].key);
        BOUNDED(m->n, "lookup cost is logarithmic");
    }
    if (gaps) {
        static akey_t k;
        for (int i = 0; i <= m->n; i++) {
            k.v = i ? m->a[i - 1].key->v + 1 : m->n ? m->a[0].key->v - 1 : 0;
            cmp_calls = 0;
            avl_tree_get(tree, &k);
            BOUNDED(m->n, "lookup cost is logarithmic");
        }
    }
}

static void cost_op(avl_tree_t *tree, model_t *m, int op, int v)
{
    int n = m->n;
    cmp_calls = 0;
    avl_op(tree, m, op, v);
    BOUNDED(n, "insertion or removal cost is logarithmic");
}

void vp_main(void)
{
    vp_alloc_install();
    static model_t m;
    avl_tree_t *tree = make_avl_tree(akey_cmp);
#if defined(PERM)
    /* every order of inserting PERM keys, then drained in symbolic order */
    for (int s = 0; s < PERM; s++) {
        int v = (int8_t) vp_u8("key");
        vp_assume(m_find(&m, v) < 0);
        cost_op(tree, &m, OP_PUT, v);
        check_cost(tree, &m, false);
    }
#else
    build_shape(tree, &m, MINH, MAXH, MAXNODES, SYMKEYS);
    check_cost(tree, &m, !SYMKEYS);
#endif
    for (int i = 0; i < OPS; i++) {
        static const int ops[] = { OP_POP, OP_PUT };
        int op = ops[vp_pick(2, "op")];
        cost_op(tree, &m, op, (int8_t) vp_u8("opkey"));
        check_cost(tree, &m, false);
        if (m.n >= 3)
            vp_cover("after operation");
    }
    /* continue in ways that let a wrong balance factor show */
    int more = 2 * m.n + 2;
    switch (vp_pick(4, "continuation")) {
        case 0:
            while (m.n) {
                cost_op(tree, &m, OP_POP_FIRST, 0);
                check_cost(tree, &m, false);
            }
            break;
        case 1:
            while (m.n) {
                cost_op(tree, &m, OP_POP_LAST, 0);
                check_cost(tree, &m, false);
            }
            break;
        case 2:
            for (int i = 0; i < more && m.n < LIMIT; i++) {
                cost_op(tree, &m, OP_PUT, 1000 + i);
                check_cost(tree, &m, false);
            }
            break;
        default:
            for (int i = 0; i < more && m.n < LIMIT; i++) {
                cost_op(tree, &m, OP_PUT, -1000 - i);
                check_cost(tree, &m, false);
            }
            break;
    }
    destroy_avl_tree(tree);
}
