/* C04: a copy is equal and independent. */
#include "avl_model.h"

static void check_height(avl_tree_t *tree, model_t *m)
{
    for (int i = 0; i < m->n; i++) {
        cmp_calls = 0;
        avl_tree_get(tree, m->a[i].key);
        vp_assert(cmp_calls <= max_height(m->n), "lookup cost is logarithmic");
    }
}

void vp_main(void)
{
    vp_alloc_install();
    static model_t m[2];
    avl_tree_t *tree[2];
    tree[0] = vp_pick(2, "ctor") ? make_avl_tree_2(akey_cmp2, &cmp_cookie) : make_avl_tree(akey_cmp);
    build_shape(tree[0], &m[0], MINH, MAXH, MAXNODES, false);
    tree[1] = avl_tree_copy(tree[0]);
    m[1] = m[0];
    for (int t = 0; t < 2; t++) {
        check_map(tree[t], &m[t]);
        check_traversal(tree[t], &m[t]);
        check_height(tree[t], &m[t]);
    }
    int t;
    for (int i = 0; i < OPS; i++) {
        t = vp_pick(2, "which");
        int op = vp_pick(OP_N, "op");
        avl_op(tree[t], &m[t], op, op == OP_POP_FIRST || op == OP_POP_LAST ? 0 : (int8_t) vp_u8("opkey"));
        vp_cover("operated after copy");
        for (int u = 0; u < 2; u++) {
            check_map(tree[u], &m[u]);
            check_traversal(tree[u], &m[u]);
            check_height(tree[u], &m[u]);
        }
    }
    t = vp_pick(2, "destroy_first");
    destroy_avl_tree(tree[t]);
    t = !t;
    check_map(tree[t], &m[t]);
    check_traversal(tree[t], &m[t]);
    while (m[t].n) {
        avl_op(tree[t], &m[t], m[t].n & 1 ? OP_POP_FIRST : OP_POP_LAST, 0);
        check_map(tree[t], &m[t]);
        check_traversal(tree[t], &m[t]);
        check_height(tree[t], &m[t]);
    }
    destroy_avl_tree(tree[t]);
    vp_no_leaks();
}
