/* C01: the tree is an exact map. */
#define COVER_OPS
#include "avl_model.h"

#ifdef HIST
/* A history of symbolic operations on symbolic keys from the empty tree. */
void vp_main(void)
{
    vp_alloc_install();
    symbolic_cmp();
    static model_t m;
    avl_tree_t *tree = vp_pick(2, "ctor") ? make_avl_tree(akey_cmp) : make_avl_tree_2(akey_cmp2, &cmp_cookie);
    vp_assert(avl_tree_size(tree) == 0 && avl_tree_empty(tree), "a new tree is empty");
    for (int s = 0; s < HIST; s++) {
        int op = vp_pick(OP_N, "op");
        avl_op(tree, &m, op, op == OP_POP_FIRST || op == OP_POP_LAST ? 0 : (int8_t) vp_u8("key"));
        vp_assert(avl_tree_size(tree) == (size_t) m.n, "size is exact");
    }
    check_map(tree, &m);
    avl_op(tree, &m, OP_GET, (int8_t) vp_u8("probe"));
    destroy_avl_tree(tree);
    vp_no_leaks();
}
#else
/* Any AVL shape, one symbolic operation, everything looked up, then drained. */
void vp_main(void)
{
    vp_alloc_install();
    static model_t m;
    avl_tree_t *tree = make_avl_tree(akey_cmp);
    build_shape(tree, &m, MINH, MAXH, MAXNODES, SYMKEYS);
    int op = vp_pick(OP_N, "op");
    int v = op == OP_POP_FIRST || op == OP_POP_LAST ? 0 : (int8_t) vp_u8("opkey");
    avl_op(tree, &m, op, v);
    check_map(tree, &m);
#ifdef SECOND
    op = vp_pick(OP_N, "op2");
    v = op == OP_POP_FIRST || op == OP_POP_LAST ? 0 : (int8_t) vp_u8("opkey2");
    avl_op(tree, &m, op, v);
    check_map(tree, &m);
#endif
    if (m.n > 3)
        vp_cover("big tree");
    while (m.n) {
        avl_op(tree, &m, m.n & 1 ? OP_POP_FIRST : OP_POP_LAST, 0);
        check_map(tree, &m);
    }
    destroy_avl_tree(tree);
    vp_no_leaks();
}
#endif
