/* C02: navigation follows key order. */
#include "avl_model.h"

#ifdef PROBE
static void check_bounds(avl_tree_t *tree, model_t *m, int v)
{
    const akey_t *k = newkey(v);
    avl_elem_t *before = avl_tree_get_before(tree, k);
    avl_elem_t *onbefore = avl_tree_get_on_or_before(tree, k);
    avl_elem_t *after = avl_tree_get_after(tree, k);
    avl_elem_t *onafter = avl_tree_get_on_or_after(tree, k);
    int i = m_pos(m, v);                        /* first >= v */
    int hit = i < m->n && m->a[i].key->v == v;
    if (i > 0) {
        vp_cover("something before");
        check_elem(before, &m->a[i - 1], "before");
    } else
        vp_assert(before == NULL, "nothing before");
    if (hit) {
        vp_cover("exact hit");
        check_elem(onbefore, &m->a[i], "on_or_before");
        check_elem(onafter, &m->a[i], "on_or_after");
    } else {
        vp_assert(onbefore == before, "on_or_before is before when the key is absent");
        vp_assert(onafter == after, "on_or_after is after when the key is absent");
    }
    int j = hit ? i + 1 : i;
    if (j < m->n) {
        vp_cover("something after");
        check_elem(after, &m->a[j], "after");
    } else
        vp_assert(after == NULL, "nothing after");
}
#endif

void vp_main(void)
{
    vp_alloc_install();
    static model_t m;
    avl_tree_t *tree = make_avl_tree_2(akey_cmp2, &cmp_cookie);
#ifdef HIST
    symbolic_cmp();
    for (int s = 0; s < HIST; s++) {
        static const int ops[] = { OP_PUT, OP_POP, OP_POP_FIRST, OP_POP_LAST };
        int op = ops[vp_pick(4, "op")];
        avl_op(tree, &m, op, op == OP_POP_FIRST || op == OP_POP_LAST ? 0 : (int8_t) vp_u8("key"));
        check_traversal(tree, &m);
    }
#else
    build_shape(tree, &m, MINH, MAXH, MAXNODES, SYMKEYS);
#ifdef OPS
    static const int ops[] = { OP_PUT, OP_POP, OP_DETACH, OP_REMOVE, OP_POP_FIRST, OP_POP_LAST };
    int op = ops[vp_pick(OPS, "op")];
    avl_op(tree, &m, op, op == OP_POP_FIRST || op == OP_POP_LAST ? 0 : (int8_t) vp_u8("opkey"));
#endif
    check_traversal(tree, &m);
#endif
#ifdef PROBE
    check_bounds(tree, &m, (int8_t) vp_u8("probe"));
#endif
    destroy_avl_tree(tree);
    vp_no_leaks();
}
