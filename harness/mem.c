/* C36: whatever the caller does, all blocks come back exactly once. */
#include <errno.h>
#include <string.h>
#include "vp.h"
#include "avltree.h"
#include "base64.h"
#include "bytearray.h"
#include "charstr.h"
#include "fsalloc.h"
#include "hashtable.h"
#include "intset.h"
#include "list.h"
#include "priority_queue.h"

typedef struct { int v; uint64_t h; void *loc; } item_t;
static item_t items[32];
static int nitems;

static int cmp(const void *a, const void *b)
{
    int x = ((const item_t *) a)->v, y = ((const item_t *) b)->v;
    return x < y ? -1 : x > y;
}
static item_t *item(void)
{
    item_t *i = &items[nitems++];
    i->v = (int) vp_sym(8, "key");
    return i;
}

#if defined(AVL)
static void run(void)
{
    avl_tree_t *t = make_avl_tree(cmp), *copy = NULL;
    avl_elem_t *out[HIST + 2];
    unsigned n = 0;
    for (unsigned i = 0; i < HIST; i++) {
        avl_elem_t *e = NULL;
        switch (vp_pick(6, "op")) {
            case 0:
            case 1:
                e = avl_tree_put(t, item(), "v");
                break;
            case 2:
                e = avl_tree_pop(t, item());
                break;
            case 3:
                e = avl_tree_pop_first(t);
                break;
            case 4:
                e = avl_tree_get_last(t);
                if (e)
                    avl_tree_detach(t, e);
                break;
            case 5:
                e = avl_tree_get(t, item());
                if (e)
                    avl_tree_remove(t, e);
                e = NULL;
                break;
        }
        if (e)
            out[n++] = e;
        if (i == HIST / 2)
            copy = avl_tree_copy(t);
    }
    bool early = vp_pick(2, "early");
    if (early)
        for (unsigned i = 0; i < n; i++)
            destroy_avl_element(out[i]);
    if (!avl_tree_empty(t))
        vp_cover("destroyed with elements");
    destroy_avl_tree(t);
    if (!early)
        for (unsigned i = 0; i < n; i++)
            destroy_avl_element(out[i]);
    if (n && !early)
        vp_cover("elements outlive the tree");
    destroy_avl_tree(copy);
}
#elif defined(HASH)
static int eq(const void *a, const void *b) { return ((const item_t *) a)->v != ((const item_t *) b)->v; }
static uint64_t hash(const void *a) { return (uint64_t) (((const item_t *) a)->v & 1) * 53; }
static void run(void)
{
    hash_table_t *t = make_hash_table(vp_pick(2, "capacity") ? 100 : 0, hash, eq);
    hash_elem_t *out[HIST + 2];
    unsigned n = 0;
    for (unsigned i = 0; i < HIST; i++) {
        hash_elem_t *e = NULL;
        switch (vp_pick(6, "op")) {
            case 0:
            case 1:
                e = hash_table_put(t, item(), "v");
                break;
            case 2:
                e = hash_table_pop(t, item());
                break;
            case 3:
                e = hash_table_pop_any(t);
                break;
            case 4:
                e = hash_table_get(t, item());
                if (e)
                    hash_table_detach(t, e);
                break;
            case 5:
                e = hash_table_get_any(t);
                if (e)
                    hash_table_remove(t, e);
                e = NULL;
                break;
        }
        if (e)
            out[n++] = e;
    }
    bool early = vp_pick(2, "early");
    if (early)
        for (unsigned i = 0; i < n; i++)
            destroy_hash_element(out[i]);
    if (!hash_table_empty(t))
        vp_cover("destroyed with elements");
    destroy_hash_table(t);
    if (!early)
        for (unsigned i = 0; i < n; i++)
            destroy_hash_element(out[i]);
    if (n && !early)
        vp_cover("elements outlive the table");
}
#elif defined(LIST)
static void discard(const void *v, void *arg)
{
    ++*(unsigned *) arg;
    fsfree((void *) v);
}
static void run(void)
{
    list_t *l = make_list(), *copy;
    unsigned own = 0, freed = 0;
    for (unsigned i = 0; i < HIST; i++) {
        char *v = NULL;
        list_elem_t *e;
        switch (vp_pick(7, "op")) {
            case 0:
                list_append(l, charstr_dupstr("a"));
                own++;
                break;
            case 1:
                list_prepend(l, charstr_dupstr(""));
                own++;
                break;
            case 2:
                e = list_get_by_index(l, (int) vp_pick(3, "at"));
                if (e) {
                    list_insert_before(l, charstr_dupstr("bc"), e);
                    own++;
                }
                break;
            case 3:
                v = (char *) list_pop_first(l);
                own -= v != NULL;
                break;
            case 4:
                v = (char *) list_pop_last(l);
                own -= v != NULL;
                break;
            case 5:
                e = list_get_by_index(l, (int) vp_sym(32, "at"));
                if (e) {
                    v = (char *) list_elem_get_value(e);
                    list_remove(l, e);
                    own--;
                }
                break;
            case 6:
                copy = list_copy(l);
                destroy_list(copy);
                break;
        }
        fsfree(v);
    }
    vp_assert(list_size(l) == own, "size");
    copy = list_copy(l);
    destroy_list(l);
    list_foreach(copy, discard, &freed);
    vp_assert(freed == own, "every value visited");
    destroy_list(copy);
    if (freed)
        vp_cover("freed by list_foreach");
}
#elif defined(PRIORQ)
static void reloc(const void *e, void *loc) { ((item_t *) e)->loc = loc; }
static void run(void)
{
    priorq_t *q = make_priority_queue(cmp, vp_pick(2, "no_reloc") ? NULL : reloc);
    for (unsigned i = 0; i < HIST; i++)
        switch (vp_pick(4, "op")) {
            case 0:
            case 1:
            case 2:
                priorq_enqueue(q, item());
                break;
            case 3:
                if (vp_pick(2, "pop"))
                    priorq_pop(q);
                else
                    priorq_dequeue(q);
                break;
        }
    if (!priorq_empty(q))
        vp_cover("destroyed with elements");
    destroy_priority_queue(q);
}
#elif defined(BYTES)
static ssize_t reader(void *obj, void *buf, size_t count)
{
    size_t n = vp_u64("read");
    if (vp_pick(2, "fails"))
        return -1;
    vp_assume(n <= count && n <= 3);
    n = vp_concrete(n);
    memset(buf, 'r', n);
    return (ssize_t) n;
}
static void run(void)
{
    byte_array_t *h[HIST + 1];
    unsigned n = 1;
    size_t max = (size_t) vp_u8("max_size");
    vp_assume(max <= 9);
    h[0] = make_byte_array(vp_concrete(max));
    for (unsigned i = 0; i < HIST && n; i++) {
        byte_array_t *a = h[n > 1 ? vp_pick(n, "handle") : 0];
        switch (vp_pick(6, "op")) {
            case 0:
                h[n++] = share_byte_array(a);
                break;
            case 1:
                byte_array_append(a, "0123456", vp_pick(8, "length"));
                break;
            case 2:
                byte_array_append_stream(a, reader, NULL, vp_pick(4, "count"));
                break;
            case 3:
                byte_array_clear(a);
                break;
            case 4: {
                unsigned size = vp_pick(10, "size");
                byte_array_resize(a, size, (int) vp_u8("fill"));
                break;
            }
            case 5:
                for (unsigned j = 0; j < n; j++)
                    if (h[j] == a) {
                        h[j] = h[--n];
                        break;
                    }
                destroy_byte_array(a);
                if (!n)
                    vp_cover("last owner gone early");
                break;
        }
    }
    if (n > 1)
        vp_cover("shared at the end");
    while (n)
        destroy_byte_array(h[--n]);
}
#elif defined(INTSET)
static void run(void)
{
    size_t n = vp_u8("size");
    vp_assume(n >= 1 && n <= 200);
    n = vp_halve(n, 1, 200);
    intset_t *s = make_intset(n);
    for (unsigned i = 0; i < HIST; i++) {
        unsigned at = vp_u8("at");
        vp_assume(at < n);
        switch (vp_pick(4, "op")) {
            case 0:
                intset_fill(s);
                break;
            case 1:
                intset_add(s, at);
                break;
            case 2:
                intset_remove(s, at);
                break;
            case 3:
                intset_has(s, at);
                break;
        }
    }
    destroy_intset(s);
    vp_cover("destroyed");
}
#else
static void discard(const void *v, void *arg) { fsfree((void *) v); }
static void lose(list_t *l)
{
    list_foreach(l, discard, NULL);
    destroy_list(l);
}
static void run(void)
{
    unsigned n = vp_pick(MAXN + 1, "n");
    char *s = vp_buf(n + 1), *r, *q, *parts[4];
    size_t size;
    for (unsigned i = 0; i < n; i++) {
        s[i] = (char) vp_u8("char");
        vp_assume(s[i]);
    }
    s[n] = 0;
    unsigned max = vp_pick(3, "max");
    if (max == 2)
        max = -1;
    switch (vp_pick(13, "function")) {
        case 0:
            fsfree(charstr_dupstr(s));
            fsfree(charstr_dupsubstr(s, s + n / 2));
            break;
        case 1:
            r = charstr_ucase_str(charstr_lcase_str(charstr_dupstr(s)));       /* in place */
            charstr_lcase_substr(r + n / 2, r + n);
            charstr_ucase_substr(r, r + n / 2);
            fsfree(r);
            break;
        case 2:
            lose(charstr_split(s, ',', max));
            break;
        case 3:
            for (unsigned i = charstr_split_into_array(s, ',', parts, 3);; i--) {
                fsfree(parts[i]);
                if (!i)
                    break;
            }
            break;
        case 4:
            lose(charstr_split_atoms(s));
            break;
        case 5:
            lose(charstr_split_str(s, ",;", max));
            break;
        case 6:
            fsfree(charstr_strip(s));
            break;
        case 7:
            r = charstr_sanitize_utf8(s);
            fsfree(r);
            break;
        case 8:
            r = charstr_url_encode(s);
            q = charstr_url_decode(r, max, NULL);
            vp_assert(q, "decoded");
            fsfree(r);
            fsfree(q);
            break;
        case 9:
            r = charstr_url_decode(s, max, &size);
            if (!r)
                vp_cover("url refused");
            fsfree(r);
            break;
        case 10: {
            charstr_url_encoder_t *e = charstr_create_url_encoder("/,", "$~");
            fsfree(charstr_url_custom_encode(e, s));
            charstr_destroy_url_encoder(e);
            break;
        }
        case 11:
            r = base64_encode_simple(s, n);
            q = base64_decode_simple(r, &size);
            vp_assert(q && size == n, "decoded");
            fsfree(r);
            fsfree(q);
            break;
        case 12:
            q = base64_decode_simple(s, &size);
            if (!q)
                vp_cover("base64 refused");
            fsfree(q);
            break;
    }
    vp_unbuf(s);
}
#endif

void vp_main(void)
{
    vp_alloc_install();
    run();
    vp_no_leaks();
}
