/* C06, C07: the hash table is an exact map and traversals are complete. */
#include "vp.h"
#include "hashtable.h"

#define MAXE 80
#ifdef SYMHASH
#define op_cover(l) ((void) 0)
#else
#define op_cover(l) vp_cover(l)
#endif
typedef struct { int v; uint64_t h; } hkey_t;
static hkey_t pool[256];
static int npool;
static char vals[256];
static int nvals;
typedef struct { const hkey_t *k[MAXE]; const void *v[MAXE]; int n; } map_t;

static int cmp_nz = 1;
static uint64_t hfun(const void *k) { return ((const hkey_t *) k)->h; }
static int hcmp(const void *a, const void *b) { return ((const hkey_t *) a)->v == ((const hkey_t *) b)->v ? 0 : cmp_nz; }

/* Any assignment of hashes to keys: the first key with a value picks its
 * hash, later equal keys have the same. */
static hkey_t *newkey(void)
{
    hkey_t *k = &pool[npool++];
#ifdef KEYRANGE
    k->v = vp_pick(KEYRANGE, "key");
#else
    k->v = vp_i32("key");
#endif
    for (hkey_t *p = pool; p < k; p++)
        if (p->v == k->v) {
            k->h = p->h;
            return k;
        }
#ifdef SYMHASH
    k->h = vp_u64("hash");
#else
    static const uint64_t hs[] = { 0, 53, UINT64_MAX, 1, 52, 0x100000035ULL, 96, 97 };
    k->h = hs[vp_pick(NHASH, "hash")];
#endif
    return k;
}
static int find(map_t *m, int v)
{
    for (int i = 0; i < m->n; i++)
        if (m->k[i]->v == v)
            return i;
    return -1;
}
static void del(map_t *m, int i)
{
    m->n--;
    m->k[i] = m->k[m->n];
    m->v[i] = m->v[m->n];
}
static void is(hash_elem_t *e, map_t *m, int i)
{
    vp_assert(e != NULL, "element present");
    vp_assert(hash_elem_get_key(e) == m->k[i], "element has its key");
    vp_assert(hash_elem_get_value(e) == m->v[i], "element has its value");
}

static void check(hash_table_t *t, map_t *m)
{
    vp_assert(hash_table_size(t) == (size_t) m->n, "size is exact");
    vp_assert(!hash_table_empty(t) == (m->n > 0), "emptiness is exact");
    for (int i = 0; i < m->n; i++)
        is(hash_table_get(t, m->k[i]), m, i);
}

/* which entry of the model is this element? */
static int which(hash_elem_t *e, map_t *m)
{
    for (int i = 0; i < m->n; i++)
        if (hash_elem_get_key(e) == m->k[i]) {
            vp_assert(hash_elem_get_value(e) == m->v[i], "element has its value");
            return i;
        }
    vp_assert(0, "element belongs to the table");
    return -1;
}

#ifdef TRAVERSE
static void traverse(hash_table_t *t, map_t *m)
{
    bool seen[MAXE] = { 0 };
    int count = 0;
    for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e)) {
        int i = which(e, m);
        vp_assert(!seen[i], "no element visited twice");
        seen[i] = true;
        count++;
    }
    vp_assert(count == m->n, "every element visited");
}
static void drain(hash_table_t *t, map_t *m)
{
    hash_elem_t *e;
    while ((e = hash_table_pop_any(t))) {
        int i = which(e, m);
        destroy_hash_element(e);
        del(m, i);
        check(t, m);
    }
    vp_assert(m->n == 0, "pop_any empties the table");
    vp_assert(hash_table_get_any(t) == NULL, "nothing left");
}
#endif

static void operate(hash_table_t *t, map_t *m)
{
    hkey_t *k;
    hash_elem_t *e;
    int i;
    switch (vp_pick(NOPS, "op")) {
        case 0:
            k = newkey();
            e = hash_table_put(t, k, &vals[nvals]);
            i = find(m, k->v);
            if (i >= 0) {
                op_cover("put replaces");
                is(e, m, i);
                destroy_hash_element(e);
                m->k[i] = k;
                m->v[i] = &vals[nvals++];
            } else {
                vp_assert(e == NULL, "put of a new key returns NULL");
                m->k[m->n] = k;
                m->v[m->n++] = &vals[nvals++];
            }
            break;
        case 1:
            k = newkey();
            e = hash_table_pop(t, k);
            i = find(m, k->v);
            if (i >= 0) {
                op_cover("pop hits");
                is(e, m, i);
                destroy_hash_element(e);
                del(m, i);
            } else
                vp_assert(e == NULL, "pop of an absent key returns NULL");
            break;
#ifndef TRAVERSE
        case 2:
            k = newkey();
            i = find(m, k->v);
            e = hash_table_get(t, k);
            if (i >= 0)
                is(e, m, i);
            else {
                vp_assert(e == NULL, "get of an absent key returns NULL");
                break;
            }
            switch (vp_pick(4, "then")) {
                case 0:
                    hash_table_detach(t, e);
                    is(e, m, i);
                    destroy_hash_element(e);
                    del(m, i);
                    op_cover("detached");
                    break;
                case 1:
                    hash_table_remove(t, e);
                    del(m, i);
                    break;
                case 2:
                    vp_assert(hash_table_put(t, k, m->v[i]) == NULL, "storing the same value again returns NULL");
                    vp_assert(hash_table_get(t, k) == e, "storing the same value again has no effect");
                    op_cover("same value");
                    break;
            }
            break;
#else
        case 2:
            e = hash_table_pop_any(t);
            if (m->n) {
                vp_assert(e != NULL, "pop_any finds an element");
                i = which(e, m);
                destroy_hash_element(e);
                del(m, i);
            } else
                vp_assert(e == NULL, "pop_any of an empty table");
            break;
#endif
    }
}

void vp_main(void)
{
    vp_alloc_install();
    static map_t m;
#ifdef BIGCAP
    static const size_t caps[] = { 3000, 20000, 800, 100000 };
#else
    static const size_t caps[] = { 0, 54, 1, 53, 98, 194, 400 };
#endif
    cmp_nz = vp_i32("unequal");
    vp_assume(cmp_nz != 0);
    hash_table_t *t = make_hash_table(caps[vp_pick(NCAP, "capacity")], hfun, hcmp);
    check(t, &m);
#ifdef FILL
    /* more elements than the declared capacity, hashes i * stride */
    uint64_t stride = vp_pick(3, "stride");
    for (int i = 0; i < FILL; i++) {
        hkey_t *k = &pool[npool++];
        k->v = 1000 + i;
        k->h = i * stride * 0x9e3779b97f4a7c15ULL;
        if (stride == 1)
            k->h = i;
        vp_assert(hash_table_put(t, k, &vals[nvals]) == NULL, "put of a new key returns NULL");
        m.k[m.n] = k;
        m.v[m.n++] = &vals[nvals++];
    }
    check(t, &m);
#endif
    for (int i = 0; i < HIST; i++) {
        operate(t, &m);
        check(t, &m);
#ifdef TRAVERSE
        traverse(t, &m);
#endif
    }
#ifdef TRAVERSE
    traverse(t, &m);
    if (m.n > 1)
        vp_cover("two keys");
    drain(t, &m);
#endif
#ifndef TRAVERSE
    if (m.n > 1)
        vp_cover("two keys");
#endif
    destroy_hash_table(t);
    vp_no_leaks();
}
