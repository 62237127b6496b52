/* Containers with more than 65536 elements: built by fixed operations, then
 * operations with symbolic keys, values and priorities. */
#include <string.h>
#include "vp.h"
#include "fsalloc.h"

#ifndef N
#define N 66000
#endif
static int keys[N];

#ifdef ONLYOP
#define PICKOP(n) ONLYOP
#else
#define PICKOP(n) vp_pick(n, "op")
#endif

/* a symbolic key near the beginning, the middle or the end */
static int window(int step, const char *name)
{
    static const int at[] = { 0, N / 2, N - 1, 65535, 65536, 32768 };
    int base = at[vp_pick(NWIN, "window")] * step;
    int d = (int8_t) vp_u8(name);
    vp_assume(d >= -2 && d <= 2);
    return base + d;
}

#if defined(AVL)
#include "avltree.h"

#define NONE (-1000)
static unsigned long ncmp;
static int cookie;
static int cmp(const void *a, const void *b, void *obj)
{
    vp_assert(obj == &cookie, "the comparator gets its object");
    ncmp++;
    int x = *(const int *) a, y = *(const int *) b;
    return x < y ? -1 : x > y;
}

static int newkey;
/* every key in order; 'gone' is left out, 'extra' is in addition (both -1: none) */
static void walk(avl_tree_t *t, int gone, int extra, size_t n)
{
    size_t count = 0;
    int last = -100, bad = 0;
    for (avl_elem_t *e = avl_tree_get_first(t); e; e = avl_tree_next(e)) {
        int k = *(const int *) avl_elem_get_key(e);
        if (k <= last || k == gone)
            bad = 1;
        if (avl_elem_get_value(e) != &keys[k / 2] && k != extra)
            bad = 1;
        last = k;
        count++;
    }
    vp_assert(!bad, "in order, the right values");
    vp_assert(count == n && avl_tree_size(t) == n, "as many as put");
    last = 3 * N;
    count = 0;
    for (avl_elem_t *e = avl_tree_get_last(t); e; e = avl_tree_previous(e)) {
        int k = *(const int *) avl_elem_get_key(e);
        if (k >= last)
            bad = 1;
        last = k;
        count++;
    }
    vp_assert(!bad && count == n, "in reverse order");
}

void vp_main(void)
{
    vp_alloc_install();
    avl_tree_t *t = make_avl_tree_2(cmp, &cookie);
    int mul = vp_pick(NORDERS, "order") ? 1 : 40009; /* ascending, or scattered */
    for (long i = 0; i < N; i++) {
        int j = (int) (i * mul % N);
        keys[j] = 2 * j;
        ncmp = 0;
        vp_assert(!avl_tree_put(t, &keys[j], &keys[j]), "new key");
        vp_assert(ncmp <= 25, "few comparisons");
    }
    vp_assert(avl_tree_size(t) == N, "size");
    newkey = window(2, "key");
    int k = newkey = (int) vp_halve((unsigned) newkey + 4, 0, 4 * N) - 4; /* one path per key */
    bool in = k >= 0 && k < 2 * N && k % 2 == 0;
    avl_elem_t *e;
    ncmp = 0;
    switch (PICKOP(5)) {
        case 0:
            e = avl_tree_get(t, &newkey);
            vp_assert(in ? e && avl_elem_get_key(e) == &keys[k / 2] && avl_elem_get_value(e) == &keys[k / 2] : !e, "lookup");
            vp_assert(ncmp <= 25, "few comparisons");
            avl_elem_t *b = avl_tree_get_before(t, &newkey), *ob = avl_tree_get_on_or_before(t, &newkey),
                *a = avl_tree_get_after(t, &newkey), *oa = avl_tree_get_on_or_after(t, &newkey);
            int pk = k - (k % 2 ? 1 : 2), nk = k + (k % 2 ? 1 : 2);
            if (k >= 2 * N)
                pk = 2 * N - 2;
            if (k < 0)
                nk = 0;
            vp_assert(pk >= 0 ? b && avl_elem_get_key(b) == &keys[pk / 2] : !b, "before");
            vp_assert(nk < 2 * N ? a && avl_elem_get_key(a) == &keys[nk / 2] : !a, "after");
            vp_assert(ob == (in ? e : b), "on or before");
            vp_assert(oa == (in ? e : a), "on or after");
            walk(t, NONE, NONE, N);
            break;
        case 1:
            e = avl_tree_put(t, &newkey, &newkey);
            vp_assert(ncmp <= 25, "few comparisons");
            vp_assert(in ? e && avl_elem_get_key(e) == &keys[k / 2] && avl_elem_get_value(e) == &keys[k / 2] : !e, "what was there");
            if (e)
                destroy_avl_element(e);
            walk(t, NONE, k, N + !in);
            
            break;
        case 2:
            e = avl_tree_pop(t, &newkey);
            vp_assert(in ? e && avl_elem_get_key(e) == &keys[k / 2] : !e, "what was there");
            if (e)
                destroy_avl_element(e);
            walk(t, in ? k : NONE, NONE, N - in);
            break;
        case 3: {
            avl_tree_t *c = avl_tree_copy(t);
            if (in)
                avl_tree_remove(t, avl_tree_get(t, &newkey));
            walk(t, in ? k : NONE, NONE, N - in);
            walk(c, NONE, NONE, N);
            destroy_avl_tree(t);
            t = c;
            vp_assert(in == (avl_tree_get(t, &newkey) != NULL), "the copy is unaffected");
            break;
        }
        default:
            for (int i = 0; i < N; i++) {
                e = i % 2 ? avl_tree_pop_last(t) : avl_tree_pop_first(t);
                vp_assert(avl_elem_get_key(e) == &keys[i % 2 ? N - 1 - i / 2 : i / 2], "pops in order");
                destroy_avl_element(e);
                if (i % 8192 == 0) {
                    int probe = keys[i / 2 + 1 + (N - i) / 2];
                    ncmp = 0;
                    avl_tree_get(t, &probe);
                    vp_assert(ncmp <= 25, "still balanced");
                }
            }
            vp_assert(avl_tree_empty(t) && !avl_tree_get_first(t), "drained");
            break;
    }
    vp_cover("done");
    destroy_avl_tree(t);
    vp_no_leaks();
}

#elif defined(LIST)
#include "list.h"

static void walk(list_t *l, int gone, int at, const void *extra, size_t n)
{
    size_t count = 0;
    int bad = 0, i = 0, j = 0;
    for (list_elem_t *e = list_get_first(l); e; e = list_next(e), j++) {
        const void *want;
        if (j == at)
            want = extra;
        else {
            if (i == gone)
                i++;
            want = &keys[i++];
        }
        if (list_elem_get_value(e) != want)
            bad = 1;
        count++;
    }
    vp_assert(!bad, "the values in order");
    vp_assert(count == n && list_size(l) == n, "size");
    count = 0;
    for (list_elem_t *e = list_get_last(l); e; e = list_previous(e))
        count++;
    vp_assert(count == n, "backwards");
}

void vp_main(void)
{
    vp_alloc_install();
    list_t *l = make_list();
    for (int i = N / 2; i < N; i++)
        list_append(l, &keys[i]);
    for (int i = N / 2; i--;)
        list_prepend(l, &keys[i]);
    int k = window(1, "index");
    k = (int) vp_halve((unsigned) k + 4, 0, 2 * N) - 4;
    bool in = k >= 0 && k < N;
    list_elem_t *e = list_get_by_index(l, k);
    vp_assert(in ? e && list_elem_get_value(e) == &keys[k] : !e, "by index");
    static int extra;
    if (in) {
        vp_assert(list_get(l, &keys[k]) == e, "by value");
        switch (PICKOP(3)) {
            case 0:
                list_remove(l, e);
                walk(l, k, -1, NULL, N - 1);
                break;
            case 1:
                list_insert_before(l, &extra, e);
                walk(l, -1, k, &extra, N + 1);
                break;
            default: {
                list_t *c = list_copy(l);
                list_remove(l, e);
                walk(l, k, -1, NULL, N - 1);
                walk(c, -1, -1, NULL, N);
                destroy_list(l);
                l = c;
                for (int i = 0; i < N; i++)
                    vp_assert((i % 2 ? list_pop_last(l) : list_pop_first(l)) == &keys[i % 2 ? N - 1 - i / 2 : i / 2], "pops in order");
                vp_assert(list_empty(l) && list_size(l) == 0, "empty");
                break;
            }
        }
    } else
        vp_cover("out of range");
    destroy_list(l);
    vp_no_leaks();
}

#elif defined(HASH)
#include "hashtable.h"

static uint64_t hash(const void *k)
{
    return (uint64_t) *(const int *) k * HASHMUL;
}
static int cmp(const void *a, const void *b) { return *(const int *) a != *(const int *) b; }

static uint8_t seen[N];
static void walk(hash_table_t *t, int gone, const void *extra, size_t n)
{
    size_t count = 0;
    int bad = 0;
    memset(seen, 0, sizeof seen);
    for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e), count++) {
        if (hash_elem_get_value(e) == extra)
            continue;
        const int *k = hash_elem_get_key(e);
        if (k < keys || k >= keys + N || seen[k - keys] || k - keys == gone || hash_elem_get_value(e) != k) {
            bad = 1;
            break;
        }
        seen[k - keys] = 1;
    }
    vp_assert(!bad, "each element once");
    vp_assert(count == n && hash_table_size(t) == n, "as many as put");
}

void vp_main(void)
{
    static int extra;
    vp_alloc_install();
    static const size_t caps[] = { 80000, 60000 };
    hash_table_t *t = make_hash_table(caps[vp_pick(NCAP, "capacity")], hash, cmp);
    for (int i = 0; i < N; i++) {
        keys[i] = i;
        vp_assert(!hash_table_put(t, &keys[i], &keys[i]), "new key");
    }
    int k = window(1, "key");
    int newkey = k = (int) vp_halve((unsigned) k + 4, 0, 2 * N) - 4;
    bool in = k >= 0 && k < N;
    hash_elem_t *e;
    switch (PICKOP(4)) {
        case 0:
            e = hash_table_get(t, &newkey);
            vp_assert(in ? e && hash_elem_get_key(e) == &keys[k] && hash_elem_get_value(e) == &keys[k] : !e, "lookup");
            walk(t, -1, &extra, N);
            break;
        case 1:
            e = hash_table_put(t, &newkey, &extra);
            vp_assert(in ? e && hash_elem_get_key(e) == &keys[k] && hash_elem_get_value(e) == &keys[k] : !e, "what was there");
            if (e)
                destroy_hash_element(e);
            e = hash_table_get(t, &newkey);
            vp_assert(e && hash_elem_get_value(e) == &extra, "found");
            walk(t, in ? k : -1, &extra, N + !in);
            break;
        case 2:
            e = hash_table_pop(t, &newkey);
            vp_assert(in ? e && hash_elem_get_key(e) == &keys[k] && hash_elem_get_value(e) == &keys[k] : !e, "what was there");
            if (e)
                destroy_hash_element(e);
            walk(t, in ? k : -1, &extra, N - in);
            vp_cover("done");
            break;
        default:
            if (in)
                hash_table_remove(t, hash_table_get(t, &newkey));
            for (size_t i = N - in; i; i--) {
                if (i % 11000 == 0)
                    vp_assert(hash_table_size(t) == i && !hash_table_empty(t), "size");
                if (i < 40 || i > (size_t) N - 40) { /* each scans the emptied buckets */
                    e = hash_table_pop_any(t);
                    vp_assert(e, "one is left");
                    destroy_hash_element(e);
                } else {
                    if (in && (size_t) k == N - i)
                        continue;
                    break;
                }
            }
            break;
    }
    destroy_hash_table(t);
    vp_no_leaks();
}

#elif defined(PRIORQ)
#include "priority_queue.h"

typedef struct { int prio; void *loc; bool queued; } item_t;
static item_t items[N + 1];
static int cmp(const void *a, const void *b)
{
    int x = ((const item_t *) a)->prio, y = ((const item_t *) b)->prio;
    return x < y ? -1 : x > y;
}
static void reloc(const void *e, void *loc) { ((item_t *) e)->loc = loc; }

void vp_main(void)
{
    vp_alloc_install();
    priorq_t *q = make_priority_queue(cmp, reloc);
    long mul = vp_pick(NORDERS, "order") ? 1 : 40009;
    for (long i = 0; i < N; i++) {
        items[i].prio = (int) (i * mul % N);
        items[i].queued = true;
        priorq_enqueue(q, &items[i]);
    }
    size_t n = N;
    /* one more element whose priority is the symbolic key */
    item_t *x = &items[N];
    x->prio = (int) vp_halve((unsigned) window(1, "priority") + 4, 0, 2 * N) - 4;
    x->queued = true;
    priorq_enqueue(q, x);
    n++;
    vp_assert(priorq_size(q) == n && !priorq_empty(q), "size");
    static const int victims[] = { N, N - 1, 65535, 0, 65536, N / 2 };
    if (vp_pick(2, "remove")) {
        item_t *v = &items[victims[vp_pick(NWIN, "victim")]];
        vp_assert(v->queued, "still there");
        vp_assert(priorq_remove(q, v->loc) == v, "the locator's element");
        v->queued = false;
        n--;
        vp_assert(priorq_size(q) == n, "size");
        vp_cover("removed");
    }
    int min = N;
    for (int i = 0; i <= N; i++)
        if (items[i].queued && items[i].prio < min)
            min = items[i].prio;
    int last = -100;
    size_t part = vp_pick(2, "drain") ? n : 30;
    vp_assert(((const item_t *) priorq_peek(q))->prio == min, "the minimum");
    for (size_t i = 0; i < part; i++) {
        item_t *y = (item_t *) priorq_dequeue(q);
        vp_assert(y && y->queued && y->prio >= last, "in order");
        last = y->prio;
        y->queued = false;
        n--;
    }
    vp_assert(priorq_size(q) == n, "size");
    for (int i = 0; n && i <= N; i += 97)
        if (items[i].queued) {
            vp_assert(priorq_remove(q, items[i].loc) == &items[i], "the locator's element");
            n--;
        }
    vp_assert(priorq_size(q) == n, "size");
    destroy_priority_queue(q);
    vp_no_leaks();
}
#endif
