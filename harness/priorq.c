/* C08, C09: minimum, multiset and locators of the priority queue. */
#include "vp.h"
#include "priority_queue.h"

#define MAXQ 160
typedef struct { int prio; void *loc; int queued; } item_t;
static item_t items[MAXQ];
static int nitems, nqueued;
static int cookie;
static int cmp_neg = -1, cmp_pos = 1;

static int cmp2(const void *a, const void *b, void *obj)
{
    vp_assert(obj == &cookie, "comparator gets the context");
    int x = ((const item_t *) a)->prio, y = ((const item_t *) b)->prio;
    return x < y ? cmp_neg : x > y ? cmp_pos : 0;
}
static int cmp1(const void *a, const void *b)
{
    int x = ((const item_t *) a)->prio, y = ((const item_t *) b)->prio;
    return x < y ? cmp_neg : x > y ? cmp_pos : 0;
}
static void reloc2(const void *e, void *loc, void *obj)
{
    vp_assert(obj == &cookie, "reloc gets the context");
    ((item_t *) e)->loc = loc;
}
static void reloc1(const void *e, void *loc) { ((item_t *) e)->loc = loc; }

static void taken(const void *p, bool minimum)
{
    if (!nqueued) {
        vp_assert(p == NULL, "an empty queue yields NULL");
        return;
    }
    const item_t *it = p;
    vp_assert(it >= items && it < items + nitems && it->queued > 0, "a queued element is yielded");
    if (minimum)
        for (int i = 0; i < nitems; i++)
            if (items[i].queued)
                vp_assert(items[i].prio >= it->prio, "no queued element precedes the yielded one");
}
static void drop(const void *p)
{
    if (p) {
        ((item_t *) p)->queued--;
        nqueued--;
    }
}
static void check(priorq_t *q)
{
    vp_assert(priorq_size(q) == (size_t) nqueued, "size is exact");
    vp_assert(priorq_empty(q) == !nqueued, "emptiness is exact");
    taken(priorq_peek(q), true);
}
static void enqueue(priorq_t *q, item_t *it)
{
    it->queued++;
    nqueued++;
    priorq_enqueue(q, it);
}
static item_t *newitem(void)
{
    item_t *it = &items[nitems++];
#ifdef PRIOS
    it->prio = vp_pick(PRIOS, "prio");
#else
    it->prio = (int8_t) vp_u8("prio");
#endif
    return it;
}

void vp_main(void)
{
    vp_alloc_install();
    priorq_t *q;
#ifdef LOCATORS
    q = vp_pick(2, "ctor") ? make_priority_queue(cmp1, reloc1) : make_priority_queue_2(cmp2, reloc2, &cookie);
#else
#ifdef SYMCMP
    cmp_neg = vp_i32("cmp_neg");
    cmp_pos = vp_i32("cmp_pos");
    vp_assume(cmp_neg < 0 && cmp_pos > 0);
#endif
    switch (vp_pick(CTORS, "ctor")) {
        case 0: q = make_priority_queue(cmp1, NULL); break;
        case 1: q = make_priority_queue_2(cmp2, NULL, &cookie); break;
        default: q = make_priority_queue_2(cmp2, reloc2, &cookie); break;
    }
#endif
    check(q);
#ifdef LARGE
    static const int large[] = { 7, 8, 16, 33, 64, 100, 128 }, mul[] = { 1, 60, 37, 0 };
    int n = large[vp_pick(LARGE, "large")], m = mul[vp_pick(4, "order")];
    for (int i = 0; i < n; i++) {
        items[nitems].prio = i * m % 61;
        enqueue(q, &items[nitems++]);
        check(q);
    }
#endif
    for (int i = 0; i < PRE; i++) {
        enqueue(q, newitem());
        check(q);
    }
    for (int i = 0; i < HIST; i++) {
        const void *p;
#ifdef REMOVALS
        switch (3) {
#else
        switch (vp_pick(NOPS, "op")) {
#endif
            case 0:
                enqueue(q, newitem());
                break;
            case 1:
                p = priorq_dequeue(q);
                taken(p, true);
                drop(p);
                break;
            case 2:
                p = priorq_pop(q);
                taken(p, false);
                drop(p);
                break;
#ifdef LOCATORS
            default: {
                vp_assume(nitems > 0);
                item_t *it = &items[vp_pick(nitems, "victim")];
                vp_assume(it->queued);
                p = priorq_remove(q, it->loc);
                vp_assert(p == it, "removal by locator returns that element");
                drop(p);
                vp_cover("removed by locator");
                break;
            }
#else
            default:
                vp_assume(nitems > 0);
                enqueue(q, &items[vp_pick(nitems, "again")]);
                vp_cover("enqueued twice");
                break;
#endif
        }
        check(q);
    }
#if defined(LOCATORS) && !defined(REMOVALS)
    if (vp_pick(2, "drain"))
        /* every remaining locator must still identify its element */
        for (int i = 0; i < nitems; i++) {
            item_t *it = &items[(i * 5 + 3) % nitems];
            for (int j = 0; it->queued == 0 && j < nitems; j++)
                it = &items[j];
            if (!it->queued)
                break;
            const void *p = priorq_remove(q, it->loc);
            vp_assert(p == it, "removal by locator returns that element");
            drop(p);
            check(q);
        }
#endif
    if (nqueued > 3)
        vp_cover("drain several");
    while (nqueued) {
        const void *p = priorq_dequeue(q);
        taken(p, true);
        drop(p);
        check(q);
    }
    vp_assert(priorq_dequeue(q) == NULL && priorq_pop(q) == NULL, "an empty queue yields NULL");
    destroy_priority_queue(q);
    vp_no_leaks();
}
