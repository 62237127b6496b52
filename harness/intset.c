/* C12, C13: membership and search in integer sets. */
#include "vp.h"
#include "intset.h"

#define MAXH 8
enum { ADD, REMOVE, FILL };
static struct { int op; unsigned e; } h[MAXH];
static int nh;
static size_t size;

/* is p a member, according to the history? */
static bool member(unsigned p)
{
    int r = 0;
    for (int i = 0; i < nh; i++) {
        int hit = h[i].op == FILL | h[i].e == p;
        int v = h[i].op != REMOVE;
        r = (hit & v) | (!hit & r);
    }
    return r & (p < size);
}

#ifdef WINDOWS
static const unsigned windows[] = { 0, 65530, 69970, 32760 };
static unsigned element(const char *name)
{
    unsigned base = windows[vp_pick(WINDOWS, "window")], e = vp_u32(name);
    vp_assume(e >= base && e < base + 40);
    return e;
}
#else
static unsigned element(const char *name) { return vp_u32(name); }
#endif

static void operate(intset_t *s, int op)
{
    unsigned e = op == FILL ? 0 : element("elem");
    switch (op) {
        case ADD: intset_add(s, e); break;
        case REMOVE: intset_remove(s, e); break;
        default: intset_fill(s); break;
    }
    h[nh].op = op;
    h[nh++].e = e;
}

void vp_main(void)
{
    vp_alloc_install();
#ifdef WINDOWS
    static const size_t sizes[] = { 70001, 65536, 65600, 131072 };
#else
    static const size_t sizes[] = { 1, 64, 65, 130, 0, 63, 128, 200, 129, 2, 127 };
#endif
    size = sizes[vp_pick(NSIZES, "size")];
    intset_t *s = make_intset(size);
    if (size > 0)
        vp_assert(!intset_has(s, 0), "a new set is empty");
    vp_assert(intset_empty(s), "a new set is empty");
#ifdef BASE
    if (vp_pick(2, "filled"))
        operate(s, FILL);
    for (int i = 0; i < HIST; i++)
        operate(s, h[0].op == FILL && nh ? REMOVE : ADD);
#else
    for (int i = 0; i < HIST; i++)
        operate(s, vp_pick(3, "op"));
#endif
    unsigned p = element("probe");       /* stands for every element */
#ifdef SEARCH
    unsigned from = element("from");
    bool want = vp_pick(2, "hit");
    int r = want ? intset_find_next_hit(s, from) : intset_find_next_miss(s, from);
    if (r < 0) {
        vp_assert(r == -1, "failure is -1");
        vp_cover("not found");
        if (p >= from && p < size)
            vp_assert(member(p) != want, "nothing was missed");
    } else {
        vp_cover("found");
        vp_assert((unsigned) r < size && (unsigned) r >= from, "result in range");
        vp_assert(member(r) == want, "result qualifies");
        if (p >= from && p < (unsigned) r)
            vp_assert(member(p) != want, "nothing nearer");
    }
    bool empty = intset_empty(s);
    if (empty)
        vp_assert(!member(p), "an empty set has no members");
    else {
        vp_cover("nonempty");
        int f = intset_find_next_hit(s, 0);
        vp_assert(f >= 0 && member(f), "a nonempty set has a member");
    }
#else
    bool has = intset_has(s, p);
    vp_assert(has == member(p), "membership is exact");
    if (has)
        vp_cover("member");
    else
        vp_cover("not member");
#endif
    destroy_intset(s);
    vp_no_leaks();
}
