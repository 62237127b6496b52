/* C05: a list is exactly the sequence its operations describe. */
#include "vp.h"
#include "list.h"

#define MAXL 16
typedef struct { const void *v[MAXL]; list_elem_t *e[MAXL]; int n; } seq_t;

static seq_t *visit_seq;
static int visit_i, visit_arg;
static void visit(const void *value, void *arg)
{
    vp_assert(arg == &visit_arg, "foreach passes the argument");
    vp_assert(visit_i < visit_seq->n, "foreach visits no more than the elements");
    vp_assert(value == visit_seq->v[visit_i], "foreach visits in order");
    visit_i++;
}

static void check(list_t *list, seq_t *s)
{
    int n = s->n, i;
    vp_assert(list_size(list) == (size_t) n, "size is exact");
    vp_assert(!list_empty(list) == (n > 0), "emptiness is exact");
    list_elem_t *e = list_get_first(list);
    for (i = 0; i < n; i++) {
        vp_assert(e != NULL, "forward traversal reaches every element");
        vp_assert(list_elem_get_value(e) == s->v[i], "forward traversal is in order");
        if (s->e[i])
            vp_assert(e == s->e[i], "elements stay where they are");
        e = list_next(e);
    }
    vp_assert(e == NULL, "forward traversal ends");
    e = list_get_last(list);
    for (i = n - 1; i >= 0; i--) {
        vp_assert(e != NULL, "backward traversal reaches every element");
        vp_assert(list_elem_get_value(e) == s->v[i], "backward traversal is in order");
        e = list_previous(e);
    }
    vp_assert(e == NULL, "backward traversal ends");
    visit_seq = s;
    visit_i = 0;
    list_foreach(list, visit, &visit_arg);
    vp_assert(visit_i == n, "foreach visits every element");
}

static void ins(seq_t *s, int i, const void *v, list_elem_t *e)
{
    for (int j = s->n; j > i; j--) {
        s->v[j] = s->v[j - 1];
        s->e[j] = s->e[j - 1];
    }
    s->v[i] = v;
    s->e[i] = e;
    s->n++;
}
static void del(seq_t *s, int i)
{
    s->n--;
    for (int j = i; j < s->n; j++) {
        s->v[j] = s->v[j + 1];
        s->e[j] = s->e[j + 1];
    }
}

static list_elem_t *nth(list_t *list, int i)
{
    list_elem_t *e = list_get_first(list);
    while (i--)
        e = list_next(e);
    return e;
}

static void operate(list_t *list, seq_t *s)
{
    const void *v;
    list_elem_t *e;
    int i;
    switch (vp_pick(6, "op")) {
        case 0:
            v = vp_ptr("value");
            e = list_append(list, v);
            ins(s, s->n, v, e);
            break;
        case 1:
            v = vp_ptr("value");
            e = list_prepend(list, v);
            ins(s, 0, v, e);
            break;
        case 2:
            vp_assume(s->n > 0);
            i = vp_pick(s->n, "at");
            v = vp_ptr("value");
            e = list_insert_before(list, v, nth(list, i));
            ins(s, i, v, e);
            if (i > 0)
                vp_cover("insert in the middle");
            break;
        case 3:
            vp_assume(s->n > 0);
            i = vp_pick(s->n, "at");
            list_remove(list, nth(list, i));
            if (i > 0 && i < s->n - 1)
                vp_cover("remove in the middle");
            del(s, i);
            break;
        case 4:
            v = list_pop_first(list);
            vp_assert(v == (s->n ? s->v[0] : NULL), "pop_first returns the first value");
            if (s->n)
                del(s, 0);
            break;
        default:
            v = list_pop_last(list);
            vp_assert(v == (s->n ? s->v[s->n - 1] : NULL), "pop_last returns the last value");
            if (s->n)
                del(s, s->n - 1);
            break;
    }
}

void vp_main(void)
{
    vp_alloc_install();
    static seq_t s, c;
    list_t *list = make_list();
    check(list, &s);
    for (int k = 0; k < HIST; k++) {
        operate(list, &s);
        check(list, &s);
    }
    switch (vp_pick(3, "finally")) {
        case 0: {
            const void *v = vp_ptr("wanted");
            list_elem_t *e = list_get(list, v);
            list_elem_t *f = list_get_first(list);
            int i;
            for (i = 0; i < s.n && s.v[i] != v; i++)
                f = list_next(f);
            if (i < s.n)
                vp_cover("value found");
            vp_assert(e == (i < s.n ? f : NULL), "lookup by value finds the first occurrence");
            break;
        }
        case 1: {
            int idx = vp_i32("index");
            list_elem_t *e = list_get_by_index(list, idx);
            if (idx < 0 || idx >= s.n)
                vp_assert(e == NULL, "index out of range gives NULL");
            else {
                vp_cover("index in range");
                vp_assert(e == nth(list, (int) vp_concrete(idx)), "lookup by index");
            }
            break;
        }
        default: {
            list_t *copy = list_copy(list);
            c = s;
            for (int i = 0; i < c.n; i++)
                c.e[i] = NULL;
            check(copy, &c);
            check(list, &s);
            vp_cover("copied");
            if (vp_pick(2, "which")) {
                operate(list, &s);
                check(copy, &c);
                check(list, &s);
                destroy_list(list);
                list = copy;
                s = c;
            } else {
                operate(copy, &c);
                check(copy, &c);
                check(list, &s);
                destroy_list(copy);
            }
            check(list, &s);
            break;
        }
    }
    destroy_list(list);
    vp_no_leaks();
}
