/* C19: splitting, stripping, duplicating. */
#include <string.h>
#include "vp.h"
#include "charstr.h"

#ifndef PREFIX
#define PREFIX ""
#endif
#ifndef REPEAT
#define REPEAT 1                        /* so many times */
#endif
#define FIXED (REPEAT * (sizeof fixed - 1))
static const char fixed[] = PREFIX;
static char *src;                       /* the string, n characters, exact buffer */
static char orig[REPEAT * sizeof PREFIX + 64];
static size_t n;

static void source(size_t maxn, const char *alphabet, unsigned nsym)
{
    n = FIXED + vp_pick(maxn + 1, "n");
    src = vp_buf(n + 1);
    for (size_t i = 0; i < n; i++) {
        if (i < FIXED)
            src[i] = fixed[i % (sizeof fixed - 1)];
        else if (alphabet && i >= FIXED + nsym)
            src[i] = alphabet[vp_pick(2, "letter")];
        else
            src[i] = (char) vp_u8("s");
        vp_assume(src[i] != 0);
    }
    src[n] = 0;
    memcpy(orig, src, n + 1);
}

static void unchanged(void)
{
    for (size_t i = 0; i <= n; i++)
        vp_assert(src[i] == orig[i], "the source is not modified");
    /* the pieces must not depend on the source any more */
    for (size_t i = 0; i <= n; i++)
        src[i] = 1;
    vp_unbuf(src);
}

/* a piece must be orig[from..to) and terminated */
static void piece(const char *p, size_t from, size_t to)
{
    vp_assert(p != NULL, "there is a piece");
    for (size_t i = from; i < to; i++)
        vp_assert(p[i - from] == orig[i], "the piece is a copy of its part");
    vp_assert(p[to - from] == 0, "the piece is terminated");
}

/* compare a list with cuts: piece i is [from[i], to[i]) */
static void pieces(list_t *l, unsigned k, size_t *from, size_t *to)
{
    vp_assert(list_size(l) == k, "number of pieces");
    unsigned i = 0;
    for (list_elem_t *e = list_get_first(l); e; e = list_next(e)) {
        vp_assert(i < k, "number of pieces");
        piece(list_elem_get_value(e), from[i], to[i]);
        i++;
    }
    vp_assert(i == k, "number of pieces");
    unchanged();
    i = 0;
    while (!list_empty(l)) {
        char *p = (char *) list_pop_first(l);
        vp_assert(strlen(p) == to[i] - from[i], "the pieces are copies of their own");
        i++;
        fsfree(p);
    }
    destroy_list(l);
}

static bool wsp(char c) { return (c == '\t') | (c == '\n') | (c == '\f') | (c == '\r') | (c == ' '); }

void vp_main(void)
{
    static size_t from[REPEAT * sizeof PREFIX + 64], to[REPEAT * sizeof PREFIX + 64];
    unsigned k = 0;
    vp_alloc_install();
    unsigned what = vp_pick(6, "what");
    if (what <= 2) {
        char delim[4];
        size_t dl = 1;
        if (what < 2) {
            source(MAXN, 0, 0);
            delim[0] = (char) vp_u8("delim");
            vp_assume(delim[0] != 0);
        } else {
            dl = 1 + vp_pick(3, "delim_length");
            source(MAXS, "ab", 2);
            for (size_t i = 0; i < dl; i++)
                delim[i] = i < 2 ? (char) vp_u8("delim") : "ab"[vp_pick(2, "delim_letter")];
            for (size_t i = 0; i < dl; i++)
                vp_assume(delim[i] != 0);
        }
#if REPEAT > 1
        static const uint32_t maxes[] = { -1, 65537, 0 };
        uint32_t max = maxes[vp_pick(3, "max")];
#else
        uint32_t max = vp_u32("max_split");
#endif
        size_t start = 0, i = 0;
        while (i + dl <= n && k < max) {
            bool hit = true;
            for (size_t j = 0; j < dl; j++)
                hit = hit & (orig[i + j] == delim[j]);
            if (hit) {
                from[k] = start;
                to[k++] = i;
                i += dl;
                start = i;
            } else
                i++;
        }
        from[k] = start;
        to[k++] = n;
        if (what == 0) {
            pieces(charstr_split(src, delim[0], max), k, from, to);
            if (k > 2)
                vp_cover("split by character");
        } else if (what == 2) {
            char *d = vp_buf(dl + 1);
            memcpy(d, delim, dl);
            d[dl] = 0;
            pieces(charstr_split_str(src, d, max), k, from, to);
            vp_unbuf(d);
            if (k > 1 && dl > 1)
                vp_cover("split by string");
        } else {
            /* array of max + 1 elements, where more than n + 1 cannot be needed */
            size_t cap = max >= n ? n + 1 : vp_concrete(max) + 1;
            char **array = vp_buf(cap * sizeof(char *));
            unsigned r = charstr_split_into_array(src, delim[0], array, max);
            vp_assert(r == k - 1, "number of splits");
            for (unsigned j = 0; j < k; j++)
                piece(array[j], from[j], to[j]);
            unchanged();
            for (unsigned j = 0; j < k; j++) {
                vp_assert(strlen(array[j]) == to[j] - from[j], "the pieces are copies of their own");
                fsfree(array[j]);
            }
            vp_unbuf(array);
            if (k > 2)
                vp_cover("split into array");
        }
    } else if (what == 3) {
        source(MAXN, 0, 0);
        size_t i = 0;
        while (i < n) {
            if (wsp(orig[i])) {
                i++;
                continue;
            }
            from[k] = i;
            while (i < n && !wsp(orig[i]))
                i++;
            to[k++] = i;
        }
        pieces(charstr_split_atoms(src), k, from, to);
        if (k > 1)
            vp_cover("two atoms");
        if (!k && n)
            vp_cover("only whitespace");
    } else if (what == 4) {
        source(MAXN, 0, 0);
        size_t a = 0, z = n;
        while (a < n && wsp(orig[a]))
            a++;
        while (z > a && wsp(orig[z - 1]))
            z--;
        char *r = charstr_strip(src);
        piece(r, a, z);
        unchanged();
        vp_assert(strlen(r) == z - a, "a copy of its own");
        fsfree(r);
        vp_assert(charstr_strip(NULL) == NULL, "stripping NULL");
        if (a && z < n && a < z)
            vp_cover("stripped");
    } else {
        source(MAXN, 0, 0);
        size_t a = vp_pick(REPEAT > 1 ? 3 : n + 1, "from"), z = REPEAT > 1 ? n - vp_pick(3, "length") : a + vp_pick(n + 1 - a, "length");
        char *r = charstr_dupstr(src + a), *q = charstr_dupsubstr(src + a, src + z);
        piece(r, a, n);
        piece(q, a, z);
        vp_assert(r != q && r != src && q != src, "fresh copies");
        vp_assert(charstr_dupstr(NULL) == NULL, "duplicating NULL");
        unchanged();
        vp_assert(strlen(r) == n - a && strlen(q) == z - a, "copies of their own");
        fsfree(r);
        fsfree(q);
        vp_cover("duplicated");
    }
    vp_no_leaks();
}
