/* C18: comparison, prefixes and suffixes. */
#include <string.h>
#include "vp.h"
#include "charstr.h"

static unsigned low(unsigned c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
#ifndef PREFIX
#define PREFIX 0
#define PRES 1
#endif
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

/* branch-free reference: strncasecmp in the C locale */
static int ref_cmp(const unsigned char *a, const unsigned char *b, size_t n, bool fold)
{
    int r = 0;
    bool done = false;
    for (size_t i = 0; i < n; i++) {
        unsigned x = fold ? low(a[i]) : a[i], y = fold ? low(b[i]) : b[i];
        int d = x < y ? -1 : x > y;
        r = done ? r : d;
        done = done | (d != 0) | (x == 0);
    }
    return r;
}

/* a NUL-terminated symbolic string of length n in a buffer padded logically with zeros for the reference */
static unsigned char *str(size_t n, const char *name, unsigned char *copy, size_t copysize, size_t prefix, unsigned flip)
{
    n += prefix;
    unsigned char *s = vp_buf(n + 1);
    memset(copy, 0, copysize);
    for (size_t i = 0; i < n; i++) {
        if (i < prefix)                          /* some fixed letters and others first */
            s[i] = i % 11 == 10 ? '[' : i % 3 == flip ? 'A' + i % 26 : 'a' + i % 26;
        else
            s[i] = vp_u8(name);
        vp_assume(s[i] != 0);
        copy[i] = s[i];
    }
    s[n] = 0;
    return s;
}

#define CAP (PREFIX + MAXN + EXTRA + 3)

void vp_main(void)
{
    static unsigned char ca[CAP], cb[CAP];
    size_t na = vp_pick(MAXN + 1, "na"), nb = vp_pick(MAXN + 1, "nb");
    unsigned what = vp_pick(8, "what");
    if (what == 7) {                             /* bounded, unterminated buffers of exactly n bytes */
        size_t n = na;
        unsigned char *a = vp_buf(n), *b = vp_buf(n);
        for (size_t i = 0; i < n; i++) {
            a[i] = ca[i] = vp_u8("a");
            b[i] = cb[i] = vp_u8("b");
        }
        int r = charstr_ncase_cmp((char *) a, (char *) b, n);
        vp_assert(sgn(r) == ref_cmp(ca, cb, n, true), "bounded comparison");
        if (r == 0 && n)
            vp_cover("equal within the bound");
        vp_unbuf(a);
        vp_unbuf(b);
        return;
    }
    size_t pre = PREFIX ? PREFIX + 1 - PRES + vp_pick(PRES, "prefix") : 0;
    unsigned flip = what == 2 || what == 4 || what == 6 ? 0 : vp_pick(2, "flip");
    size_t preb = PREFIX && vp_pick(2, "unprefixed") ? 0 : pre;
    unsigned char *a = str(na, "a", ca, sizeof ca, pre, 0), *b = str(nb, "b", cb, sizeof cb, preb, flip);
    na += pre;
    nb += preb;
    const char *sa = (char *) a, *sb = (char *) b;
    if (what == 0) {
        vp_assert(sgn(charstr_case_cmp(sa, sb)) == ref_cmp(ca, cb, CAP, true), "case-insensitive order");
        vp_cover("compared");
    } else if (what == 1) {
        uint64_t n = vp_u64("bound");
        size_t m = 0;
        if (PREFIX > 100)
            vp_assume(n < 2 || n + 8 >= PREFIX);
        if (n >= CAP)
            m = CAP;
        else
            m = vp_concrete(n);
        vp_assert(sgn(charstr_ncase_cmp(sa, sb, n)) == ref_cmp(ca, cb, m, true), "bounded order");
        if (n > 1000)
            vp_cover("huge bound");
    } else if (what <= 5) {
        bool fold = what & 1;
        bool want = true;
        for (size_t i = 0; i < nb; i++)
            want = want & (i < na && (fold ? low(ca[i]) == low(cb[i]) : ca[i] == cb[i]));
        const char *r = what == 2 ? charstr_skip_prefix(sa, sb) : what == 3 ? charstr_case_skip_prefix(sa, sb) :
            what == 4 ? charstr_case_starts_with(sa, sb) : charstr_ncase_starts_with(sa, sb);
        vp_assert((r != NULL) == want, "prefix recognised exactly");
        if (r) {
            vp_assert(r == sa + nb, "the remainder is returned");
            if (nb && nb < na)
                vp_cover("proper prefix");
        }
    } else {
        bool want = nb <= na;
        for (size_t i = 0; i < nb && nb <= na; i++)
            want = want & (ca[na - nb + i] == cb[i]);
        bool r = charstr_ends_with(sa, sb);
        vp_assert(r == want, "suffix recognised exactly");
        if (r && nb && nb < na)
            vp_cover("proper suffix");
    }
    for (size_t i = 0; i <= na; i++)
        vp_assert(a[i] == ca[i], "the strings are not modified");
    vp_unbuf(a);
    vp_unbuf(b);
}
