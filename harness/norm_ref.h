/* Canonical decomposition and composition as defined in the Unicode standard
 * (chapter 3.11, 3.12), on codepoints, over the reference data. */
#ifndef NORM_REF_H
#define NORM_REF_H
#include "utf8_ref.h"

extern const uint8_t ref_ccc[], ref_qc[], ref_cat[], ref_second[];
extern const int32_t ref_dec[], ref_decpool[], ref_first_lo[], ref_first_hi[], ref_comp_at[], ref_comp[];
#ifndef NORM_MAX
#define NORM_MAX 130
#endif

static inline bool ref_is_hangul(int c) { return (c >= 0xac00) & (c < 0xac00 + 11172); }

/* full decomposition of one codepoint; returns the count */
static inline unsigned ref_decompose(int c, int *out)
{
    if (ref_is_hangul(c)) {
        unsigned s = (unsigned) c - 0xac00, t = (unsigned) vp_urem(s, 28), r = (s - t) / 28, v = (unsigned) vp_urem(r, 21);
        out[0] = (int) (0x1100 + (r - v) / 21);
        out[1] = (int) (0x1161 + v);
        if (!t)
            return 2;
        out[2] = (int) (0x11a7 + t);
        return 3;
    }
    int32_t at = (int32_t) vp_concrete((uint64_t) ref_dec[c]);
    if (!at) {
        out[0] = c;
        return 1;
    }
    unsigned n = 0;
    while (ref_decpool[at])
        out[n++] = ref_decpool[at++];
    return n;
}

/* canonical ordering: exchange adjacent marks that are out of order */
static inline void ref_order(int *s, unsigned n)
{
    for (unsigned i = 1; i < n; i++)
        for (unsigned j = i; j > 0; j--) {
            unsigned a = ref_ccc[s[j - 1]], b = ref_ccc[s[j]];
            if (!((b != 0) & (a > b)))
                break;
            int t = s[j];
            s[j] = s[j - 1];
            s[j - 1] = t;
        }
}
static inline unsigned ref_nfd(const int *s, unsigned n, int *out)
{
    unsigned m = 0;
    for (unsigned i = 0; i < n; i++)
        m += ref_decompose(s[i], out + m);
    ref_order(out, m);
    return m;
}

/* primary composite of a pair, or 0 */
static inline int ref_composite(int a, int b)
{
    if ((a >= 0x1100) & (a < 0x1113) & (b >= 0x1161) & (b < 0x1176))
        return 0xac00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
    if (ref_is_hangul(a) & (b > 0x11a7) & (b < 0x11c3))
        if (vp_urem((unsigned) a - 0xac00, 28) == 0)
            return a + (b - 0x11a7);
    unsigned k = (unsigned) vp_concrete(ref_second[b]);
    if (!k || !((a >= ref_first_lo[k]) & (a <= ref_first_hi[k])))
        return 0;
    return ref_comp[ref_comp_at[k] + a - ref_first_lo[k]];
}
/* canonical composition of a decomposed, ordered sequence, in place */
static inline unsigned ref_nfc(int *s, unsigned n)
{
    unsigned m = 0;
    int starter = -1;               /* index of the last starter in s[0..m) */
    unsigned last = 0;              /* class of the last character kept after it, 0 if none */
    bool kept = false;
    for (unsigned i = 0; i < n; i++) {
        unsigned cc = ref_ccc[s[i]];
        if (starter >= 0 && (!kept || (last != 0) & (last < cc))) {
            int c = ref_composite(s[starter], s[i]);
            if (c) {
                s[starter] = c;
                continue;
            }
        }
        s[m] = s[i];
        if (cc == 0) {
            starter = (int) m;
            kept = false;
        } else
            kept = true;
        last = cc;
        m++;
    }
    return m;
}
#endif
