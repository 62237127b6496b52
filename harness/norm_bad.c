/* C30, C31, C32: malformed input, and the quick check on raw bytes. */
#include <errno.h>
#include <string.h>
#include "norm_ref.h"
#include "charstr.h"

/* A well-formed prefix, then up to MAXN arbitrary bytes that do not continue
 * it properly. */
void vp_main(void)
{
    static const char *const prefix[] = { "", "a", "\xc3\x85", "A\xcc\x8a", "\xe1\x84\x80\xe1\x85\xa1" };
    unsigned p = vp_pick(5, "prefix"), n = vp_pick(MAXN, "n") + 1, term = vp_pick(2, "terminated");
    size_t pl = strlen(prefix[p]);
    unsigned char *s = vp_buf(pl + n + term);
    memcpy(s, prefix[p], pl);
    bool bad = false;
    for (unsigned i = 0; i < n; i++)
        s[pl + i] = vp_u8("byte");
    if (term)
        s[pl + n] = 0;
    for (unsigned i = 0; i < n && s[pl + i];) {
        int cp;
        unsigned k = ref_utf8(s + pl + i, n - i, &cp);
        if (!k) {
            bad = true;
            break;
        }
        i += k;
    }
    vp_assume_(bad);
    const char *c = (const char *) s, *end = term ? NULL : c + pl + n;
    /* the room for what precedes the fault is at most 3 bytes per byte */
    size_t full = 3 * (pl + n) + 1, size = vp_pick(2, "small") ? full : vp_pick(4, "size");
    switch (vp_pick(4, "function")) {
        case 0: {
            char *out = vp_buf(size);
            errno = 0;
            char *r = charstr_unicode_decompose(c, end, out, out + size);
            vp_assert(!r, "refused");
            vp_assert((errno == EILSEQ) | ((errno == EOVERFLOW) & (size < full)), "error code");
            vp_cover("decompose");
            vp_unbuf(out);
            break;
        }
        case 1: {
            char *out = vp_buf(size);
            errno = 0;
            char *r = charstr_unicode_recompose(c, end, out, out + size);
            vp_assert(!r, "refused");
            vp_assert((errno == EILSEQ) | ((errno == EOVERFLOW) & (size < full)), "error code");
            vp_cover("recompose");
            vp_unbuf(out);
            break;
        }
        case 2:
            vp_assert(!charstr_unicode_canonically_composed(c, end), "not composed");
            vp_assert(!charstr_unicode_canonically_decomposed(c, end), "not decomposed");
            vp_cover("checks");
            break;
        default: {
            unsigned f = vp_pick(4, "form");
            int r = charstr_detect_unicode_normal_form(c, end, 1 << 2 * f, 2 << 2 * f);
            vp_assert((r == -1) | (r == 1 << 2 * f), "never accepted");
            vp_cover("quick check");
        }
    }
    vp_unbuf(s);
}
