/* C20: decoding one codepoint. */
#include "utf8_ref.h"
#include "charstr.h"

static void check(const char *s, const char *end, const unsigned char *copy, size_t n)
{
    int want = -1, got = -77;
    unsigned len = ref_utf8(copy, n, &want);
    bool with = vp_pick(2, "with_codepoint");
    const char *r = charstr_decode_utf8_codepoint(s, end, with ? &got : NULL);
    vp_assert((r != NULL) == (len != 0), "accepted exactly if well-formed");
    if (r) {
        vp_assert(r == s + len, "the position after the sequence");
        if (with)
            vp_assert(got == want, "the codepoint");
        if (len == 4)
            vp_cover("four bytes");
        if (len == 3)
            vp_cover("three bytes");
        if (len == 2)
            vp_cover("two bytes");
    } else
        vp_cover("ill-formed");
}

void vp_main(void)
{
    unsigned char copy[8];
    unsigned kind = vp_pick(3, "kind");
    size_t n = vp_pick(6, "n");
    if (kind == 0) {                    /* bounded, exact buffer */
        char *s = vp_buf(n);
        for (size_t i = 0; i < n; i++)
            s[i] = (char) (copy[i] = vp_u8("s"));
        check(s, s + n, copy, n);
        vp_unbuf(s);
    } else if (kind == 1) {             /* NUL-terminated, no end given */
        char *s = vp_buf(n + 1);
        for (size_t i = 0; i < n; i++) {
            s[i] = (char) (copy[i] = vp_u8("s"));
            vp_assume(s[i] != 0);
        }
        s[n] = (char) (copy[n] = 0);
        check(s, NULL, copy, n + 1);
        vp_unbuf(s);
    } else {                            /* nothing readable after the first byte that is not a continuation */
        vp_assume(n >= 1 && n <= 4);
        char *s = vp_buf(n);
        for (size_t i = 0; i < n; i++)
            s[i] = (char) (copy[i] = vp_u8("s"));
        unsigned a = copy[0], most = a < 0xc0 ? 1 : a < 0xe0 ? 2 : a < 0xf0 ? 3 : a < 0xf8 ? 4 : 1;
        vp_assume(n <= most);
        for (size_t i = 1; i < n; i++)
            vp_assume(ref_cont(copy[i]) || i == n - 1);
        vp_assume(n == most || (n > 1 && !ref_cont(copy[n - 1])));
        check(s, NULL, copy, n);
        vp_unbuf(s);
    }
    vp_assert(charstr_decode_utf8_codepoint(NULL, NULL, NULL) == NULL, "NULL gives NULL");
}
