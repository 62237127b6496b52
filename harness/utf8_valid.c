/* C22: validation and sanitising. */
#include "utf8_ref.h"
#include "charstr.h"

void vp_main(void)
{
    static unsigned char copy[PREFIX + MAXN + 8], want[3 * (PREFIX + MAXN) + 8];
    vp_alloc_install();
    unsigned what = vp_pick(3, "what");
    size_t n = PREFIX + vp_pick(MAXN + 1, "n");
    char *s = vp_buf(n + (what != 0));
    for (size_t i = 0; i < n; i++) {
        unsigned char c = i < PREFIX ? (unsigned char) "a\xc3\xa9\x80\xe2\x82\xac\xf0\x9f\x98\x80\xff"[i % 12] : vp_u8("s");
        if (PREFIX && i < PREFIX && what != 2)
            c = 'a';
        if (what)
            vp_assume(c != 0);
        s[i] = (char) (copy[i] = c);
    }
    if (what)
        s[n] = 0;
    copy[n] = 0;
    size_t i = 0, w = 0;
    bool valid = true;
    while (i < n) {
        int cp;
        unsigned len = ref_utf8(copy + i, n - i, &cp);
        if (len)
            while (len--)
                want[w++] = copy[i++];
        else {
            valid = false;
            want[w++] = 0xef;
            want[w++] = 0xbf;
            want[w++] = 0xbd;
            i++;
        }
    }
    if (what == 0) {
        vp_assert(charstr_valid_utf8_bounded(s, s + n) == valid, "bounded validation");
        if (valid && n > 2)
            vp_cover("valid, bounded");
    } else if (what == 1) {
        vp_assert(charstr_valid_utf8(s) == valid, "validation");
        if (!valid)
            vp_cover("invalid");
    } else {
        char *r = charstr_sanitize_utf8(s);
        vp_assert(r != NULL && r != s, "a fresh string");
        for (size_t j = 0; j < w; j++)
            vp_assert((unsigned char) r[j] == want[j], "valid sequences kept, bad bytes replaced");
        vp_assert(r[w] == 0, "terminated");
        vp_assert(charstr_valid_utf8(r), "the result is valid");
        if (valid)
            vp_assert(w == n && !memcmp(r, copy, n), "valid strings are unchanged");
        else if (w > n + 2)
            vp_cover("two bytes replaced");
        for (size_t j = 0; j < n; j++)
            vp_assert((unsigned char) s[j] == copy[j], "the source is not modified");
        fsfree(r);
        vp_no_leaks();
    }
    vp_unbuf(s);
}
