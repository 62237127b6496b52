/* C24: URL decoding. */
#include <errno.h>
#include <string.h>
#include "vp.h"
#include "charstr.h"

static int hexval(unsigned c)
{
    return (c >= '0') & (c <= '9') ? (int) c - '0' : (c >= 'a') & (c <= 'f') ? (int) c - 'a' + 10 : (c >= 'A') & (c <= 'F') ? (int) c - 'A' + 10 : -1;
}

void vp_main(void)
{
    vp_alloc_install();
#ifdef ROUND
    size_t n = vp_pick(MAXN + 1, "n"), size = 99;
    char *s = vp_buf(n + 1), copy[MAXN + 1];
    for (size_t i = 0; i < n; i++) {
        s[i] = copy[i] = (char) vp_u8("s");
        vp_assume(s[i] != 0);
    }
    s[n] = 0;
    char *e = charstr_url_encode(s);
    char *d = charstr_url_decode(e, true, &size);
    vp_assert(d != NULL && size == n, "decodes to the same length");
    for (size_t i = 0; i < n; i++)
        vp_assert(d[i] == copy[i], "decodes to the same string");
    vp_assert(d[n] == 0, "terminated");
    vp_cover("round trip");
    fsfree(e);
    fsfree(d);
    vp_unbuf(s);
#else
    static char copy[PREFIX + MAXN + 1], want[PREFIX + MAXN + 1];
    size_t n = PREFIX + vp_pick(MAXN + 1, "n");
    char *s = vp_buf(n + 1);
    for (size_t i = 0; i < n; i++) {
        s[i] = copy[i] = i < PREFIX ? "a%41+%4fb%20%C3"[i % 15] : (char) vp_u8("s");
        vp_assume(s[i] != 0);
    }
    s[n] = 0;
    bool plus = vp_pick(2, "plus");
    size_t w = 0, i = 0;
    bool bad = false;
    while (i < n && !bad) {
        if (copy[i] == '%') {
            int a = i + 1 < n ? hexval((unsigned char) copy[i + 1]) : -1, b = i + 2 < n ? hexval((unsigned char) copy[i + 2]) : -1;
            if ((a < 0) | (b < 0))
                bad = true;
            else
                want[w++] = (char) (a * 16 + b);
            i += 3;
        } else {
            want[w++] = plus && copy[i] == '+' ? ' ' : copy[i];
            i++;
        }
    }
    bool with = vp_pick(2, "with_size");
    size_t size = 12345;
    errno = 0;
    char *d = charstr_url_decode(s, plus, with ? &size : NULL);
    if (bad) {
        vp_assert(d == NULL, "malformed input is refused");
        vp_assert(errno == EILSEQ, "with EILSEQ");
        vp_cover("malformed");
    } else {
        vp_assert(d != NULL && d != s, "decoded into a fresh string");
        if (with)
            vp_assert(size == w, "exact length");
        for (size_t j = 0; j < w; j++)
            vp_assert(d[j] == want[j], "decoded bytes");
        vp_assert(d[w] == 0, "terminated");
        if (w < n)
            vp_cover("decoded");
        fsfree(d);
    }
    for (size_t j = 0; j < n; j++)
        vp_assert(s[j] == copy[j], "source unchanged");
    vp_unbuf(s);
#endif
    vp_no_leaks();
}
