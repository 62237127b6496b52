/* C30, C31: canonical decomposition and recomposition. */
#include <errno.h>
#include <string.h>
#include "norm_ref.h"
#include "charstr.h"

#ifdef COMPOSE
enum { COMPOSED = 1 };
#else
enum { COMPOSED = 0 };
#endif
#include "pick_char.h"
#ifndef FILL
#define FILL 0
#endif
void vp_main(void)
{
    int src[LEN + FILL], want[NORM_MAX];
    unsigned n = 0, m;
    src[n++] = PICK_WIDE();
    for (unsigned i = 0; i < FILL; i++) {       /* fixed marks, out of order */
        static const int fixed[] = { 0x345, 0x1d165, 0x323, 0x20d0, 0x334, 0x327, 0x302a };
        src[n++] = fixed[i % 7];
    }
    while (n < LEN + FILL)
        src[n++] = PICK_NEXT();
    unsigned char tmp[4 * NORM_MAX], exp[4 * NORM_MAX];
    size_t len = 0, need = 0;
    m = ref_nfd(src, n, want);
#ifdef COMPOSE
    for (unsigned i = 0; i < m; i++)
        len += ref_put(want[i], tmp + len);
    m = ref_nfc(want, m);
#else
    for (unsigned i = 0; i < n; i++)
        len += ref_put(src[i], tmp + len);
#endif
    for (unsigned i = 0; i < m; i++)
        need += ref_put(want[i], exp + need);
    /* the source ends at `end', with or without a terminator there */
    unsigned term = 0;
#ifdef ENDS
    term = vp_pick(2, "terminated");
#endif
    char *s = vp_buf(len + term);
    memcpy(s, tmp, len);
    if (term)
        s[len] = 0;
    size_t size;
#ifdef SIZES
    size = vp_pick(SIZES, "size");
    if (size >= need + 3)
        size = 3 * len + 1;
#else
    unsigned k = vp_pick(3, "size");
    size = k == 0 ? need : k == 1 ? need + 1 : COMPOSED ? len + 1 : 3 * len + 1;
#endif
    char *out = vp_buf(size);
    errno = 0;
#ifdef COMPOSE
    char *r = charstr_unicode_recompose(s, term ? NULL : s + len, out, out + size);
#else
    char *r = charstr_unicode_decompose(s, term ? NULL : s + len, out, out + size);
    vp_assert(need <= 3 * len, "three times the input suffices");
#endif
#ifdef COMPOSE
    vp_assert(need <= len, "the size of the input suffices");
#endif
    if (size <= need) {
        vp_assert(!r && errno == EOVERFLOW, "no room");
        vp_cover("no room");
    } else {
        vp_assert(r == out + need, "end of the result");
        vp_assert(*r == 0, "terminated");
        int eq = 1;
        for (size_t i = 0; i < need; i++)
            eq &= (unsigned char) out[i] == exp[i];
        vp_assert(eq, "normal form");
        if (need != len)
            vp_cover("changed length");
        vp_cover("converted");
    }
    vp_unbuf(out);
    vp_unbuf(s);
}
