/* C16: round trips and sizes. */
#include <string.h>
#include <errno.h>
#include "b64_ref.h"
#include "base64.h"
#ifndef BULK
#define BULK 0
#endif

void vp_main(void)
{
    vp_alloc_install();
#ifdef SIZES
    /* any size: s = 4q with q = ceil(n / 3), that is, 0 <= 3q - n < 3 */
    uint64_t n = vp_u64("n");
    size_t s = base64_encoding_size(n);
    const uint64_t most = UINT64_MAX / 4 * 3;       /* most bytes with a representable encoding */
    if (n > most) {
        vp_cover("overflow");
        vp_assert(s == (size_t) -1, "overflow is reported");
    } else {
        vp_cover("fits");
        uint64_t q = s / 4;
        vp_assert(s % 4 == 0, "whole groups of four");
        vp_assert(3 * q >= n, "room for every byte");
        vp_assert(3 * q - n < 3, "no needless group");
    }
#else
    char a62, a63, p62, p63;
    size_t n = BULK + vp_pick(MAXN + 1, "n");
    uint8_t *src = vp_buf(n);
    for (size_t i = 0; i < BULK; i++)            /* fixed bytes first */
        src[i] = (uint8_t) (i * 151 + i / 253);
    vp_bytes(src + BULK, n - BULK, "src");
    if (vp_pick(2, "simple")) {
        char *e = base64_encode_simple(src, n);
        vp_assert(e != NULL, "encoded");
        vp_assert(strlen(e) == base64_encoding_size(n), "exactly sized");
        static char want[4 * (BULK + 64) / 3 + 4];
        size_t len = ref_encode(src, n, want, '+', '/');
        vp_assert(len == base64_encoding_size(n), "exactly sized");
        for (size_t i = 0; i < len; i++)
            vp_assert(e[i] == want[i], "exactly encoded");
        size_t m = 99;
        uint8_t *d = base64_decode_simple(e, &m);
        vp_assert(d != NULL && m == n, "decoded to the same size");
        for (size_t i = 0; i < n; i++)
            vp_assert(d[i] == src[i], "decoded to the same bytes");
        vp_assert(d[n] == 0, "NUL-terminated");
        fsfree(e);
        fsfree(d);
        vp_cover("simple");
    } else {
        ref_alphabet(&a62, &a63, &p62, &p63);
        size_t len = base64_encoding_size(n);
        char *e = vp_buf(len + 1);
        vp_assert(base64_encode_buffer(src, n, e, len + 1, a62, a63) == len, "length agrees");
        uint8_t *d = vp_buf(n);
        bool wsp = vp_pick(2, "wsp"), nul = vp_pick(2, "terminated");
        vp_assert(base64_decode_buffer(e, nul ? (size_t) -1 : len, d, n, a62, a63, wsp) == (ssize_t) n, "decoded to the same size");
        for (size_t i = 0; i < n; i++)
            vp_assert(d[i] == src[i], "decoded to the same bytes");
        vp_unbuf(e);
        vp_unbuf(d);
        vp_cover("buffers");
    }
    vp_unbuf(src);
#endif
    vp_no_leaks();
}
