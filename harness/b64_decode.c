/* C15: decoding accepts exactly the valid encodings. */
#include <errno.h>
#include "b64_ref.h"
#ifndef BULK
#define BULK 0
#endif
#include "base64.h"

void vp_main(void)
{
    char a62, a63, p62, p63;
    static uint8_t want[BULK + 64];
    ref_alphabet(&a62, &a63, &p62, &p63);
    bool wsp = vp_pick(2, "wsp");
    size_t n = BULK + PREFIX + MINN + vp_pick(MAXN - MINN + 1, "n");
    bool nul = vp_pick(2, "terminated");
    char *src = vp_buf(n + nul);
    for (size_t i = 0; i < n; i++)
        src[i] = i < BULK ? "YWJjQ0RFZmdo"[i % 12] : i < BULK + PREFIX ? "QUJDREVGR0hJSktMTU5PUFFS"[i - BULK] : (char) vp_u8("src");
    if (nul)
        src[n] = 0;
    int len = ref_decode(src, n, want, p62, p63, wsp);
    size_t room = BULK ? (n / 4 + 1) * 3 - 2 * vp_pick(5, "room") : vp_pick(n + 2, "room");
    uint8_t *dst = vp_buf(room);
    errno = 0;
    ssize_t r = base64_decode_buffer(src, nul ? (size_t) -1 : n, dst, room, a62, a63, wsp);
    if (len < 0) {
        vp_assert(r < 0, "malformed input is rejected");
        vp_assert(errno == EILSEQ, "errno is EILSEQ");
        vp_cover("rejected");
    } else {
        vp_assert(r == len, "the full decoded length is returned");
        for (size_t i = 0; i < (size_t) len && i < room; i++)
            vp_assert(dst[i] == want[i], "the prefix is exact");
        if (len > 0)
            vp_cover("accepted");
    }
    vp_unbuf(dst);
    vp_unbuf(src);
}
