/* C14: encoding is exact and bounded. */
#include "b64_ref.h"
#ifndef BULK
#define BULK 0
#endif
#include "base64.h"

void vp_main(void)
{
    char a62, a63, p62, p63, want[4 * (BULK + MAXN) / 3 + 16];
    ref_alphabet(&a62, &a63, &p62, &p63);
    size_t n = BULK + vp_pick(MAXN + 1, "n");
    uint8_t *src = vp_buf(n);
    for (size_t i = 0; i < BULK; i++)            /* fixed bytes first */
        src[i] = (uint8_t) (i * 151 + i / 253);
    vp_bytes(src + BULK, n - BULK, "src");
    size_t len = ref_encode(src, n, want, p62, p63);
    size_t room = BULK ? len + 3 - vp_pick(12, "room") : vp_pick(len + 4, "room");
    char *dst = vp_buf(room);
    for (size_t i = 0; i < room; i++)
        dst[i] = 0x55;
    size_t r = base64_encode_buffer(src, n, dst, room, a62, a63);
    vp_assert(r == len, "the full length is returned");
    for (size_t i = 0; i < len && i + 1 < room; i++)
        vp_assert(dst[i] == want[i], "the prefix is exact");
    if (room)
        vp_assert(dst[len < room ? len : room - 1] == 0, "NUL-terminated");
    if (room > len)
        vp_cover("fits");
    else
        vp_cover("truncated");
    vp_unbuf(dst);
    vp_unbuf(src);
}
