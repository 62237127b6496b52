/* C10: sizes over the whole 64-bit range; tiny arrays. */
#include "vp.h"
#include "bytearray.h"

void vp_main(void)
{
    vp_alloc_install();
    if (vp_pick(2, "zero")) {
        /* no room for anything: must stay empty and in bounds */
        byte_array_t *a = make_byte_array(0);
        uint8_t c = 1;
        vp_assert(!byte_array_append(a, &c, 1), "nothing fits");
        vp_assert(!byte_array_copy(a, 0, &c, 1), "nothing fits");
        vp_assert(!byte_array_resize(a, 1, 1), "nothing fits");
        byte_array_clear(a);
        vp_assert(byte_array_size(a) == 0, "stays empty");
        destroy_byte_array(a);
        vp_no_leaks();
        vp_cover("zero");
        return;
    }
    size_t max = vp_u64("max");         /* any maximum size */
    vp_assume(max >= 128);
    byte_array_t *a = make_byte_array(max);
    size_t n0 = vp_pick(3, "n0") * 60;  /* within the initial storage */
    vp_assert(byte_array_resize(a, n0, 7), "fits");
    size_t n = vp_u64("n"), pos = vp_u64("pos");
    uint8_t *src = vp_buf(1);
    src[0] = 1;
    bool ok;
    switch (vp_pick(4, "op")) {
        case 0:
            vp_assume(n >= max);
            ok = byte_array_resize(a, n, 1);
            break;
        case 1:
            vp_assume(n >= max - n0);
            ok = byte_array_append(a, src, n);
            break;
        case 2:
            vp_assume(pos > n0);
            ok = byte_array_copy(a, pos, src, n);
            break;
        default:
            vp_assume(pos <= n0);
            vp_assume(n >= max - pos);
            ok = byte_array_copy(a, pos, src, n);
            break;
    }
    vp_assert(!ok, "what does not fit is refused");
    vp_cover("refused");
    vp_assert(byte_array_size(a) == n0, "size unchanged");
    const uint8_t *p = byte_array_data(a);
    for (size_t i = 0; i < n0; i++)
        vp_assert(p[i] == 7, "contents unchanged");
    vp_assert(p[n0] == 0, "NUL kept");
    vp_unbuf(src);
    destroy_byte_array(a);
    vp_no_leaks();
}
