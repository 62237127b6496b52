/* C10: large byte arrays, grown in steps to sizes around powers of two. */
#include <string.h>
#include "vp.h"
#include "bytearray.h"

#define CAP 110000
static uint8_t model[CAP], src[CAP];
static size_t msize;

static void check(byte_array_t *a)
{
    vp_assert(byte_array_size(a) == msize, "size");
    const uint8_t *d = byte_array_data(a);
    vp_assert(d[msize] == 0, "NUL-terminated");
    int eq = 1;
    for (size_t i = 0; i < msize; i++)
        eq &= d[i] == model[i];
    vp_assert(eq, "contents");
}

void vp_main(void)
{
    vp_alloc_install();
    static const size_t maxes[] = { SIZE_MAX, 65537, 40000, (size_t) 1 << 31 };
    static const size_t steps[] = { 1, 4096, 33000, 300, 511, 1023, 2048, 8191, 16384 };
    size_t max = maxes[vp_pick(NMAX, "max")];
    byte_array_t *a = make_byte_array(max);
    for (size_t i = 0; i < CAP; i++)
        src[i] = (uint8_t) (i * 13 + (i >> 8) + 1);
    for (int i = 0; i < HIST; i++) {
        size_t n = steps[vp_pick(NSTEPS, "step")] + vp_pick(2, "plus"), at = msize;
        bool ok;
        src[0] = vp_u8("first");
        src[n - 1] = vp_u8("last");
        int op = vp_pick(4, "op");
        switch (op) {
            case 0:
                ok = byte_array_append(a, src, n);
                break;
            case 1:
                at = msize / 2;
                ok = byte_array_copy(a, at, src, n);
                break;
            case 2:
                ok = byte_array_resize(a, msize + n, 'r');
                break;
            default:
                at = msize / 3;
                n = 0;
                ok = byte_array_resize(a, at, 's');
                break;
        }
        vp_assert(ok == (at + n < max), "succeeds exactly when the result fits");
        if (ok) {
            if (op == 2)
                memset(model + at, 'r', n);
            else
                memcpy(model + at, src, n);
            if (op == 3 || at + n > msize)
                msize = at + n;
            vp_cover("done");
        } else
            vp_cover("refused");
        check(a);
    }
    destroy_byte_array(a);
    vp_no_leaks();
}
