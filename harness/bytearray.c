/* C10: byte array content, limit and NUL. */
#include <string.h>
#include <stdlib.h>
#include "vp.h"
#include "bytearray.h"

#define CAP 700
static uint8_t model[CAP];
static size_t msize;

static void check(byte_array_t *a)
{
    vp_assert(byte_array_size(a) == msize, "size is exact");
    const uint8_t *p = byte_array_data(a);
    for (size_t i = 0; i < msize; i++)
        vp_assert(p[i] == model[i], "contents are exact");
    vp_assert(p[msize] == 0, "a NUL byte follows");
}

/* a source buffer of exactly n bytes: symbolic at the ends, a pattern between */
static uint8_t *source(size_t n, bool str)
{
    static uint8_t salt;
    uint8_t *p = vp_buf(n + str);
    for (size_t i = 0; i < n; i++) {
        p[i] = i < 2 || i >= n - 1 ? vp_u8("byte") : (uint8_t) ((i * 7 + salt) | 1);
        if (str)
            vp_assume(p[i] != 0);
    }
    if (str)
        p[n] = 0;
    salt += 16;
    return p;
}

static size_t near(size_t max, size_t cur)
{
    switch (vp_pick(NTARGETS, "target")) {
        case 0: return cur;
        case 1: return cur + 1;
        case 2: return 127;
        case 3: return 128;
        case 4: return max - 1;
        case 5: return max;
        case 6: return cur / 2;
        case 7: return 255;
        case 8: return 256;
        case 9: return cur + 3;
        case 10: return 129;
        default: return max + 1;
    }
}

static void operate(byte_array_t *a, size_t max)
{
    size_t pos, t, len;
    uint8_t *src;
    bool ok;
    int op = vp_pick(OPS, "op");
    switch (op) {
        case 0: case 1:                 /* copy, copy_string */
            switch (vp_pick(5, "pos")) {
                case 0: pos = 0; break;
                case 1: pos = 1; break;
                case 2: pos = msize ? msize - 1 : 0; break;
                case 3: pos = msize; break;
                default:
                    pos = vp_u64("far");
                    vp_assume(pos > msize);
                    src = source(1, op == 1);
                    ok = op ? byte_array_copy_string(a, pos, (char *) src) : byte_array_copy(a, pos, src, 1);
                    vp_assert(!ok, "a position past the end fails");
                    vp_cover("copy past the end");
                    vp_unbuf(src);
                    return;
            }
            t = near(max, msize);
            vp_assume(pos <= msize && t >= pos && t < CAP);
            len = t - pos;
            src = source(len, op == 1);
            ok = op ? byte_array_copy_string(a, pos, (char *) src) : byte_array_copy(a, pos, src, len);
            if (t < msize)
                t = msize;
            vp_assert(ok == (t < max), "copy succeeds exactly when the result fits");
            if (ok) {
                for (size_t i = 0; i < len; i++)
                    model[pos + i] = src[i];
                msize = t;
                vp_cover("copied");
            } else
                vp_cover("copy refused");
            vp_unbuf(src);
            break;
        case 2: case 3:                 /* append, append_string */
            t = near(max, msize);
            vp_assume(t >= msize && t < CAP);
            len = t - msize;
            src = source(len, op == 3);
            ok = op == 3 ? byte_array_append_string(a, (char *) src) : byte_array_append(a, src, len);
            vp_assert(ok == (t < max), "append succeeds exactly when the result fits");
            if (ok) {
                for (size_t i = 0; i < len; i++)
                    model[msize + i] = src[i];
                msize = t;
                vp_cover("appended");
            }
            vp_unbuf(src);
            break;
        case 4: {
            t = near(max, msize);
            vp_assume(t < CAP);
            uint8_t c = vp_u8("fill");
            ok = byte_array_resize(a, t, c);
            vp_assert(ok == (t < max), "resize succeeds exactly when the result fits");
            if (ok) {
                for (size_t i = msize; i < t; i++)
                    model[i] = c;
                msize = t;
                vp_cover("resized");
            }
            break;
        }
        case 5:
            byte_array_clear(a);
            msize = 0;
            break;
        case 6: {                       /* overlapping copy within the array */
            vp_assume(msize >= 3);
            size_t from = vp_pick(3, "from");
            pos = vp_pick(3, "to");
            len = msize - (pos > from ? pos : from);
            ok = byte_array_copy(a, pos, (const uint8_t *) byte_array_data(a) + from, len);
            vp_assert(ok, "copy within the current size succeeds");
            memmove(model + pos, model + from, len);
            vp_cover("overlapping copy");
            break;
        }
        default: {                      /* lengths that cannot fit */
            size_t n = vp_u64("huge");
            vp_assume(n >= max);
            src = source(1, false);
            switch (vp_pick(3, "how")) {
                case 0:
                    ok = byte_array_resize(a, n, 1);
                    break;
                case 1:
                    vp_assume(n > max - msize);
                    ok = byte_array_append(a, src, n);
                    break;
                default:
                    pos = msize / 2;
                    vp_assume(n > max - pos);
                    ok = byte_array_copy(a, pos, src, n);
                    break;
            }
            vp_assert(!ok, "an impossible size fails");
            vp_cover("huge refused");
            vp_unbuf(src);
            break;
        }
    }
}

void vp_main(void)
{
    vp_alloc_install();
    static const size_t maxes[] = { 1, 2, 130, 6, 128, 129, 300, 127, 513 };
    size_t max = maxes[vp_pick(NMAX, "max")];
    byte_array_t *a = make_byte_array(max);
    check(a);
#ifdef PREFILL
    static const size_t pre[] = { 0, 3, 127, 128, 200 };
    size_t n = pre[vp_pick(5, "prefill")];
    vp_assume(n < max);
    vp_assert(byte_array_resize(a, n, 'p'), "fits");
    memset(model, 'p', n);
    msize = n;
    check(a);
#endif
    for (int i = 0; i < HIST; i++) {
        operate(a, max);
        check(a);
    }
    destroy_byte_array(a);
    vp_no_leaks();
}
