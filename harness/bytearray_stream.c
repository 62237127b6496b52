/* C11: stream append and sharing. */
#include "vp.h"
#include "bytearray.h"

#define CAP 700
static uint8_t model[CAP];
static size_t msize, mmax, requested;
static int calls, cookie;
static ssize_t answer;

static void check(byte_array_t *a)
{
    vp_assert(byte_array_size(a) == msize, "size is exact");
    const uint8_t *p = byte_array_data(a);
    for (size_t i = 0; i < msize; i++)
        vp_assert(p[i] == model[i], "contents are exact");
    vp_assert(p[msize] == 0, "a NUL byte follows");
}

static ssize_t reader(void *obj, void *buf, size_t count)
{
    calls++;
    vp_assert(obj == &cookie, "reader gets its object");
    vp_assert(count <= requested, "no more than requested");
    vp_assert(count <= mmax - 1 - msize, "no more than the room");
    if (requested)
        vp_assert(count > 0, "something can be read");
    uint8_t *p = buf;
    for (size_t i = 0; i < count; i++)      /* the whole buffer is writable */
        p[i] = (uint8_t) (i * 3 + 1);
    if (count)
        p[0] = vp_u8("first");
    switch (vp_pick(5, "answer")) {
        case 0: answer = -1 - (ssize_t) (vp_u64("error") >> 1); break;
        case 1: answer = 0; break;
        case 2: answer = count; break;
        case 3: answer = count / 2; break;
        default: answer = count ? 1 : 0; break;
    }
    if (answer > 0)
        for (ssize_t i = 0; i < answer; i++)
            model[msize + i] = p[i];
    return answer;
}

static void stream(byte_array_t *a)
{
    static const size_t lens[] = { 0, 1, SIZE_MAX, 127, 128, 129, 5, 300, (size_t) -2, SIZE_MAX / 2, (size_t) 1 << 63 };
    requested = lens[vp_pick(NLENS, "len")];
    calls = 0;
    vp_assume(requested < CAP || mmax <= CAP);
    ssize_t r = byte_array_append_stream(a, reader, &cookie, requested);
    if (msize + 1 >= mmax && !requested)
        vp_assert(r <= 0, "nothing appended to a full array");
    else if (msize + 1 >= mmax) {
        vp_assert(r < 0 && calls == 0, "a full array fails");
        vp_cover("full");
    } else {
        if (requested)
            vp_assert(calls == 1, "the reader is called once");
        if (calls) {
            vp_assert(r == answer, "the reader's result is returned");
            if (r > 0) {
                msize += r;
                vp_cover("streamed");
            }
        }
    }
    check(a);
}

void vp_main(void)
{
    vp_alloc_install();
    static const size_t maxes[] = { 1, 2, 130, 129, 300, 6, 257 };
    mmax = maxes[vp_pick(NMAX, "max")];
    byte_array_t *a = make_byte_array(mmax);
    static const size_t pre[] = { 0, 1, 127, 128, 126, 200 };
    size_t n = pre[vp_pick(NPRE, "pre")];
    vp_assume(n < mmax);
    uint8_t c = vp_u8("fill");
    vp_assert(byte_array_resize(a, n, c), "fits");
    for (size_t i = 0; i < n; i++)
        model[i] = c;
    msize = n;
    int refs = 1;
#ifdef SHARES
    for (int i = 0; i < SHARES; i++)
        vp_assert(share_byte_array(a) == a, "the same array");
    vp_cover("survives a destroy");
    for (int i = 0; i < SHARES; i++) {
        destroy_byte_array(a);
        vp_assert(vp_alloc_live > 0, "alive while referenced");
    }
#endif
    byte_array_t *h = a;
    for (int i = 0; i < HIST; i++) {
        switch (vp_pick(4, "op")) {
            case 0:
            case 1:
                stream(h);
                break;
            case 2:
                h = share_byte_array(h);
                refs++;
                check(h);
                check(a);
                break;
            default:
                vp_assume(refs > 1);
                destroy_byte_array(h);
                refs--;
                check(h);
                vp_cover("survives a destroy");
                break;
        }
    }
    while (refs--) {
        vp_assert(vp_alloc_live > 0, "alive while referenced");
        check(a);
        destroy_byte_array(a);
    }
    vp_no_leaks();
}
