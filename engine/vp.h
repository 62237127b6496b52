/* Harness interface. The same harness source is executed symbolically by
 * vpsym (VP_SYM), or natively on concrete values for replay (VP_NATIVE). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

uint64_t vp_sym(unsigned bits, const char *name);   /* a fresh symbolic input */
void vp_assume_(int cond);
void vp_assert_(int cond, const char *msg);
void vp_cover_(const char *label);
uint64_t vp_concrete(uint64_t v);                   /* split paths so that v is concrete */
uint64_t vp_urem(uint64_t a, uint64_t b);           /* a % b, b constant, without splitting paths */

#define vp_assume(c) vp_assume_(!!(c))
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define vp_assert(c, msg) vp_assert_(!!(c), msg " [" #c "] line " VP_STR(__LINE__))
#define vp_cover(l) vp_cover_(l)
#define vp_u8(n) ((uint8_t) vp_sym(8, n))
#define vp_u16(n) ((uint16_t) vp_sym(16, n))
#define vp_u32(n) ((uint32_t) vp_sym(32, n))
#define vp_i32(n) ((int32_t) vp_sym(32, n))
#define vp_u64(n) (vp_sym(64, n))
#define vp_ptr(n) ((void *) vp_sym(64, n))

/* symbolic integer in [lo, hi] */
static inline int vp_range(int lo, int hi, const char *name)
{
    int v = (int) vp_sym(32, name);
    vp_assume(v >= lo && v <= hi);
    return v;
}
/* symbolic choice in [0, n), one path per feasible value */
static inline unsigned vp_pick(unsigned n, const char *name)
{
    unsigned v = (unsigned) vp_sym(8, name);
    vp_assume(v < n);
    return (unsigned) vp_concrete(v);
}
/* as vp_concrete for v in [lo, hi], by halving: cheaper for many values */
static inline unsigned vp_halve(unsigned v, unsigned lo, unsigned hi)
{
    while (lo < hi) {
        unsigned mid = lo + (hi - lo) / 2;
        if (vp_concrete(v <= mid))
            hi = mid;
        else
            lo = mid + 1;
    }
    return lo;
}
static inline void vp_bytes(void *p, size_t n, const char *name)
{
    for (size_t i = 0; i < n; i++)
        ((uint8_t *) p)[i] = vp_u8(name);
}

/* Reallocator with accounting: counts blocks, checks use. */
void vp_alloc_install(void);            /* install via fs_set_reallocator() */
extern long vp_alloc_live;              /* blocks now outstanding */
extern long vp_alloc_calls;
#define vp_no_leaks() vp_assert(vp_alloc_live == 0, "memory returned")
/* exact-size heap buffers so that any overrun is detected */
void *vp_buf(size_t n);
void vp_unbuf(void *p);

void vp_main(void);

#endif
