/* C26: binary64 patterns to integers, decided bit by bit. */
#include "vp.h"
#include "float.h"

void vp_main(void)
{
    uint64_t v = vp_u64("bits");
    long long n = 1234567;
    unsigned long long u = 1234567;
    bool neg = v >> 63;
    unsigned e = (unsigned) (v >> 52) & 0x7ff;
    uint64_t frac = v & ((1ULL << 52) - 1);
    /* magnitude = sig * 2^(e - 1075) for normal numbers */
    bool zero = e == 0 && frac == 0, integral = false, fits = false;
    uint64_t mag = 0;
    if (zero) {
        integral = fits = true;
        vp_cover("zero");
    } else if (e >= 1023 && e <= 1023 + 63) {    /* 1 <= magnitude < 2^64 */
        unsigned k = (unsigned) vp_concrete(e) - 1023;
        uint64_t sig = frac | 1ULL << 52;
        if (k <= 52) {
            uint64_t unit = 1ULL << (52 - k);
            integral = (sig & (unit - 1)) == 0;
            mag = sig / unit;
        } else {
            integral = true;
            mag = sig * (1ULL << (k - 52));
        }
        fits = true;
    }
    bool ok = binary64_to_integer(v, &n), uok = binary64_to_unsigned(v, &u);
    bool want = integral & fits & (neg ? mag <= 1ULL << 63 : mag < 1ULL << 63);
    bool uwant = integral & fits & (!neg | zero);
    vp_assert(ok == want, "signed: succeeds exactly when representable");
    vp_assert(uok == uwant, "unsigned: succeeds exactly when representable");
    if (ok) {
        vp_assert((uint64_t) n == (neg ? 0 - mag : mag), "signed: the exact integer");
        vp_cover("signed");
        if (n == -0x7fffffffffffffffLL - 1)
            vp_cover("most negative");
    }
    if (uok) {
        vp_assert(u == mag, "unsigned: the exact integer");
        if (u >> 63)
            vp_cover("large unsigned");
    }
    if (e == 0x7ff)
        vp_cover("infinity or NaN");
}
