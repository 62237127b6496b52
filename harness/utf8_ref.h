/* UTF-8 as in RFC 3629 / Unicode table 3-7. */
#ifndef UTF8_REF_H
#define UTF8_REF_H
#include <string.h>
#include "vp.h"

/* number of bytes the lead byte asks for; 0 if it cannot start a sequence */
static inline unsigned ref_need(unsigned b)
{
    return b < 0x80 ? 1 : (b >= 0xc2) & (b <= 0xdf) ? 2 : (b >= 0xe0) & (b <= 0xef) ? 3 : (b >= 0xf0) & (b <= 0xf4) ? 4 : 0;
}
static inline bool ref_cont(unsigned b) { return (b & 0xc0) == 0x80; }
/* length of the well-formed sequence at s, of which n bytes may be read; 0 if none */
static inline unsigned ref_utf8(const unsigned char *s, size_t n, int *cp)
{
    if (!n)
        return 0;
    unsigned a = s[0], need = ref_need(a);
    if (need == 1) {
        *cp = (int) a;
        return 1;
    }
    if (need == 0 || n < need)
        return 0;
    unsigned lo = a == 0xe0 ? 0xa0 : a == 0xf0 ? 0x90 : 0x80, hi = a == 0xed ? 0x9f : a == 0xf4 ? 0x8f : 0xbf;
    if (s[1] < lo || s[1] > hi)
        return 0;
    for (unsigned i = 2; i < need; i++)
        if (!ref_cont(s[i]))
            return 0;
    *cp = need == 2 ? (int) ((a & 0x1f) << 6 | (s[1] & 0x3f)) :
        need == 3 ? (int) ((a & 0xf) << 12 | (s[1] & 0x3fu) << 6 | (s[2] & 0x3fu)) :
        (int) ((a & 7) << 18 | (s[1] & 0x3fu) << 12 | (s[2] & 0x3fu) << 6 | (s[3] & 0x3fu));
    return need;
}
/* writes the form of a scalar value; returns its length */
static inline unsigned ref_put(int cp, unsigned char *d)
{
    unsigned c = (unsigned) cp;
    if (c < 0x80) { d[0] = (unsigned char) c; return 1; }
    if (c < 0x800) { d[0] = (unsigned char) (0xc0 + c / 64); d[1] = (unsigned char) (0x80 + c % 64); return 2; }
    if (c < 0x10000) { d[0] = (unsigned char) (0xe0 + c / 4096); d[1] = (unsigned char) (0x80 + c / 64 % 64); d[2] = (unsigned char) (0x80 + c % 64); return 3; }
    d[0] = (unsigned char) (0xf0 + c / 262144); d[1] = (unsigned char) (0x80 + c / 4096 % 64); d[2] = (unsigned char) (0x80 + c / 64 % 64); d[3] = (unsigned char) (0x80 + c % 64);
    return 4;
}
static inline bool ref_scalar(int cp) { return (cp >= 0) & (cp <= 0x10ffff) & ((cp < 0xd800) | (cp > 0xdfff)); }
#endif
