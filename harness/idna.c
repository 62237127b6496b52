/* C34: hostnames are encoded as IDNA says, or refused. */
#include <errno.h>
#include <string.h>
#include "norm_ref.h"
#include "charstr.h"
#include "fsalloc.h"
#include "pick_char.h"

extern const uint8_t ref_status[];
extern const int32_t ref_map[];
extern const unsigned char ref_mapbytes[];
enum { VALID, MAPPED, IGNORED, DEVIATION };

/* RFC 3492 section 6.3; -1 if the result exceeds max */
static int ref_puny(const int *s, unsigned n, char *out, int max)
{
    static const char digit[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    int m = 0;
    for (unsigned i = 0; i < n; i++)
        if (s[i] < 128) {
            if (m == max)
                return -1;
            out[m++] = (char) s[i];
        }
    int basic = m, h = m;
    unsigned cur = 128, delta = 0, bias = 72;
    if (m > 0 && m < (int) n) {
        if (m == max)
            return -1;
        out[m++] = '-';
    }
    while (h < (int) n) {
        unsigned least = 0x7fffffff;
        for (unsigned i = 0; i < n; i++)
            if (((unsigned) s[i] >= cur) & ((unsigned) s[i] < least))
                least = (unsigned) s[i];
        delta += (least - cur) * (unsigned) (h + 1);
        cur = least;
        for (unsigned i = 0; i < n; i++) {
            if ((unsigned) s[i] < cur)
                delta++;
            if ((unsigned) s[i] != cur)
                continue;
            unsigned q = delta;
            for (unsigned k = 36;; k += 36) {
                unsigned t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
                if (m == max)
                    return -1;
                if (q < t) {
                    out[m++] = digit[q];
                    break;
                }
                out[m++] = digit[t + (q - t) % (36 - t)];
                q = (q - t) / (36 - t);
            }
            unsigned d = h == basic ? delta / 700 : delta / 2, k;
            d += d / (unsigned) (h + 1);
            for (k = 0; d > 35 * 26 / 2; k += 36)
                d /= 35;
            bias = k + 36 * d / (d + 38);
            delta = 0;
            h++;
        }
        delta++;
        cur++;
    }
    return m;
}

static bool is_alnum(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')); }

#ifndef FILL
#define FILL 0
#define FILLS 1
#endif
enum { MAXIN = LEN + FILL + FILLS, MAXCP = 4 * MAXIN + 20 };
enum { REFUSED, ENCODED, EITHER };

/* what has to happen to src; an encoding goes to out */
static int reference(const int *src, unsigned n, char *out)
{
    static int nfd[MAXCP], cps[MAXCP];
    unsigned m = ref_nfd(src, n, nfd), k = 0;
    m = ref_nfc(nfd, m);
    for (unsigned i = 0; i < m; i++) {
        unsigned st = (unsigned) vp_concrete(ref_status[nfd[i]]);
        if (st == VALID || st == DEVIATION)
            cps[k++] = nfd[i];
        else if (st == MAPPED) {
            int32_t at = (int32_t) vp_concrete((uint64_t) ref_map[nfd[i]]);
            const unsigned char *b = ref_mapbytes + at;
            while (*b)
                b += ref_utf8(b, 4, &cps[k++]);
        } else if (st != IGNORED)
            return REFUSED;
    }
    /* out of scope: dropping or mapping characters undid the normal form */
    m = ref_nfd(cps, k, nfd);
    m = ref_nfc(nfd, m);
    int same = m == k;
    for (unsigned i = 0; i < m && i < k; i++)
        same &= nfd[i] == cps[i];
    if (!same)
        return EITHER;
    unsigned len = 0, from = 0;
    bool unsure = false;
    if (k == 0)
        return REFUSED;
    for (;;) {
        unsigned to = from;
        int label_nonascii = 0;
        while (to < k && cps[to] != '.') {
            label_nonascii |= cps[to] >= 128;
            to++;
        }
        if (to == from || cps[from] == '-' || cps[to - 1] == '-')
            return REFUSED;
        for (unsigned i = from; i < to; i++)
            if (cps[i] < 128 && !(is_alnum(cps[i]) | (cps[i] == '-')))
                return REFUSED;
        if (label_nonascii) {
            unsigned cat = ref_cat[cps[from]];
            if (cat == UNICODE_CATEGORY_Mc)
                return REFUSED;
            if ((cat == UNICODE_CATEGORY_Mn) | (cat == UNICODE_CATEGORY_Me))
                unsure = true;
        }
        char label[70];
        int l;
        if (label_nonascii) {
            memcpy(label, "xn--", 4);
            l = ref_puny(cps + from, to - from, label + 4, 63 - 4);
            if (l < 0)
                return REFUSED;
            l += 4;
        } else {
            if (to - from > 63)
                return REFUSED;
            for (l = 0; l < (int) (to - from); l++)
                label[l] = (char) cps[from + l];
        }
        if (len + l > 253)
            return REFUSED;
        memcpy(out + len, label, l);
        len += l;
        if (to == k)
            break;
        out[len++] = '.';
        from = to + 1;
        if (from == k)                           /* a final separator */
            break;
    }
    out[len] = 0;
    return unsure ? EITHER : ENCODED;
}

static void shape(const char *r)
{
    size_t label = 0, n = strlen(r);
    for (size_t i = 0; i < n; i++) {
        vp_assert((unsigned char) r[i] < 128, "pure ASCII");
        label = r[i] == '.' ? 0 : label + 1;
        vp_assert(label <= 63, "label length");
    }
    vp_assert(n <= 253 || (n == 254 && r[253] == '.'), "name length");
}

void vp_main(void)
{
    vp_alloc_install();
#if defined(ASCIIONLY)
    unsigned n = vp_pick(LEN + 1, "n");
    char *s = vp_buf(n + 1);
    for (unsigned i = 0; i < n; i++) {
        s[i] = (char) vp_u8("char");
        vp_assume((s[i] > 0) & (s[i] < 0x7f + 1));
    }
    s[n] = 0;
    char *r = charstr_idna_encode(s);
    vp_assert(r && r != s && strlen(r) == n, "a copy");
    for (unsigned i = 0; i < n; i++) {
        char c = s[i];
        vp_assert(r[i] == ((c >= 'A') & (c <= 'Z') ? c + 32 : c), "in lower case");
    }
    fsfree(r);
    vp_cover("copied");
#elif defined(MALFORMED)
    static const char *const prefix[] = { "", "a", "\xc3\xa4", "A\xcc\x8a", "b." };
    unsigned p = vp_pick(5, "prefix"), n = vp_pick(LEN, "n") + 1;
    size_t pl = strlen(prefix[p]);
    unsigned char *s = vp_buf(pl + n + 1);
    memcpy(s, prefix[p], pl);
    bool bad = false;
    for (unsigned i = 0; i < n; i++) {
        s[pl + i] = vp_u8("byte");
        vp_assume(s[pl + i]);
    }
    s[pl + n] = 0;
    for (unsigned i = 0; i < n;) {
        int cp;
        unsigned k = ref_utf8(s + pl + i, n - i, &cp);
        if (!k) {
            bad = true;
            break;
        }
        i += k;
    }
    vp_assume_(bad);
    vp_assert(!charstr_idna_encode((char *) s), "malformed names are refused");
    vp_cover("malformed");
#else
    int src[MAXIN];
    unsigned char tmp[4 * MAXIN];
    char want[600];
    unsigned n = 0;
    size_t len = 0;
#ifdef BEFORE
    src[n++] = BEFORE;
#endif
#if FILL
    unsigned fill = FILL + vp_pick(FILLS, "fill"), every = EVERY;
    for (unsigned i = 0; i < fill; i++)
        src[n++] = every && i % every == every - 1 ? '.' : FILLCHAR;
#endif
    for (unsigned i = 0; i < LEN; i++)
        src[n++] = i ? PICK_NEXT() : PICK_WIDE();
    int any = 0;
    for (unsigned i = 0; i < n; i++)
        any |= src[i] >= 128;
    vp_assume_(any);
    for (unsigned i = 0; i < n; i++)
        len += ref_put(src[i], tmp + len);
    char *s = vp_buf(len + 1);
    memcpy(s, tmp, len);
    s[len] = 0;
    char *r = charstr_idna_encode(s);
    int w = reference(src, n, want);
    if (w == REFUSED) {
        vp_assert(!r, "to be refused");
        vp_cover("refused");
    } else if (w == ENCODED) {
        vp_assert(r, "to be encoded");
        vp_assert(strlen(r) == strlen(want), "length of the encoding");
        int eq = 1;
        for (size_t i = 0; want[i]; i++)
            eq &= r[i] == want[i];
        vp_assert(eq, "the encoding");
        vp_cover("encoded");
    }
    if (r) {
        shape(r);
        fsfree(r);
    }
#endif
    vp_unbuf(s);
    vp_no_leaks();
}
