/* Reference Base64 (RFC 4648), branch-free over symbolic values. */
#include "vp.h"
static char ref_char(unsigned v, char p62, char p63)
{
    int c = 'A' + v;
    c += (v >= 26) * ('a' - 26 - 'A');
    c += (v >= 52) * ('0' - 52 - ('a' - 26));
    unsigned m62 = -(unsigned) (v == 62), m63 = -(unsigned) (v == 63);
    return (c & ~m62 & ~m63) | (p62 & m62) | (p63 & m63);
}
/* encode n bytes to out[] (big enough), return the length */
static size_t ref_encode(const uint8_t *s, size_t n, char *out, char p62, char p63)
{
    size_t o = 0;
    for (size_t i = 0; i < n; i += 3) {
        uint32_t b = s[i] << 16;
        if (i + 1 < n)
            b |= s[i + 1] << 8;
        if (i + 2 < n)
            b |= s[i + 2];
        out[o++] = ref_char(b >> 18 & 63, p62, p63);
        out[o++] = ref_char(b >> 12 & 63, p62, p63);
        out[o++] = i + 1 < n ? ref_char(b >> 6 & 63, p62, p63) : '=';
        out[o++] = i + 2 < n ? ref_char(b & 63, p62, p63) : '=';
    }
    return o;
}
/* value of a character, -1 if not in the alphabet */
static int ref_value(char c, char p62, char p63)
{
    int r = -1;
    int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9';
    if (up)
        r = c - 'A';
    else if (lo)
        r = c - 'a' + 26;
    else if (di)
        r = c - '0' + 52;
    else if (c == p62)
        r = 62;
    else if (c == p63)
        r = 63;
    return r;
}
static bool ref_wsp(char c) { return c == ' ' | c == '\t' | c == '\n' | c == '\f' | c == '\r'; }
/* Decode a whole string; -1 if it is not a canonical encoding. */
static int ref_decode(const char *s, size_t n, uint8_t *out, char p62, char p63, bool wsp)
{
    size_t groups = 0, pads = 0, o = 0;
    uint32_t acc = 0;
    for (size_t i = 0; i < n && s[i]; i++) {
        char c = s[i];
        if (wsp && ref_wsp(c))
            continue;
        if (c == '=') {
            pads++;
            continue;
        }
        int v = ref_value(c, p62, p63);
        if (v < 0 || pads)
            return -1;
        acc = acc << 6 | v;
        groups++;
        switch (groups & 3) {
            case 2: out[o++] = acc >> 4; break;
            case 3: out[o++] = acc >> 2; break;
            case 0: out[o++] = acc; acc = 0; break;
        }
    }
    switch (groups & 3) {
        case 0: return pads ? -1 : (int) o;
        case 2: return pads != 2 || (acc & 15) ? -1 : (int) o;
        case 3: return pads != 1 || (acc & 3) ? -1 : (int) o;
        default: return -1;
    }
}
static bool ref_alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
/* any valid pair of characters for 62 and 63, or the default (-1) */
static void ref_alphabet(char *a62, char *a63, char *p62, char *p63)
{
    *a62 = *a63 = -1;
    *p62 = '+';
    *p63 = '/';
#ifdef ALPHABETS
    switch (vp_pick(ALPHABETS, "alphabet")) {
        case 1:
            *p62 = *a62 = (char) vp_u8("pos62");
            *p63 = *a63 = (char) vp_u8("pos63");
            break;
        case 2:
            *p62 = *a62 = '-';
            *p63 = *a63 = '_';
            break;
        case 3:
            *p62 = *a62 = (char) vp_u8("pos62");
            break;
        case 4:
            *p63 = *a63 = (char) vp_u8("pos63");
            break;
    }
    vp_assume(*p62 != *p63 && *p62 != -1 && *p63 != -1);
    vp_assume(!ref_alnum(*p62));
    vp_assume(!ref_alnum(*p63));
    vp_assume(*p62 && *p63 && *p62 != '=' && *p63 != '=');
    vp_assume(!ref_wsp(*p62) & !ref_wsp(*p63));
#endif
}
