/* C23: URL encoding. */
#include "vp.h"
#include "charstr.h"
#include <string.h>

static bool literal(unsigned c)
{
    return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '-') | (c == '.') | (c == '/') | (c == '<') |
        (c == '>') | (c == '\\') | (c == '^') | (c == '_') | (c == '`') | (c == '{') | (c == '|') | (c == '~');
}
/* the header and the table disagree on these; either form is accepted */
static bool unclear(unsigned c) { return (c == '"') | (c == ']') | (c == '}'); }
static unsigned char hex(unsigned v) { return (unsigned char) (v < 10 ? '0' + v : 'A' + v - 10); }

/* e must be the %XX form of c */
static bool is_percent(const char *e, unsigned c)
{
    return e[0] == '%' && (unsigned char) e[1] == hex(c >> 4) && (unsigned char) e[2] == hex(c & 15) && e[3] == 0;
}
static bool is_self(const char *e, unsigned c) { return (unsigned char) e[0] == c && e[1] == 0; }
static bool is_standard(const char *e, unsigned c)
{
    if (c == ' ')
        return e[0] == '+' && e[1] == 0;
    if (literal(c))
        return is_self(e, c);
    if (unclear(c))
        return is_self(e, c) || is_percent(e, c);
    return is_percent(e, c);
}

static bool any(const unsigned char *set, unsigned n, unsigned c)
{
    bool r = false;
    for (unsigned i = 0; i < n; i++)
        r = r | (set[i] == c);
    return r;
}

/* result must be the concatenation of the byte encodings */
static void concatenated(const char *r, const unsigned char *s, size_t n, charstr_url_encoder_t *enc)
{
    size_t at = 0;
    vp_assert(r != NULL, "a result");
    for (size_t i = 0; i < n; i++) {
        const char *e = enc ? charstr_url_custom_encode_byte(enc, s[i]) : charstr_url_encode_byte(s[i]);
        for (size_t j = 0; e[j]; j++)
            vp_assert(r[at++] == e[j], "the encodings of the bytes, concatenated");
    }
    vp_assert(r[at] == 0, "terminated");
}

void vp_main(void)
{
    vp_alloc_install();
#ifdef CUSTOM
    unsigned char res[4], unres[4];
    /* one arbitrary character in either list, perhaps fixed ones before and after it in either */
    static const unsigned char extra[] = { 0, 'a', '%', ' ', '/', 0xff, '+', '!', '0', '~', 0x80, 1 };
    unsigned nr = 0, nu = 0;
    unsigned side = vp_pick(3, "side");
    unsigned char er = extra[vp_pick(NEXTRA, "extra_reserve")], eu = extra[vp_pick(NEXTRA, "extra_unreserve")];
    vp_assume(er == 0 || er != eu);
    bool after = vp_pick(2, "after");
    unsigned char c0 = side < 2 ? vp_u8("char") : 'x';
    vp_assume(c0 != 0 && (side == 2 || (c0 != er && c0 != eu)));
    if (er && after)
        res[nr++] = er;
    if (side == 0)
        res[nr++] = c0;
    if (er && !after)
        res[nr++] = er;
    if (eu && after)
        unres[nu++] = eu;
    if (side == 1)
        unres[nu++] = c0;
    if (eu && !after)
        unres[nu++] = eu;
    char *r = vp_buf(nr + 1), *u = vp_buf(nu + 1);
    memcpy(r, res, nr);
    memcpy(u, unres, nu);
    r[nr] = u[nu] = 0;
    charstr_url_encoder_t *e = charstr_create_url_encoder(r, u);
    memset(r, 'x', nr);
    memset(u, 'y', nu);
    vp_unbuf(r);
    vp_unbuf(u);
    unsigned char s[8];
    unsigned n = 0;
    for (unsigned c = 0; c < 256; c++) {
        const char *g = charstr_url_custom_encode_byte(e, (uint8_t) c), *t = charstr_url_encode_byte((uint8_t) c);
        vp_assert(is_standard(t, c), "the standard encoder is not affected");
        if (any(res, nr, c)) {
            vp_assert(is_percent(g, c), "reserved characters are percent-encoded");
            vp_cover("reserved");
            s[n++] = (unsigned char) c;
        } else if (any(unres, nu, c)) {
            vp_assert(is_self(g, c), "unreserved characters are kept");
            vp_cover("unreserved");
            s[n++] = (unsigned char) c;
        } else
            vp_assert(is_standard(g, c) && !strcmp(g, t), "other characters as in the standard encoder");
    }
    s[n++] = ' ';
    s[n++] = 'A';
    s[n] = 0;
    char *x = charstr_url_custom_encode(e, (char *) s);
    concatenated(x, s, n, e);
    fsfree(x);
    charstr_destroy_url_encoder(e);
#else
#ifndef PREFIX
#define PREFIX 0
#endif
    unsigned char s[PREFIX + MAXN + 1];
    size_t n = PREFIX + vp_pick(MAXN + 1, "n");
    char *str = vp_buf(n + 1);
    for (size_t i = 0; i < n; i++) {
        s[i] = i < PREFIX ? (i * 37 & 0xff) + !(i * 37 & 0xff) : vp_u8("s");
        vp_assume(s[i] != 0);
        str[i] = (char) s[i];
    }
    str[n] = 0;
    if (n == 0) {
        unsigned char c = vp_u8("byte");
        vp_assert(is_standard(charstr_url_encode_byte(c), c), "byte encoding");
        if (c >= 0x80)
            vp_cover("non-ASCII");
    }
    char *x = charstr_url_encode(str);
    vp_assert(x != str, "fresh");
    size_t at = 0;
    for (size_t i = 0; i < n; i++) {
        const char *p = x + at;
        unsigned c = s[i];
        if (c == ' ') {
            vp_assert(p[0] == '+', "space");
            at++;
        } else if (literal(c) || (unclear(c) && p[0] != '%')) {
            vp_assert((unsigned char) p[0] == c, "kept");
            at++;
        } else {
            vp_assert(p[0] == '%' && (unsigned char) p[1] == hex(c >> 4) && (unsigned char) p[2] == hex(c & 15), "percent-encoded");
            at += 3;
            vp_cover("percent");
        }
    }
    vp_assert(x[at] == 0, "terminated, exactly as long as needed");
    for (size_t i = 0; i < n; i++)
        vp_assert((unsigned char) str[i] == s[i], "source unchanged");
    fsfree(x);
    vp_unbuf(str);
#endif
    vp_no_leaks();
}
