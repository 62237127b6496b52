/* C17: ASCII classification and case mapping. */
#include <string.h>
#include "vp.h"
#include "charstr.h"

static bool in(unsigned c, unsigned lo, unsigned hi) { return (c >= lo) & (c <= hi); }
static unsigned char low(unsigned char c) { return in(c, 'A', 'Z') ? c + 32 : c; }
static unsigned char up(unsigned char c) { return in(c, 'a', 'z') ? c - 32 : c; }

static void one_char(void)
{
    unsigned char c = vp_u8("c");
    unsigned d = in(c, '0', '9'), l = in(c, 'a', 'z'), u = in(c, 'A', 'Z');
    uint64_t want = 0;
    want |= (uint64_t) (in(c, 0, 037) | (c == 0177)) * CHARSTR_CONTROL;
    want |= (uint64_t) d * CHARSTR_DIGIT | (uint64_t) l * CHARSTR_LOWER | (uint64_t) u * CHARSTR_UPPER;
    want |= (uint64_t) (c == 9) * CHARSTR_HT | (uint64_t) (c == 10) * CHARSTR_LF | (uint64_t) (c == 12) * CHARSTR_FF;
    want |= (uint64_t) (c == 13) * CHARSTR_CR | (uint64_t) (c == 32) * CHARSTR_SPACE | (uint64_t) in(c, '0', '7') * CHARSTR_OCTAL;
    want |= (uint64_t) (d | in(c, 'a', 'f') | in(c, 'A', 'F')) * CHARSTR_HEX;
    want |= (uint64_t) (c == '_') * CHARSTR_UNDER | (uint64_t) in(c, 32, 126) * CHARSTR_PRINT;
    vp_assert(charstr_char_class((char) c) == want, "character class");
    vp_assert(charstr_lcase_char((char) c) == (char) low(c), "lower case");
    vp_assert(charstr_ucase_char((char) c) == (char) up(c), "upper case");
    if (want & CHARSTR_HEX) {
        unsigned v = d ? c - '0' : (c | 32) - 'a' + 10;
        vp_assert(charstr_digit_value((char) c) == v, "digit value");
        vp_cover("hex digit");
    }
    if (c >= 0x80)
        vp_cover("non-ASCII");
}

/* A string of len characters, of which those at NSYM positions around
 * `at' are symbolic and the rest follow a fixed pattern. */
static void strings(size_t len, size_t at, unsigned nsym)
{
    static const char pat[] = "aZ.\x80zA\xff@[`{";
    unsigned what = vp_pick(4, "function");
    unsigned char *s = vp_buf(len + 1), *orig = vp_buf(len + 1);
    for (size_t i = 0; i < len; i++) {
        s[i] = i >= at && i < at + nsym ? vp_u8("s") : (unsigned char) pat[i % 11];
        vp_assume(s[i] != 0 || (what & 1));
        orig[i] = s[i];
    }
    bool term = true;
    size_t end = len;
    char *r;
    s[len] = orig[len] = 0;
    if (what & 1) {                              /* substring: need not be terminated */
        end = vp_pick(nsym + 1, "end") + at;
        if (end > len)
            end = len;
        if (vp_pick(2, "unterminated"))
            s[len] = orig[len] = 'Q';
        term = false;
    }
    switch (what) {
        case 0: r = charstr_lcase_str((char *) s); break;
        case 1: r = charstr_lcase_substr((char *) s, (char *) s + end); break;
        case 2: r = charstr_ucase_str((char *) s); break;
        default: r = charstr_ucase_substr((char *) s, (char *) s + end);
    }
    vp_assert(r == (char *) s, "the string is returned");
    for (size_t i = 0; i <= len; i++) {
        unsigned char w = i >= end ? orig[i] : what < 2 ? low(orig[i]) : up(orig[i]);
        vp_assert(s[i] == w, "exactly the characters of the string are converted");
    }
    if (term)
        vp_cover("whole string");
    else if (end < len)
        vp_cover("substring");
    vp_unbuf(s);
    vp_unbuf(orig);
}

void vp_main(void)
{
    static const unsigned lens[] = { 5, 8, 15, 16, 17, 33, 70000, 64, 70 };
    switch (vp_pick(3, "part")) {
        case 0: one_char(); break;
        case 1: strings(vp_pick(MAXN + 1, "len"), 0, MAXN); break;
        default: {
            size_t len = lens[vp_pick(NLENS, "long")];
            size_t at = vp_pick(3, "at");
            strings(len, at == 0 ? 0 : at == 1 ? len / 2 : len - 2, 2);
        }
    }
}
