/* C29: character data of every codepoint against the data files. */
#include "vp.h"
#include "charstr.h"

extern const uint8_t ref_cat[], ref_ccc[], ref_qc[];
extern const int32_t ref_lower[], ref_upper[];

void vp_main(void)
{
    /* every codepoint: a block of 4096, then any offset in it */
    unsigned hi = vp_u16("block");
    vp_assume(hi < 0x110);
    hi = vp_halve(hi, 0, 0x110000 / 4096 - 1);
    int cp = (int) (hi * 4096 + (vp_u16("offset") & 4095));
    unsigned cat = ref_cat[cp];
    vp_assert(charstr_unicode_category(cp) == cat, "general category");
    vp_assert(charstr_unicode_canonical_combining_class(cp) == ref_ccc[cp], "combining class");
    vp_assert(charstr_allowed_unicode_normal_forms(cp) == ref_qc[cp], "quick-check flags");
    int lo = charstr_naive_lcase_unicode(cp), up = charstr_naive_ucase_unicode(cp);
    int rl = ref_lower[cp], ru = ref_upper[cp];
    /* the header promises an approximation: letters are mapped, other
     * characters that have a mapping may be */
    vp_assert((lo == rl) & (rl != 0) | (lo == cp) & ((rl == 0) | (cat != UNICODE_CATEGORY_Lu)), "lower case");
    vp_assert((up == ru) & (ru != 0) | (up == cp) & ((ru == 0) | (cat != UNICODE_CATEGORY_Ll)), "upper case");
    if (hi == 0)
        vp_cover("ASCII block");
    if (hi == 0x10f)
        vp_cover("last block");
}
