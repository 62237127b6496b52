/* C33: IDNA status and mapping of every codepoint against the data file. */
#include <string.h>
#include "vp.h"
#include "charstr.h"

extern const uint8_t ref_status[];
extern const int32_t ref_map[];                 /* offset into ref_mapbytes, 0: none */
extern const unsigned char ref_mapbytes[];
static const char *const names[] = { "valid", "mapped", "ignored", "deviation", "disallowed", "disallowed_STD3_valid", "disallowed_STD3_mapped" };

void vp_main(void)
{
    unsigned hi = vp_u16("block");
    vp_assume(hi < 0x110000 / BLOCK);
    hi = vp_halve(hi, 0, 0x110000 / BLOCK - 1);
    int cp = (int) (hi * BLOCK + (vp_u16("offset") & (BLOCK - 1)));
    if (vp_pick(2, "part") == 0) {
        unsigned st = ref_status[cp];
        vp_assert(charstr_idna_status_is_valid(cp) == (st == 0), "valid");
        vp_assert(charstr_idna_status_is_mapped(cp) == (st == 1), "mapped");
        vp_assert(charstr_idna_status_is_ignored(cp) == (st == 2), "ignored");
        vp_assert(charstr_idna_status_is_deviation(cp) == (st == 3), "deviation");
        vp_assert(charstr_idna_status_is_disallowed(cp) == (st == 4), "disallowed");
        vp_assert(charstr_idna_status_is_disallowed_STD3_valid(cp) == (st == 5), "disallowed_STD3_valid");
        vp_assert(charstr_idna_status_is_disallowed_STD3_mapped(cp) == (st == 6), "disallowed_STD3_mapped");
        const char *s = charstr_idna_status(cp);
        st = (unsigned) vp_concrete(st);
        vp_assert(s && strcmp(s, names[st]) == 0, "status name");
        if (st == 3)
            vp_cover("deviation");
        if (st == 6)
            vp_cover("disallowed_STD3_mapped");
    } else {
        const char *m = charstr_idna_mapping(cp);
        int32_t ref = (int32_t) vp_concrete((uint64_t) ref_map[cp]);
        if (ref && !ref_mapbytes[ref])           /* deviation characters mapped to nothing */
            vp_assert(!m || !*m, "empty mapping");
        else if (ref) {
            vp_assert(m && strcmp(m, (const char *) ref_mapbytes + ref) == 0, "mapping");
            vp_cover("mapping");
        } else
            vp_assert(!m, "no mapping");
    }
}
