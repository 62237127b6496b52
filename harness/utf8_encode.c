/* C21: encoding one codepoint. */
#include "utf8_ref.h"
#include "charstr.h"

void vp_main(void)
{
    int cp = vp_i32("cp");
    vp_assume(ref_scalar(cp));
    unsigned char want[4];
    unsigned len = ref_put(cp, want);
    size_t room = vp_pick(7, "room");
    bool bounded = vp_pick(2, "bounded");
    if (!bounded && room < len)
        vp_assume(0);
    char *d = vp_buf(room), *end = bounded ? d + room : NULL;
    char *r = charstr_encode_utf8_codepoint(cp, d, end);
    if (room < len) {
        vp_assert(r == NULL, "NULL if it does not fit");
        vp_cover("does not fit");
    } else {
        vp_assert(r == d + len, "the position after it");
        for (unsigned i = 0; i < len; i++)
            vp_assert((unsigned char) d[i] == want[i], "its UTF-8 form");
        int back = -1;
        vp_assert(charstr_decode_utf8_codepoint(d, d + room, &back) == r && back == cp, "decodes back");
        if (len == 4)
            vp_cover("four bytes");
        if (room == len && bounded)
            vp_cover("fits exactly");
    }
    vp_assert(charstr_encode_utf8_codepoint(cp, NULL, NULL) == NULL, "NULL gives NULL");
    vp_unbuf(d);
}
