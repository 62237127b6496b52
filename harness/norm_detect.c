/* C32: normal-form detection. */
#include <errno.h>
#include <string.h>
#include "norm_ref.h"
#include "charstr.h"
#include "pick_char.h"

void vp_main(void)
{
    int src[LEN], want[NORM_MAX];
    unsigned char tmp[4 * LEN];
    size_t len = 0;
    for (unsigned i = 0; i < LEN; i++) {
        src[i] = i ? PICK_NEXT() : PICK_WIDE();
        len += ref_put(src[i], tmp + len);
    }
    unsigned term = vp_pick(2, "terminated");
    char *s = vp_buf(len + term), *end = term ? NULL : s + len;
    memcpy(s, tmp, len);
    if (term)
        s[len] = 0;
    bool c = charstr_unicode_canonically_composed(s, end), d = charstr_unicode_canonically_decomposed(s, end);
    /* the quick check of UAX #15 for each form */
    for (unsigned f = 0; f < 4; f++) {
        int no = 1 << 2 * f, maybe = 2 << 2 * f, last = 0;
        int anyno = 0, anymaybe = 0;
        for (unsigned i = 0; i < LEN; i++) {
            int ccc = ref_ccc[src[i]], qc = ref_qc[src[i]];
            anyno |= ((last > ccc) & (ccc != 0)) | ((qc & no) != 0);
            anymaybe |= (qc & maybe) != 0;
            last = ccc;
        }
        int r = charstr_detect_unicode_normal_form(s, end, no, maybe);
        int w = anyno ? no : anymaybe ? maybe : 0;
        vp_assert(r == w, "quick check");
        if (f == 0)
            vp_assert(c == (w == 0), "composed iff the quick check says so");
        if (f == 1)
            vp_assert(d == (w == 0), "decomposed iff the quick check says so");
    }
    /* independently of the quick-check data: no wrong positive */
    unsigned m = ref_nfd(src, LEN, want);
    int same = m == LEN;
    for (unsigned i = 0; i < LEN && i < m; i++)
        same &= want[i] == src[i];
    vp_assert(!d | same, "decomposed means equal to its NFD");
    if (d)
        vp_cover("decomposed");
    m = ref_nfc(want, m);
    same = m == LEN;
    for (unsigned i = 0; i < LEN && i < m; i++)
        same &= want[i] == src[i];
    vp_assert(!c | same, "composed means equal to its NFC");
    if (c)
        vp_cover("composed");
    else
        vp_cover("not composed");
    vp_unbuf(s);
}
