/* Symbolic codepoints from the ranges WIDE (first character) and NEXT. */
/* An alphabet is a list of ranges; a character is any codepoint of them. */
typedef struct { int lo, hi; } range_t;
static const range_t wide[] = { WIDE };
#ifdef NEXT
static const range_t next[] = { NEXT };
#endif

static int pick_char(const range_t *r, unsigned n)
{
    static const int limit[] = { 0x7f, 0x7ff, 0xffff, 0x10ffff };
    static const unsigned bits[] = { 7, 11, 16, 21 };
    unsigned k = vp_pick(n, "range"), l;
    int lo = r[k].lo, hi = r[k].hi;
    for (l = 0; hi > limit[l]; l++)              /* a width per UTF-8 length */
        if (lo <= limit[l]) {
            if (vp_pick(2, "short"))
                hi = limit[l];
            else
                lo = limit[l] + 1;
        }
    int cp = (int) vp_sym(bits[l], "char");
    vp_assume((cp >= lo) & (cp <= hi));
    /* cut into blocks so that the tables stay small */
    while (hi - lo > BLOCK) {
        int mid = lo + (hi - lo) / 2;
        if (vp_concrete(cp <= mid))
            hi = mid;
        else
            lo = mid + 1;
    }
    vp_assume((cp != 0) & ((cp < 0xd800) | (cp > 0xdfff)));
    return cp;
}

#define PICK_WIDE() pick_char(wide, sizeof wide / sizeof *wide)
#ifdef NEXT
#define PICK_NEXT() pick_char(next, sizeof next / sizeof *next)
#else
#define PICK_NEXT() PICK_WIDE()
#endif
