/* C27: interned integers and hashes. */
#include <string.h>
#include "vp.h"
#include "integer.h"
#include "hashtable.h"

static int sgn(int x) { return x < 0 ? -1 : x > 0; }

void vp_main(void)
{
    switch (vp_pick(4, "part")) {
        case 0: {
            uint64_t a = vp_u64("a"), b = vp_u64("b");
            intptr_t x = (intptr_t) a, y = (intptr_t) b;
            vp_assert(as_intptr(as_integer(x)) == x, "signed identity");
            vp_assert(as_uintptr(as_unsigned(a)) == a, "unsigned identity");
            vp_assert(sgn(integer_cmp(as_integer(x), as_integer(y))) == (x < y ? -1 : x > y), "signed order");
            vp_assert(sgn(unsigned_cmp(as_unsigned(a), as_unsigned(b))) == (a < b ? -1 : a > b), "unsigned order");
            vp_assert((as_integer(x) == as_integer(y)) == (x == y), "interning is one to one");
            if (x < 0 && y > 0)
                vp_cover("signs differ");
            break;
        }
        case 1: {
            /* equal strings and blobs at different places, in different surroundings */
            size_t n = vp_pick(MAXN + 1, "n"), off = vp_pick(4, "offset");
            char *s = vp_buf(n + 1), *raw = vp_buf(off + n + 1), *t = raw + off;
            memset(raw, 'x', off);
            bool blob = vp_pick(2, "blob");
            for (size_t i = 0; i < n; i++) {
                s[i] = t[i] = (char) vp_u8("s");
                vp_assume(blob || s[i] != 0);
            }
            s[n] = 0;
            t[n] = blob ? 'z' : 0;
            uint64_t h1, h2, h3;
            if (blob) {
                char *u = vp_buf(n);
                memcpy(u, t, n);
                h1 = hash_blob(s, n);
                h2 = hash_blob(t, n);
                h3 = hash_blob(u, n);
                vp_unbuf(u);
                vp_cover("blobs");
            } else {
                h1 = hash_string(s);
                h2 = hash_string(t);
                h3 = hash_string(s);
                vp_cover("strings");
            }
            vp_assert(h1 == h2 && h1 == h3, "equal content, equal hash");
            vp_unbuf(s);
            vp_unbuf(raw);
            break;
        }
        case 2: {
            static const size_t lens[] = { 15, 16, 17, 31, 32, 33, 40, 64, 100 };
            size_t n = lens[vp_pick(NLENS, "long")];
            char *s = vp_buf(n + 1), *raw = vp_buf(n + 4), *t = raw + 3;
            for (size_t i = 0; i < n; i++) {
                s[i] = t[i] = i == 0 || i == n / 2 || i == n - 1 ? (char) vp_u8("s") : (char) ('a' + i % 26);
                vp_assume(s[i] != 0);
            }
            s[n] = t[n] = 0;
            vp_assert(hash_string(s) == hash_string(t), "equal strings, equal hash");
            vp_assert(hash_blob(s, n) == hash_blob(t, n), "equal blobs, equal hash");
            vp_cover("long");
            vp_unbuf(s);
            vp_unbuf(raw);
            break;
        }
        default: {
            uint64_t a = vp_u64("a");
            const integer_t *p = as_integer((intptr_t) a), *q = as_integer((intptr_t) a);
            uint64_t h = hash_integer(p);
            uint64_t other = hash_integer(as_integer((intptr_t) vp_u64("b")));
            vp_assert(hash_integer(q) == h, "equal integers, equal hash");
            uint64_t hu = hash_unsigned(as_unsigned(a));
            vp_assert(hash_unsigned(as_unsigned(a)) == hu, "equal unsigned integers, equal hash");
            (void) other;
            vp_cover("integers");
        }
    }
}
