/* C28: the allocation front end. */
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "fsalloc.h"

static unsigned calls;
static void *last_ptr, *answer;
static size_t last_size;
static void *recorder(void *ptr, size_t size)
{
    calls++;
    last_ptr = ptr;
    last_size = size;
    return answer;
}
static unsigned calls2;
static void *second(void *ptr, size_t size) { calls2++; return NULL; }
static unsigned counted, counted2;
static int total;
static void counter(int count) { counted++; total = count; }
static void counter2(int count) { counted2++; }

void vp_main(void)
{
    fs_realloc_t dflt = fs_get_reallocator();
    vp_assert(dflt != NULL, "there is a default reallocator");
    switch (vp_pick(6, "part")) {
        case 0: {                       /* delegation with arbitrary arguments */
            uint64_t size = vp_u64("size");
            void *p = vp_ptr("ptr");
            answer = vp_ptr("answer");
            fs_set_reallocator(recorder);
            vp_assert(fs_get_reallocator() == recorder, "the getter returns what was set");
            void *r = fsalloc(size);
            vp_assert(r == answer && calls == 1 && last_ptr == NULL && last_size == size, "allocation is delegated");
            r = fsrealloc(p, size);
            vp_assert(r == answer && calls == 2 && last_ptr == p && last_size == size, "reallocation is delegated");
            fsfree(p);
            if (p)
                vp_assert(calls == 3 && last_ptr == p && last_size == 0, "freeing requests size zero");
            else
                vp_assert(calls == 2, "freeing NULL is a no-op");
            unsigned before = calls;
            fs_set_reallocator(second);
            vp_assert(fs_get_reallocator() == second, "the getter returns what was set");
            vp_assert(fsalloc(8) == NULL && calls2 == 1 && calls == before, "the current reallocator is used");
            vp_cover("delegated");
            break;
        }
        case 1: {                       /* zeroed allocation: any product */
            static const uint64_t factor[] = { 0, 1, 2, 3, 8, 24, 255, 0x10000, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff };
            uint64_t k = factor[vp_pick(14, "factor")], x = vp_u64("other");
            bool swap = vp_pick(2, "swap");
            bool over = k && x > ~(uint64_t) 0 / k;
            answer = NULL;
            fs_set_reallocator(recorder);
            void *r = swap ? fscalloc(x, k) : fscalloc(k, x);
            vp_assert(r == NULL, "a refusal is passed on");
            vp_assert(calls <= 1, "one request");
            if (over) {
                /* too large: must not ask for a block that can be granted */
                vp_assert(calls == 0 || last_size == (size_t) -1, "never a too small block");
                vp_cover("overflow");
            } else {
                vp_assert(calls == 1 && last_ptr == NULL, "allocation is delegated");
                vp_assert(last_size == x * k, "exactly the product");
                vp_cover("no overflow");
            }
            break;
        }
        case 2: {                       /* zeroed memory */
            unsigned a = vp_pick(MAXN, "nmemb"), b = vp_pick(MAXN, "size");
            bool own = vp_pick(2, "own");
            size_t n = (size_t) a * b;
            uint8_t *dirty = NULL;
            if (own) {
                dirty = vp_buf(n);
                for (size_t i = 0; i < n; i++)
                    dirty[i] = vp_u8("dirt");
                answer = dirty;
                fs_set_reallocator(recorder);
            } else
                vp_alloc_install();
            uint8_t *p = fscalloc(a, b);
            vp_assert(p != NULL, "granted");
            vp_assert(!own || p == dirty, "the block granted");
            for (size_t i = 0; i < n; i++)
                vp_assert(p[i] == 0, "zeroed");
            if (n > 1)
                vp_cover("zeroed");
            if (own)
                vp_unbuf(dirty);
            else
                fsfree(p);
            vp_no_leaks();
            break;
        }
        case 3: {                       /* the default reallocator: contents, freeing */
            unsigned a = 1 + vp_pick(MAXN, "before"), b = 1 + vp_pick(MAXN, "after");
            uint8_t *p = fsalloc(a), copy[MAXN + 1];
            vp_assert(p != NULL, "granted");
            for (unsigned i = 0; i < a; i++)
                p[i] = copy[i] = vp_u8("data");
            uint8_t *q = fsrealloc(p, b);
            vp_assert(q != NULL, "granted");
            for (unsigned i = 0; i < a && i < b; i++)
                vp_assert(q[i] == copy[i], "reallocation preserves contents");
            q[b - 1] = 1;
            if (vp_pick(2, "by_realloc"))
                vp_assert(fsrealloc(q, 0) == NULL, "size zero frees");
            else
                fsfree(q);
            fsfree(NULL);
            uint8_t *z = fscalloc(a, b);
            vp_assert(z != NULL, "granted");
            for (unsigned i = 0; i < a * b; i++)
                vp_assert(z[i] == 0, "zeroed");
            z = fsrealloc(z, 2);
            fsfree(z);
            vp_cover("default");
            break;
        }
        case 4: {                       /* the counter */
            int k = vp_i32("count");
            fs_reallocator_counter_t c0 = fs_get_reallocator_counter();
            vp_assert(c0 != NULL, "there is a default counter");
            fs_reallocator_skew(k);
            fs_set_reallocator_counter(counter);
            vp_assert(fs_get_reallocator_counter() == counter, "the getter returns what was set");
            fs_reallocator_skew(k);
            vp_assert(counted == 1 && total == k, "the report reaches the counter");
            void *p = fsalloc(3);
            fsfree(p);
            vp_assert(counted == 1, "allocation does not report");
            fs_set_reallocator_counter(counter2);
            fs_reallocator_skew(k);
            vp_assert(counted == 1 && counted2 == 1, "exactly the configured counter");
            vp_assert(fs_get_reallocator() == dflt, "the reallocator is not affected");
            vp_cover("counter");
            break;
        }
        default: {                      /* switching back and forth */
            answer = NULL;
            fs_set_reallocator(recorder);
            fs_set_reallocator(dflt);
            void *p = fsalloc(5);
            memset(p, 1, 5);
            fsfree(p);
            vp_assert(calls == 0 && fs_get_reallocator() == dflt, "the default can be restored");
        }
    }
}
