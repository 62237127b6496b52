/* Support code linked into every harness (symbolic and native). */
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "fsalloc.h"

#ifndef VP_NO_VERSION_TAG
const char *fsdyn_version_tag = "vp";
#endif

long vp_alloc_live, vp_alloc_calls;

static void *vp_reallocator(void *ptr, size_t size)
{
    vp_alloc_calls++;
    if (size == 0 && ptr) {
        free(ptr);
        vp_alloc_live--;
        return NULL;
    }
    void *p = ptr ? realloc(ptr, size) : malloc(size);
    if (!p)
        vp_assert(0, "allocation of an absurd size requested");
    if (!ptr)
        vp_alloc_live++;
    return p;
}

void vp_alloc_install(void)
{
    fs_set_reallocator(vp_reallocator);
}

void *vp_buf(size_t n)
{
    return malloc(n);
}

void vp_unbuf(void *p)
{
    free(p);
}

/* what library code gets when it names the C allocator itself (with C28's runs) */
static void vp_bypass(void)
{
    vp_assert(fs_get_reallocator() != vp_reallocator, "no memory is obtained or freed behind the configured reallocator");
}
void *vp_raw_malloc(size_t n) { vp_bypass(); return malloc(n); }
void *vp_raw_calloc(size_t n, size_t m) { vp_bypass(); return calloc(n, m); }
void *vp_raw_realloc(void *p, size_t n) { vp_bypass(); return realloc(p, n); }
void vp_raw_free(void *p) { vp_bypass(); free(p); }
char *vp_raw_strdup(const char *s)
{
    vp_bypass();
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    memcpy(p, s, n);
    return p;
}
char *vp_raw_strndup(const char *s, size_t n)
{
    vp_bypass();
    n = strnlen(s, n);
    char *p = malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
