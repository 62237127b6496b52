/* C library functions for symbolic execution (plain definitions). */
#include <stddef.h>
#include <stdint.h>
typedef unsigned char uc;
static int vp_errno_cell;
int *__errno_location(void) { return &vp_errno_cell; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (uc) *a < (uc) *b ? -1 : (uc) *a > (uc) *b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if ((uc) *a != (uc) *b) return (uc) *a < (uc) *b ? -1 : 1; if (!*a) return 0; } return 0; }
int memcmp(const void *p, const void *q, size_t n) { const uc *a = p, *b = q; for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
char *strchrnul(const char *s, int c) { for (;; s++) if (*s == (char) c || !*s) return (char *) s; }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char) c) r = (char *) s; if (!*s) return r; } }
void *memchr(const void *s, int c, size_t n) { const uc *p = s; for (; n; n--, p++) if (*p == (uc) c) return (void *) p; return 0; }
void *memrchr(const void *s, int c, size_t n) { const uc *p = s; while (n--) if (p[n] == (uc) c) return (void *) (p + n); return 0; }
char *strstr(const char *h, const char *n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) a++, b++; if (!*b) return (char *) h; if (!*h) return 0; } }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { const uc *p = h; if (!nl) return (void *) h; for (; hl >= nl; hl--, p++) if (!memcmp(p, n, nl)) return (void *) p; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *r) { size_t n = 0; for (; s[n]; n++) { const char *p = r; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *) s : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (lc(c) >= 'a' && lc(c) <= 'f'); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int strcasecmp(const char *a, const char *b) { while (*a && lc((uc) *a) == lc((uc) *b)) a++, b++; return lc((uc) *a) - lc((uc) *b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int d = lc((uc) *a) - lc((uc) *b); if (d || !*a) return d; } return 0; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = lo + (hi - lo) / 2; const char *p = (const char *) b + m * w; int r = c(k, p); if (!r) return (void *) p; if (r < 0) hi = m; else lo = m + 1; }
    return 0;
}
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *))
{
    char *p = b;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j && c(p + (j - 1) * w, p + j * w) > 0; j--)
            for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
static unsigned short vp_ctype_tab[384];
static int vp_ctype_ready;
static const unsigned short *vp_ctype_p;
const unsigned short **__ctype_b_loc(void)
{
    if (!vp_ctype_ready) {
        vp_ctype_ready = 1;
        for (int c = 0; c < 128; c++) {
            unsigned short m = 0;
            if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11;
            if (isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (c > 32 && c < 127) m |= 1 << 15;
            if (c == ' ' || c == '\t') m |= 1 << 0; if (iscntrl(c)) m |= 1 << 1; if (c > 32 && c < 127 && !isalnum(c)) m |= 1 << 2; if (isalnum(c)) m |= 1 << 3;
            vp_ctype_tab[128 + c] = m;
        }
        vp_ctype_p = vp_ctype_tab + 128;
    }
    return &vp_ctype_p;
}
static int vp_lc_tab[384], vp_uc_tab[384];
static const int *vp_lc_p, *vp_uc_p;
const int **__ctype_tolower_loc(void) { for (int c = -128; c < 256; c++) vp_lc_tab[128 + c] = lc(c); vp_lc_p = vp_lc_tab + 128; return &vp_lc_p; }
const int **__ctype_toupper_loc(void) { for (int c = -128; c < 256; c++) vp_uc_tab[128 + c] = toupper(c); vp_uc_p = vp_uc_tab + 128; return &vp_uc_p; }
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if (r) for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; } return r; }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int isascii(int c) { return !(c & ~127); }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
long long llabs(long long x) { return x < 0 ? -x : x; }
intmax_t imaxabs(intmax_t x) { return x < 0 ? -x : x; }
typedef struct { int quot, rem; } div_t_; typedef struct { long quot, rem; } ldiv_t_;
div_t_ div(int a, int b) { div_t_ r = { a / b, a % b }; return r; }
ldiv_t_ ldiv(long a, long b) { ldiv_t_ r = { a / b, a % b }; return r; }
ldiv_t_ lldiv(long a, long b) { return ldiv(a, b); }
char *strsep(char **p, const char *d) { char *s = *p; if (!s) return 0; size_t n = strcspn(s, d); if (s[n]) { s[n] = 0; *p = s + n + 1; } else *p = 0; return s; }
char *strtok_r(char *s, const char *d, char **p)
{
    if (!s) s = *p;
    s += strspn(s, d);
    if (!*s) { *p = s; return 0; }
    char *e = s + strcspn(s, d);
    if (*e) *e++ = 0;
    *p = e;
    return s;
}
char *__strtok_r(char *s, const char *d, char **p) { return strtok_r(s, d, p); }
char *stpncpy(char *d, const char *s, size_t n) { size_t i = 0, r; for (; i < n && s[i]; i++) d[i] = s[i]; r = i; for (; i < n; i++) d[i] = 0; return d + r; }
void *mempcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((uc *) d)[i] = ((const uc *) s)[i]; return (uc *) d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { for (size_t i = 0; i < n; i++) if ((((uc *) d)[i] = ((const uc *) s)[i]) == (uc) c) return (uc *) d + i + 1; return 0; }
void *rawmemchr(const void *s, int c) { const uc *p = s; while (*p != (uc) c) p++; return (void *) p; }
char *strcasestr(const char *h, const char *n) { for (;; h++) { const char *a = h, *b = n; while (*b && lc((uc) *a) == lc((uc) *b)) a++, b++; if (!*b) return (char *) h; if (!*h) return 0; } }
void bzero(void *s, size_t n) { for (size_t i = 0; i < n; i++) ((uc *) s)[i] = 0; }
static int vp_ffs(unsigned long x) { int n = 1; if (!x) return 0; for (; !(x & 1); x >>= 1) n++; return n; }
int ffs(int x) { return vp_ffs((unsigned) x); }
int ffsl(long x) { return vp_ffs((unsigned long) x); }
int ffsll(long long x) { return vp_ffs((unsigned long) x); }
unsigned long strtoul(const char *s, char **end, int base)
{
    const char *p = s;
    int neg = 0, any = 0, over = 0;
    unsigned long v = 0;
    while (isspace((uc) *p)) p++;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && *p == '0' && lc((uc) p[1]) == 'x' && isxdigit((uc) p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; p++) {
        int d = isdigit((uc) *p) ? *p - '0' : isalpha((uc) *p) ? lc((uc) *p) - 'a' + 10 : 99;
        if (d >= base) break;
        any = 1;
        if (__builtin_mul_overflow(v, (unsigned long) base, &v) || __builtin_add_overflow(v, (unsigned long) d, &v)) over = 1;
    }
    if (end) *end = (char *) (any ? p : s);
    if (over) { vp_errno_cell = 34; return ~0UL; }
    return neg ? -v : v;
}
long strtol(const char *s, char **end, int base)
{
    const char *p = s;
    while (isspace((uc) *p)) p++;
    int neg = *p == '-', e = vp_errno_cell;
    vp_errno_cell = 0;
    unsigned long v = strtoul(s, end, base), m = neg ? -v : v;
    if (vp_errno_cell == 34 || m > 0x7fffffffffffffffUL + (unsigned long) neg) { vp_errno_cell = 34; return neg ? -0x7fffffffffffffffL - 1 : 0x7fffffffffffffffL; }
    vp_errno_cell = e;
    return (long) v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int) strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
