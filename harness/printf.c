/* C35: formatted allocation, with the C formatter replaced by an arbitrary one. */
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#undef vsnprintf
#undef vsprintf
#undef vasprintf
#include "vp.h"
#include "charstr.h"
#include "fsalloc.h"

/* The formatter writes what its arguments say: a tag, the text, its length
 * (or a negative number for an error) and a second tag. */
static const char *FMT = "arbitrary %s";
static int formatted;

static int format(char *buf, size_t size, const char *fmt, va_list ap)
{
    vp_assert(fmt == FMT, "the caller's format");
    int tag = va_arg(ap, int);
    const char *text = va_arg(ap, const char *);
    long len = va_arg(ap, long);
    vp_assert(tag == 0x1234, "the caller's arguments");
    for (int i = 0; i < 6; i++)
        vp_assert(va_arg(ap, int) == 100 + i, "all of the caller's arguments");
    formatted++;
    if (len < 0) {
        errno = ENOMEM;
        return (int) len;
    }
    for (long i = 0; i <= len; i++)
        if (i + 1 < size)
            buf[i] = i < len ? text[i] : 0;
        else if (i + 1 == size)
            buf[i] = 0;
    return (int) len;
}

int vp_vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
    return format(buf, size, fmt, ap);
}

int vp_vsprintf(char *buf, const char *fmt, va_list ap)
{
    return format(buf, (size_t) 1 << 40, fmt, ap);
}

void vp_main(void)
{
    vp_alloc_install();
    bool fails = vp_pick(2, "fails");
    unsigned n = vp_pick(MAXN + 1, "length");
    long len = (long) n;
    char *text = vp_buf(MAXN ? MAXN : 1);
    for (unsigned i = 0; i < n; i++) {
        text[i] = (char) vp_u8("char");
        vp_assume(text[i]);
    }
    if (BIG && !fails && n == MAXN) {                       /* some long output as well */
        static const int big[] = { 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70000 };
        len = big[vp_pick(sizeof big / sizeof *big, "big")];
        char *t = vp_buf(len);
        memset(t, 'x', len);
        memcpy(t, text, n);
        for (unsigned i = 0; i < n; i++)
            t[len - 1 - i] = text[i];
        vp_unbuf(text);
        text = t;
        vp_cover("long");
    }
    if (fails) {
        len = (long) (int) vp_u32("error");
        vp_assume(len < 0);
    }
    errno = 0;
    char *r;
    /* more arguments than fit registers */
    r = charstr_printf(FMT, 0x1234, text, len, 100, 101, 102, 103, 104, 105);
    if (fails) {
        vp_assert(!r && errno == EILSEQ, "failure is reported");
        vp_cover("failed");
    } else {
        vp_assert(r, "succeeds");
        vp_assert(strlen(r) == len, "length");
        for (long i = 0; i < len; i++)
            vp_assert(r[i] == text[i], "the formatter's output");
        fsfree(r);
        vp_cover("formatted");
        if (len == 0)
            vp_cover("empty");
    }
    vp_assert(formatted, "the formatter is used");
    vp_unbuf(text);
    vp_no_leaks();
}
