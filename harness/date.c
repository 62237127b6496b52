/* C25: epoch_to_utc() against the Gregorian calendar. */
#include <time.h>
#include "vp.h"
#include "date.h"

static bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long floordiv(long a, long b) { return a / b - (a % b < 0); }
/* days from 1970-01-01 to the first of January of year y */
static long year_start(long y)
{
    long p = y - 1;
    return 365 * (y - 1970) + (floordiv(p, 4) - floordiv(p, 100) + floordiv(p, 400)) - 477;
}
static const int MONTH[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };

void vp_main(void)
{
    /* first day of each window of DAYS days */
    static const long base[] = {
        -719528,                        /* 0000-01-01 */
        -135080 - 2 * 146097L,          /* 0800-03-01 */
        -135080,                        /* 1600-03-01 */
        -135080 + 146097L,              /* 2000-03-01 */
        -146097L * 7000,                /* far past and future */
        146097L * 7000,
        -135080 + 146097L * 20,
        -146097L * 14000,
        146097L * 14000,
        -27393,                         /* 1895-01-01 */
    };
    long d = (long) (int32_t) vp_u32("day"), sod = (long) (int32_t) vp_u32("second");
    vp_assume(sod >= 0 && sod < 86400);
    long lo = base[WINDOW >= 0 ? WINDOW : 0], hi = lo + DAYS - 1;
    vp_assume(d >= lo && d <= hi);
    struct tm tm;
    time_t epoch = d * 86400 + sod;
    vp_assert(epoch_to_utc(epoch, &tm) == &tm, "the structure is returned");
    vp_assert(tm.tm_hour >= 0 && tm.tm_hour <= 23, "hour in range");
    vp_assert(tm.tm_min >= 0 && tm.tm_min <= 59, "minute in range");
    vp_assert(tm.tm_sec >= 0 && tm.tm_sec <= 59, "second in range");
    vp_assert(tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec == (int) sod, "time of day");
    vp_assert(tm.tm_isdst == 0, "DST off");
    /* 1970-01-01 was a Thursday; 4 + 7 * 2^31 is beyond any window */
    vp_assert(tm.tm_wday == (int) vp_urem((uint64_t) (d + 4 + 7 * 0x80000000L), 7), "weekday");
    long y = (long) (int32_t) vp_concrete((uint32_t) tm.tm_year) + 1900;
    int m = (int) vp_concrete((uint32_t) tm.tm_mon);
    vp_assert(m >= 0 && m <= 11, "month in range");
    int len = MONTH[m] + (m == 1 && leap(y));
    long first = year_start(y);
    for (int i = 0; i < m; i++)
        first += MONTH[i] + (i == 1 && leap(y));
    vp_assert(tm.tm_mday >= 1 && tm.tm_mday <= len, "day of month in range");
    vp_assert(d == first + tm.tm_mday - 1, "date");
    if (m == 1 && len == 29)
        vp_cover("leap year");
    if (m == 11)
        vp_cover("December");
}
