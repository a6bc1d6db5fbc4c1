// cal.hpp - proleptic Gregorian calendar arithmetic, independent of libc and of the library under test.
#pragma once
#include "mc.hpp"
namespace mc {
inline bool leap(long y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
inline int mdays(long y, int m) { static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : t[m - 1]; }
inline long days_from_civil(long y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; long yoe = y - era * 400; long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
inline void civil_from_days(long z, long &y, int &m, int &d) { z += 719468; long era = (z >= 0 ? z : z - 146096) / 146097; long doe = z - era * 146097; long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; long doy = doe - (365 * yoe + yoe / 4 - yoe / 100); long mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2; }
inline int yday1(long y, int m, int d) { return (int)(days_from_civil(y, m, d) - days_from_civil(y, 1, 1)) + 1; }
inline int wday1(long days) { return (int)(((days % 7) + 7 + 3) % 7) + 1; }   // Monday = 1 ... Sunday = 7; 1970-01-01 is a Thursday
inline VitaDateTime mkdt(long y, int mo, int d, int h = 0, int mi = 0, int s = 0) { VitaDateTime v; memset(&v, 0, sizeof v); v.year = (int16_t)y; v.month = (int16_t)mo; v.month_day = (int16_t)d; v.hour = (int16_t)h; v.minute = (int16_t)mi; v.second = (int16_t)s; v.week_day = (int16_t)wday1(days_from_civil(y, mo, d)); v.year_day = (int16_t)yday1(y, mo, d); return v; }
inline std::string show_dt(const VitaDateTime &v) { char b[120]; snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d (weekday %d, day %d of the year)", v.year, v.month, v.month_day, v.hour, v.minute, v.second, v.week_day, v.year_day); return b; }
inline void zone(const char *tz) { setenv("TZ", tz, 1); tzset(); }
// UTC offset (seconds east) of a local wall-clock time for the zones used; -1000000 when it does not exist, is ambiguous or is not asserted
struct ZoneRule { const char *tz; long off; long dst; int sm, sw, sh; int em, ew, eh; }; // dst offset, start month/week(5=last)/hour, end
inline long nth_sunday(long y, int m, int w) { long f = days_from_civil(y, m, 1); int wd = wday1(f); long s = f + (7 - wd) % 7; if (w < 5) return s + 7 * (w - 1); while (s + 7 < f + mdays(y, m)) s += 7; return s; }
inline long local_offset(const ZoneRule &z, long days, long secs) {
    if (!z.dst) return z.off; long y; int m, d; civil_from_days(days, y, m, d); if (y < 1971) return -1000000; /* libc does not apply POSIX daylight rules consistently before 1970 */ long t = days * 86400 + secs;
    long st = nth_sunday(y, z.sm, z.sw) * 86400 + z.sh * 3600L, en = nth_sunday(y, z.em, z.ew) * 86400 + z.eh * 3600L, dd = z.dst - z.off; // st in standard wall time, en in daylight wall time
    if (t >= st && t < st + dd) return -1000000; if (t >= en - dd && t < en) return -1000000;
    bool summer = st < en ? (t >= st + dd && t < en - dd) : !(t >= en && t < st); return summer ? z.dst : z.off;
}
// POSIX zone descriptions (no tz database needed); sign of the offset is inverted in POSIX strings
static const ZoneRule ZONES[] = {
    {"UTC0", 0, 0, 0, 0, 0, 0, 0, 0},
    {"EST5EDT,M3.2.0,M11.1.0", -5 * 3600, -4 * 3600, 3, 2, 2, 11, 1, 2},
    {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, 3, 5, 2, 10, 5, 3},
    {"AEST-10AEDT,M10.1.0,M4.1.0/3", 10 * 3600, 11 * 3600, 10, 1, 2, 4, 1, 3},
    {"IST-5:30", 19800, 0, 0, 0, 0, 0, 0, 0},
    {"<-12>12", -12 * 3600, 0, 0, 0, 0, 0, 0, 0},
    {"<+14>-14", 14 * 3600, 0, 0, 0, 0, 0, 0, 0},
    {"NPT-5:45", 20700, 0, 0, 0, 0, 0, 0, 0},
    {"MSK-3", 10800, 0, 0, 0, 0, 0, 0, 0},
    {"<-0930>9:30", -34200, 0, 0, 0, 0, 0, 0, 0},
    {"BRT3BRST,M10.3.0/0,M2.3.0/0", -3 * 3600, -2 * 3600, 10, 3, 0, 2, 3, 0},   // changes at midnight
    {"CST5CDT,M3.2.0/0,M11.1.0/1", -5 * 3600, -4 * 3600, 3, 2, 0, 11, 1, 1},
};
} // namespace mc
