// C15: calendar facts against independent Gregorian arithmetic.
#include "cal.hpp"
using namespace mc;
namespace {
typedef std::string str_t; VitaDateTime CUR; str_t ZN, OP; str_t desc() { return OP + " of " + show_dt(CUR) + " in zone " + ZN; }
void facts(long y, int m, int d, long days, int yd, const int (*times)[3], size_t nt) {
    int wd = wday1(days);
    for (size_t i = 0; i < nt; i++) {
        CUR = mkdt(y, m, d, times[i][0], times[i][1], times[i][2]); CUR.week_day = 0; CUR.year_day = 0; OP = "calendar facts"; step();
        int16_t w = vt_datetime_find_week_day(CUR); CHECK(w == wd, "day of the week %d, expected %d", w, wd); int16_t q = vt_datetime_find_year_day(CUR); CHECK(q == yd, "day of the year %d, expected %d", q, yd); count(C_EVALS, 2); count(C_TRANS, 2);
    }
    if (d == 1 || d == mdays(y, m)) { int16_t dm = vt_datetime_find_days_in_month(CUR); CHECK(dm == mdays(y, m), "days in month %d, expected %d", dm, mdays(y, m)); int16_t dy = vt_datetime_find_days_in_year(CUR); CHECK(dy == (leap(y) ? 366 : 365), "days in year %d", dy); bool l = vt_datetime_is_leap_year(CUR); CHECK(l == leap(y), "leap year %d", l); count(C_EVALS, 3); count(C_TRANS, 3); }
    OP = "create"; VitaDateTime c = vt_datetime_create(y, m, d, times[0][0], times[0][1], times[0][2], -1, -1); CHECK(c.year == y && c.month == m && c.month_day == d && c.hour == times[0][0] && c.minute == times[0][1] && c.second == times[0][2], "created %s", show_dt(c).c_str()); CHECK(c.week_day == wd && c.year_day == yd, "created %s, expected weekday %d, day %d", show_dt(c).c_str(), wd, yd); count(C_EVALS); count(C_TRANS); count(C_TRACES);
    uint64_t o[3] = {(uint64_t)wd, (uint64_t)yd, (uint64_t)leap(y)}; outcome(hash_bytes(o, sizeof o, days));
}
const int T1[1][3] = {{12, 0, 0}}; const int T6[6][3] = {{0, 0, 0}, {23, 59, 59}, {12, 30, 15}, {1, 0, 0}, {2, 30, 0}, {3, 0, 1}}; const int T2[2][3] = {{0, 0, 0}, {23, 59, 59}};
void sweep(const char *tz, long y0, long y1, const int (*t)[3], size_t nt) { ZN = tz; zone(tz); for (long y = y0; y < y1; y++) { long dd = days_from_civil(y, 1, 1); int yd = 1; for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(y, m); d++, dd++, yd++) facts(y, m, d, dd, yd, t, nt); } }
int clampi(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }
void years() { ZN = "UTC0"; zone("UTC0"); for (int y = -50; y <= 32767; y++) { if (y == 0) continue; long e = y < 0 ? 1900 : y; CUR = mkdt(2000, 1, 1); CUR.year = (int16_t)y; OP = "year facts"; step(); CHECK(vt_datetime_is_leap_year(CUR) == leap(e), "leap year = %d", !leap(e)); CHECK(vt_datetime_find_days_in_year(CUR) == (leap(e) ? 366 : 365), "days in year"); for (int m = -3; m <= 16; m++) { CUR.month = m; int em = clampi(m, 1, 12); int16_t g = vt_datetime_find_days_in_month(CUR); CHECK(g == mdays(e, em), "days in month %d, expected %d", g, mdays(e, em)); count(C_EVALS); } count(C_TRANS, 22); count(C_TRACES); outcome(hash_bytes(&e, 8)); } for (int m : {INT16_MIN, -100, 13, 100, INT16_MAX}) { CUR = mkdt(2023, 1, 1); CUR.month = m; CHECK(vt_datetime_find_days_in_month(CUR) == 31, "days in month %d", m); } }
void creation(size_t shard) { ZN = "CET"; zone(ZONES[2].tz);
    std::vector<int> Y{INT16_MIN, -7, -1, 1, 4, 100, 400, 1899, 1900, 1969, 1970, 2000, 2023, 2024, 2100, 9999, INT16_MAX}, M{INT16_MIN, -2, -1, 0, 1, 2, 3, 4, 6, 7, 11, 12, 13, 14, INT16_MAX}, Dd{INT16_MIN, -2, 0, 1, 2, 15, 27, 28, 29, 30, 31, 32, 33, 99, INT16_MAX};
    int y = Y[shard % Y.size()]; for (int m : M) for (int d : Dd) for (int w : {-1, 0, 1, 3, 7, 8, INT16_MAX}) for (int yd : {-1, 0, 1, 200, 366, 367, INT16_MAX}) {
        CUR = mkdt(2000, 1, 1); CUR.year = y; CUR.month = m; CUR.month_day = d; CUR.week_day = w; CUR.year_day = yd; OP = "create"; step(); VitaDateTime c = vt_datetime_create(y, m, d, 12, 0, 0, w, yd);
        long ey = y < 0 ? 1900 : y; int em = clampi(m, 1, 12), ed = d < 1 ? 1 : d > 31 ? mdays(ey, em) : d; CHECK(c.year == ey && c.month == em && c.month_day == ed, "created %s, expected %ld-%d-%d", show_dt(c).c_str(), ey, em, ed);
        bool real_date = ed <= mdays(ey, em); if (w >= 1 && w <= 7) CHECK(c.week_day == w, "the given weekday %d became %d", w, c.week_day); else if (real_date) CHECK(c.week_day == wday1(days_from_civil(ey, em, ed)), "weekday %d", c.week_day); if (yd >= 1 && yd <= 366) CHECK(c.year_day == yd, "the given day of the year %d became %d", yd, c.year_day); else if (real_date) CHECK(c.year_day == yday1(ey, em, ed), "day of the year %d", c.year_day);
        count(C_EVALS); count(C_TRANS); count(C_TRACES); uint64_t o[4] = {(uint64_t)ey, (uint64_t)em * 40 + ed, (uint64_t)w, (uint64_t)yd}; outcome(hash_bytes(o, sizeof o)); }
    std::vector<int> Hs{INT16_MIN, -2, -1}, Ms = Hs, Ss = Hs; for (int i = 0; i <= 25; i++) Hs.push_back(i); for (int i : {0, 1, 2, 29, 57, 58, 59, 60, 61, 62, INT16_MAX}) { Ms.push_back(i); Ss.push_back(i); } Hs.push_back(INT16_MAX);
    for (int h : Hs) for (int mi : Ms) for (int s : Ss) { CUR = mkdt(2023, 5, 25); CUR.hour = h; CUR.minute = mi; CUR.second = s; OP = "create"; step(); VitaDateTime c = vt_datetime_create(2023, 5, 25, h, mi, s, 4, 145); CHECK(c.hour == clampi(h, 0, 23) && c.minute == clampi(mi, 0, 59) && c.second == clampi(s, 0, 60), "created %s", show_dt(c).c_str()); CHECK(c.year == 2023 && c.month == 5 && c.month_day == 25 && c.week_day == 4 && c.year_day == 145, "created %s", show_dt(c).c_str()); count(C_EVALS); count(C_TRANS); count(C_TRACES); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); long step_ = T ? 250 : 64;
    for (long y = T ? 1 : 1583; y < (T ? 10000 : 2601); y += step_) add_job("utc_" + std::to_string(y), [=] { describe = desc; sweep("UTC0", y, std::min(y + step_, T ? 10000L : 2601L), T2, 2); });
    for (long y : {1L, 97L, 1000L, 1500L, 9990L, 20000L, 32700L}) add_job("utc_far_" + std::to_string(y), [=] { describe = desc; sweep("UTC0", y, std::min(y + 9, 32767L), T1, 1); });
    size_t nz = sizeof ZONES / sizeof ZONES[0]; for (size_t z = 1; z < nz; z++) for (long y = deep() ? 1583 : T ? 1800 : 1890; y < (deep() ? 2601 : T ? 2201 : 2111); y += 56) add_job("zone_" + std::to_string(z) + "_" + std::to_string(y), [=] { describe = desc; sweep(ZONES[z].tz, y, std::min(y + 56, deep() ? 2601L : T ? 2201L : 2111L), T6, 6); });
    add_job("years", [] { describe = desc; years(); }); for (size_t i = 0; i < 17; i++) add_job("create_" + std::to_string(i), [=] { describe = desc; creation(i); });
    return run_main(argc, argv, "C15");
}
