// C17: seconds, deltas and differences against independent calendar arithmetic.
#include "cal.hpp"
#include "strutil.hpp"
using namespace mc;
namespace {
std::string D; std::string desc() { return D; }
const size_t NZ = sizeof ZONES / sizeof ZONES[0];
long epoch(const ZoneRule &z, const VitaDateTime &v) { long d = days_from_civil(v.year, v.month, v.month_day), s = v.hour * 3600L + v.minute * 60L + v.second, o = local_offset(z, d, s); return o == -1000000 ? LONG_MIN : d * 86400 + s - o; }
bool same(const VitaDateTime &a, const VitaDateTime &b) { return !memcmp(&a, &b, sizeof a); }
void secs_one(const ZoneRule &z, const VitaDateTime &v) {
    long e = epoch(z, v); if (e == LONG_MIN) return; step();
    time_t g = vt_datetime_to_secs(v); CHECK(g == e, "to_secs gave %ld, expected %ld", (long)g, e);
    VitaDateTime r = vt_datetime_from_secs(e); CHECK(same(r, v), "from_secs(%ld) gave %s, expected %s", e, show_dt(r).c_str(), show_dt(v).c_str());
    count(C_TRANS, 2); count(C_TRACES); count(C_EVALS); outcome(e * 31 + z.off);
}
void days(size_t zi, long y0, long y1, const std::vector<int> &times) {
    const ZoneRule &z = ZONES[zi]; zone(z.tz); VitaDateTime cur; describe = [&] { return "seconds of " + show_dt(cur) + " in zone " + z.tz; };
    for (long y = y0; y < y1; y++) for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(y, m); d++) for (int t : times) { cur = mkdt(y, m, d, t / 3600, t / 60 % 60, t % 60); secs_one(z, cur); }
    describe = desc;
}
// year/month/day/time sums normalised on the calendar
bool model_op(const VitaDateTime &v, const VitaDateTime &dl, const ZoneRule &z, VitaDateTime &r) {
    long y = v.year + dl.year, m = v.month - 1 + dl.month; y += m >= 0 ? m / 12 : -((-m + 11) / 12); m = ((m % 12) + 12) % 12;
    long t = days_from_civil(y, (int)m + 1, 1) * 86400 + (v.month_day + dl.month_day - 1) * 86400L + (v.hour + dl.hour) * 3600L + (v.minute + dl.minute) * 60L + v.second + dl.second;
    long d = t >= 0 ? t / 86400 : -((-t + 86399) / 86400), s = t - d * 86400; long yy; int mm, dd; civil_from_days(d, yy, mm, dd); if (yy < 1 || yy > 32000) return false; if (local_offset(z, d, s) == -1000000) return false;
    if (z.dst) { long sec = v.second + dl.second; if (sec < 0 || sec > 59) { long u = t - sec, ud = u >= 0 ? u / 86400 : -((-u + 86399) / 86400); if (local_offset(z, ud, u - ud * 86400) != local_offset(z, d, s)) return false; } } // libc adds seconds beyond a minute as elapsed time
    r = mkdt(yy, mm, dd, s / 3600, s / 60 % 60, s % 60); return true;
}
VitaDateTime delta(int y, int mo, int d, int h, int mi, int s) { VitaDateTime v; memset(&v, 0, sizeof v); v.year = y; v.month = mo; v.month_day = d; v.hour = h; v.minute = mi; v.second = s; return v; }
void op_one(const ZoneRule &z, const VitaDateTime &v, const VitaDateTime &dl) {
    VitaDateTime w; if (!model_op(v, dl, z, w)) return; D = show_dt(v) + " plus " + std::to_string(dl.year) + "y " + std::to_string(dl.month) + "m " + std::to_string(dl.month_day) + "d " + std::to_string(dl.hour) + ":" + std::to_string(dl.minute) + ":" + std::to_string(dl.second) + " in zone " + z.tz; step();
    VitaDateTime r = vt_datetime_op(v, dl); CHECK(same(r, w), "gave %s, expected %s", show_dt(r).c_str(), show_dt(w).c_str()); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_bytes(&r, sizeof r, hash_bytes(&dl, sizeof dl)));
}
std::vector<VitaDateTime> bases(bool T) {
    std::vector<VitaDateTime> b; const long ymd[][3] = {{2023, 5, 25}, {2024, 2, 29}, {2023, 2, 28}, {2023, 12, 31}, {2024, 1, 1}, {1970, 1, 1}, {1969, 12, 31}, {2000, 2, 29}, {1900, 3, 1}, {2100, 2, 28}, {2024, 12, 31}, {2023, 3, 31}};
    const int t[][3] = {{0, 0, 0}, {23, 59, 59}, {18, 40, 0}, {12, 30, 31}};
    for (auto &x : ymd) for (auto &u : t) b.push_back(mkdt(x[0], (int)x[1], (int)x[2], u[0], u[1], u[2]));
    if (T) for (int m = 1; m <= 12; m++) for (int d : {1, 15, 28, mdays(2023, m)}) for (auto &u : t) b.push_back(mkdt(2023, m, d, u[0], u[1], u[2]));
    return b;
}
void ops(size_t zi, size_t shard, size_t nsh) {
    const ZoneRule &z = ZONES[zi]; zone(z.tz); describe = desc; bool T = thorough(); size_t k = 0;
    std::vector<int> Y{-100, -1, 0, 1, 4}, M{-13, -1, 0, 1, 12}, Dd{-366, -1, 0, 1, 31, 365}, Hh{-25, 0, 1, 24}, Mi{-61, 0, 60}, S{-61, -1, 0, 1, 3600};
    if (T) { Y = {-400, -100, -4, -1, 0, 1, 4, 100, 400}; M = {-25, -13, -12, -1, 0, 1, 11, 12, 24}; }
    for (auto &v : bases(T)) for (int y : Y) for (int m : M) { if (k++ % nsh != shard) continue; if (epoch(z, v) == LONG_MIN) continue; for (int d : Dd) for (int h : Hh) for (int mi : Mi) for (int s : S) op_one(z, v, delta(y, m, d, h, mi, s)); }
    // one field at a time, every value in a wide range
    for (auto &v : bases(false)) { if (k++ % nsh != shard) continue; for (int f = 0; f < 6; f++) { int lo = f == 0 ? -700 : -32768, hi = f == 0 ? 700 : 32767, st = f == 0 ? 1 : T ? 7 : 97; for (int x = lo; x <= hi; x += st) op_one(z, v, delta(f == 0 ? x : 0, f == 1 ? x / 8 : 0, f == 2 ? x : 0, f == 3 ? x : 0, f == 4 ? x : 0, f == 5 ? x : 0)); for (int x = -420; x <= 420; x++) op_one(z, v, delta(f == 0 ? x : 0, f == 1 ? x : 0, f == 2 ? x : 0, f == 3 ? x : 0, f == 4 ? x : 0, f == 5 ? x : 0)); } }
}
void diff_one(const ZoneRule &z, const VitaDateTime &a, const VitaDateTime &b) {
    long ea = epoch(z, a), eb = epoch(z, b); if (ea == LONG_MIN || eb == LONG_MIN) return; long e = ea - eb; step(); D = "difference of " + show_dt(a) + " and " + show_dt(b) + " in zone " + z.tz;
    time_t s = vt_datetime_diff_secs(a, b), m = vt_datetime_diff_minutes(a, b), h = vt_datetime_diff_hours(a, b), d = vt_datetime_diff_days(a, b);
    CHECK(s == e, "seconds %ld, expected %ld", (long)s, e); CHECK(m == e / 60, "minutes %ld, expected %ld", (long)m, e / 60); CHECK(h == e / 3600, "hours %ld, expected %ld", (long)h, e / 3600); CHECK(d == e / 86400, "days %ld, expected %ld", (long)d, e / 86400);
    count(C_TRANS, 4); count(C_TRACES); count(C_EVALS); outcome(e * 7 + 3);
    if (labs(e) > 30000L * 86400) return;
    VitaDateTime q = vt_datetime_diff(a, b); long sum = q.month_day * 86400L + q.hour * 3600L + q.minute * 60L + q.second; count(C_TRANS);
    char got[80]; snprintf(got, sizeof got, "%dd %dh %dm %ds", q.month_day, q.hour, q.minute, q.second);
    if (e % 675 == 0 && labs(e) <= (1L << 24)) { // single precision is exact on these
        CHECK(q.month_day == e / 86400 && q.hour == e / 3600 % 24 && q.minute == e / 60 % 60 && q.second == e % 60, "broken down as %s, expected %ldd %ldh %ldm %lds", got, e / 86400, e / 3600 % 24, e / 60 % 60, e % 60);
        VitaDateTime back = vt_datetime_op(b, q); if (!z.dst) CHECK(same(back, a), "adding the difference to the second date gives %s", show_dt(back).c_str()); count(C_TRANS);
    } else { long tol = 2 + labs(e) / (1L << 20); CHECK(labs(sum - e) <= tol, "broken down as %s, which is %ld s, expected %ld s", got, sum, e); }
}
void diffs(size_t zi, size_t shard, size_t nsh) {
    const ZoneRule &z = ZONES[zi]; zone(z.tz); describe = desc; bool T = thorough(); auto b = bases(T); b.push_back(mkdt(1, 1, 1)); b.push_back(mkdt(9999, 12, 31, 23, 59, 59)); size_t k = 0;
    for (auto &x : b) for (auto &y : b) if (k++ % nsh == shard) diff_one(z, x, y);
    // every small distance, every multiple of 675 s up to 194 days, on both sides
    for (auto &x : {mkdt(2024, 2, 28, 23, 50, 0), mkdt(1970, 1, 1, 0, 0, 0)}) {
        long e0 = days_from_civil(x.year, x.month, x.month_day) * 86400 + x.hour * 3600L + x.minute * 60L + x.second;
        auto at = [&](long t) { long d = t >= 0 ? t / 86400 : -((-t + 86399) / 86400), s = t - d * 86400; long y; int m, dd; civil_from_days(d, y, m, dd); return mkdt(y, m, dd, s / 3600, s / 60 % 60, s % 60); };
        for (long i = -4000; i <= 4000; i++) if (k++ % nsh == shard) diff_one(z, at(e0 + i), x);
        for (long i = -24855; i <= 24855; i++) if (k++ % nsh == shard) diff_one(z, at(e0 + i * 675), x);
        for (long i = -90000; i <= 90000; i += T ? 1 : 13) if (k++ % nsh == shard) diff_one(z, at(e0 + i), x);
    }
    if (zi == 0 && shard == 0) {
        VitaDateTime a = mkdt(2023, 5, 25, 18, 40, 0), c = mkdt(2023, 5, 19, 20, 31, 1); D = "difference of " + show_dt(a) + " and " + show_dt(c); step(); VitaDateTime q = vt_datetime_diff(a, c);
        known("diff-single-precision", !(q.month_day == 5 && q.hour == 22 && q.minute == 8 && q.second == 59), "the difference of 2023-05-25 18:40:00 and 2023-05-19 20:31:01 is broken down as %dd %dh %dm %ds, exact is 5d 22h 8m 59s", q.month_day, q.hour, q.minute, q.second);
    }
}
// a year that is not positive counts as 1900, wherever seconds or differences are asked for
void bad_years(size_t zi) {
    const ZoneRule &z = ZONES[zi]; zone(z.tz); describe = desc;
    for (int y = -32768; y <= 0; y += y < -3000 || y > -40 ? 1 : thorough() ? 1 : 7) for (int t = 0; t < 6; t++) {
        VitaDateTime g = t == 0 ? mkdt(1900, 1, 1) : t == 1 ? mkdt(1900, 12, 31, 23, 59, 59) : t == 2 ? mkdt(1900, 2, 28, 12, 30, 31) : t == 3 ? mkdt(1900, 3, 1, 1, 2, 3) : t == 4 ? mkdt(1900, 7, 15, 18, 0, 1) : mkdt(1900, 10, 28, 0, 0, 59), v = g; v.year = (int16_t)y;
        long e = epoch(z, g); if (e == LONG_MIN) continue; step(); D = "seconds and differences of " + show_dt(v) + " (an invalid year) in zone " + z.tz; time_t s = vt_datetime_to_secs(v); CHECK(s == e, "to_secs gave %ld, expected %ld as for 1900", (long)s, e);
        VitaDateTime o = mkdt(1900, 5, 5, 5, 5, 5); long f = e - epoch(z, o); CHECK(vt_datetime_diff_secs(v, o) == f && vt_datetime_diff_secs(o, v) == -f, "difference in seconds"); CHECK(vt_datetime_diff_minutes(v, o) == f / 60 && vt_datetime_diff_minutes(o, v) == -f / 60, "difference in minutes"); CHECK(vt_datetime_diff_hours(v, o) == f / 3600 && vt_datetime_diff_hours(o, v) == -f / 3600, "difference in hours"); CHECK(vt_datetime_diff_days(v, o) == f / 86400 && vt_datetime_diff_days(o, v) == -f / 86400, "difference in days");
        VitaDateTime q = vt_datetime_diff(v, o), w = vt_datetime_diff(g, o); CHECK(same(q, w), "the broken-down difference is another than for 1900"); count(C_TRANS, 11); count(C_TRACES); count(C_EVALS); outcome(e * 31 + z.off + y); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); describe = desc;
    std::vector<int> few{0, 3661, 43200, 86399, 7200, 10800}, half; for (int t = 0; t < 86400; t += 1800) { half.push_back(t); half.push_back(t + 1799); }
    for (size_t z = 0; z < NZ; z++) { for (long y = 1902; y < 2038; y += 34) add_job("days_" + std::to_string(z) + "_" + std::to_string(y), [=] { days(z, y, y + 34, T ? half : few); }); add_job("transitions_" + std::to_string(z), [=] { days(z, 2022, 2026, half); days(z, 1969, 1971, half); }); }
    for (long y = 1; y < 10000; y += 400) if (T || y % 800 == 1 || y == 1601) add_job("far_" + std::to_string(y), [=] { days(0, y, y + (T ? 400 : 120), few); });
    for (size_t z = 0; z < NZ; z++) { size_t n = z < 4 ? 4 : 1; if (z >= 4 && !T && z > 5) continue; for (size_t i = 0; i < n; i++) { add_job("op_" + std::to_string(z) + "_" + std::to_string(i), [=] { ops(z, i, n); }); add_job("diff_" + std::to_string(z) + "_" + std::to_string(i), [=] { diffs(z, i, n); }); } }
    for (size_t z = 0; z < 4; z++) add_job("bad_years_" + std::to_string(z), [=] { bad_years(z); });
    return run_main(argc, argv, "C17");
}
