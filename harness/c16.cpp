// C16: datetime text forms, both directions, and their validation.
#include "cal.hpp"
#include "strutil.hpp"
using namespace mc;
namespace {
std::string D; std::string desc() { return D; }
const char *const PAT[3] = {"####-##-## ##:##:##", "########T######", "####-##-##T##:##:##"};
const char *const NAME[3] = {"text", "text_iso", "text_iso_ext"};
std::string form(int f, const VitaDateTime &v) {
    char b[64]; const char *p = f == 0 ? "%04d-%02d-%02d %02d:%02d:%02d" : f == 1 ? "%04d%02d%02dT%02d%02d%02d" : "%04d-%02d-%02dT%02d:%02d:%02d";
    snprintf(b, sizeof b, p, v.year, v.month, v.month_day, v.hour, v.minute, v.second); return b;
}
void to_text(int f, const VitaDateTime &v, char *b, size_t n) { if (f == 0) vt_datetime_to_text(v, b, n); else if (f == 1) vt_datetime_to_text_iso(v, b, n); else if (f == 2) vt_datetime_to_text_iso_ext(v, b, n); else vt_datetime_to_text_pretty(v, b, n); }
VitaDateTime from_text(int f, const char *z) { return f == 0 ? vt_datetime_from_text(z) : f == 1 ? vt_datetime_from_text_iso(z) : vt_datetime_from_text_iso_ext(z); }
bool is_valid(int f, const char *z) { return f == 0 ? vt_datetime_is_valid_text(z) : f == 1 ? vt_datetime_is_valid_text_iso(z) : vt_datetime_is_valid_text_iso_ext(z); }
bool model_valid(int f, const std::string &t) { size_t n = strlen(PAT[f]); if (t.size() < n) return false; for (size_t i = 0; i < n; i++) if (PAT[f][i] == '#' ? !(t[i] >= '0' && t[i] <= '9') : t[i] != PAT[f][i]) return false; return true; }
void fields(int f, const std::string &t, int v[6]) { const int w[6] = {4, 2, 2, 2, 2, 2}; size_t i = 0; for (int k = 0; k < 6; k++) { while (i < t.size() && PAT[f][i] != '#') i++; v[k] = 0; for (int j = 0; j < w[k]; j++) v[k] = v[k] * 10 + (t[i++] - '0'); } }
std::string pretty(const VitaDateTime &v) { static const char *W[] = {"", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}, *M[] = {"", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; char b[64]; snprintf(b, sizeof b, "%s %s %2d %02d:%02d:%02d %d", W[v.week_day], M[v.month], v.month_day, v.hour, v.minute, v.second, v.year); return b; }
// heap buffers that are exactly as large as the library is told
std::map<size_t, char *> BUF;
char *buf(size_t n) { if (!BUF[n]) BUF[n] = (char *)malloc(n); memset(BUF[n], 0x7f, n); return BUF[n]; }
void written(const char *b, size_t n, const std::string &want, const char *what) { size_t l = strnlen(b, n); CHECK(l < n, "%s: not terminated inside the buffer of %zu", what, n); CHECK(want == b, "%s: %s, expected %s", what, show(std::string(b, l)).c_str(), show(want).c_str()); }
void round_trip(int f, const VitaDateTime &v, size_t n, bool leapsec = false) {
    step(); char *b = buf(n); to_text(f, v, b, n); std::string want = form(f, v); written(b, n, want, "written text");
    Z z(want); CHECK(is_valid(f, z), "the library does not accept its own text %s", want.c_str());
    VitaDateTime r = from_text(f, z);
    CHECK(r.year == v.year && r.month == v.month && r.month_day == v.month_day && r.hour == v.hour && r.minute == v.minute && r.second == v.second, "read back %s from %s", show_dt(r).c_str(), want.c_str());
    if (!leapsec) CHECK(r.week_day == v.week_day && r.year_day == v.year_day, "read back %s from %s, expected weekday %d and day %d", show_dt(r).c_str(), want.c_str(), v.week_day, v.year_day);
    count(C_TRANS, 3); count(C_TRACES); count(C_EVALS); outcome(hash_str(want, f));
}
void days(const char *tz, long y0, long y1, bool all_formats) {
    zone(tz); D = std::string("round trips in zone ") + tz; VitaDateTime cur; int f = 0; describe = [&] { return D + ": " + NAME[f] + " of " + show_dt(cur); };
    for (long y = y0; y < y1; y++) for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(y, m); d++) {
        long k = days_from_civil(y, m, d); int t = (int)(((k * 7919) % 86400 + 86400) % 86400); // a different time of day for every day
        cur = mkdt(y, m, d, t / 3600, t / 60 % 60, t % 60);
        for (f = 0; f < 3; f++) if (all_formats || (k + f) % 3 == 0 || d == 1 || d == mdays(y, m)) round_trip(f, cur, 26 + (size_t)(d & 15));
    }
    describe = desc;
}
void day_seconds(long y, int m, int d, size_t shard, size_t nsh) {
    zone("UTC0"); VitaDateTime cur; int f = 0; describe = [&] { return std::string("round trip of every second: ") + NAME[f] + " of " + show_dt(cur); };
    for (int t = 0; t < 86400; t++) if ((size_t)t % nsh == shard) { cur = mkdt(y, m, d, t / 3600, t / 60 % 60, t % 60); for (f = 0; f < 3; f++) round_trip(f, cur, 26); }
    for (int h = 0; h < 24; h++) for (int mi = 0; mi < 60; mi++) { cur = mkdt(y, m, d, h, mi, 60); for (f = 0; f < 3; f++) round_trip(f, cur, 26, true); }
    describe = desc;
}
void pretty_days(long y0, long y1) {
    zone("UTC0"); VitaDateTime cur; describe = [&] { return "pretty text of " + show_dt(cur); };
    for (long y = y0; y < y1; y++) for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(y, m); d++) {
        long k = days_from_civil(y, m, d); int t = (int)(((k * 6007) % 86400 + 86400) % 86400); cur = mkdt(y, m, d, t / 3600, t / 60 % 60, t % 60);
        step(); size_t n = 26 + (size_t)(d % 20); char *b = buf(n); to_text(3, cur, b, n); written(b, n, pretty(cur), "pretty text"); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(pretty(cur), 3));
    }
    for (int w = 1; w <= 7; w++) { cur = mkdt(2023, 5, 25, 18, 40, 0); cur.week_day = w; step(); char *b = buf(26); to_text(3, cur, b, 26); written(b, 26, pretty(cur), "pretty text"); }
    describe = desc;
}
void verdicts(const std::string &t) {
    Z z(t);
    for (int f = 0; f < 3; f++) {
        D = std::string("reading ") + show(t) + " as " + NAME[f]; step(); std::string c = t.c_str(); // what the C string really is
        bool want = model_valid(f, c), got = is_valid(f, z); CHECK(got == want, "is_valid_%s says %d, expected %d", NAME[f], got, want);
        VitaDateTime r; memset(&r, 0, sizeof r); GuardResult g = guard([&] { r = from_text(f, z); });
        if (!want) { CHECK(stopped_with_failure(g), "an invalid text was read as %s", show_dt(r).c_str()); count(C_STOPS); }
        else { CHECK(g.how == RETURNED, "a valid text ended the program"); int v[6]; fields(f, c, v); CHECK(r.year == v[0] && r.month == v[1] && r.month_day == v[2] && r.hour == v[3] && r.minute == v[4] && r.second == v[5], "read as %s", show_dt(r).c_str());
            if (v[0] >= 1 && v[1] >= 1 && v[1] <= 12 && v[2] >= 1 && v[2] <= mdays(v[0], v[1]) && v[3] < 24 && v[4] < 60 && v[5] < 60) CHECK(r.week_day == wday1(days_from_civil(v[0], v[1], v[2])) && r.year_day == yday1(v[0], v[1], v[2]), "read as %s", show_dt(r).c_str()); }
        count(C_TRANS, 2); count(C_TRACES); count(C_EVALS); outcome(hash_str(t, f * 2 + want));
    }
}
void corruptions(size_t shard, size_t nsh) {
    zone("UTC0"); describe = desc; bool T = thorough(); size_t k = 0;
    std::vector<VitaDateTime> base{mkdt(2023, 5, 25, 18, 40, 9), mkdt(1000, 1, 1, 0, 0, 0), mkdt(9999, 12, 31, 23, 59, 59), mkdt(7, 2, 3, 4, 5, 6)};
    const char small[] = {'0', '9', '/', ':', '-', 'T', 't', ' ', 'a', '+', '.', '\0', '\x80', '\xb2'};
    for (auto &v : base) for (int f = 0; f < 3; f++) {
        std::string t = form(f, v);
        for (size_t n = 0; n <= t.size(); n++) if (k++ % nsh == shard) verdicts(t.substr(0, n));
        for (size_t i = 0; i < t.size(); i++) for (int c = 0; c < 256; c++) if (k++ % nsh == shard) { std::string u = t; u[i] = (char)c; verdicts(u); }
        for (size_t i = 0; i < t.size(); i++) if (k++ % nsh == shard) { verdicts(t.substr(0, i) + t.substr(i + 1)); for (char c : {'0', '-', ' ', 'T', ':'}) { verdicts(t.substr(0, i) + c + t.substr(i)); } }
        for (size_t i = 0; i < t.size(); i++) for (size_t j = i + 1; j < t.size(); j++) for (char a : small) for (char b : small) if (k++ % nsh == shard) { std::string u = t; u[i] = a; u[j] = b; verdicts(u); }
        if (T) for (size_t i = 0; i < t.size(); i++) for (int c = 0; c < 256; c++) for (size_t n = 0; n < t.size(); n++) if (k++ % nsh == shard) { std::string u = t; u[i] = (char)c; verdicts(u.substr(0, n)); }
    }
    if (shard == 0) for (int i = 0; i < 256; i++) verdicts(std::string(1, (char)i));
    // every two-digit value of every field
    int pos[3][6] = {{0, 5, 8, 11, 14, 17}, {0, 4, 6, 9, 11, 13}, {0, 5, 8, 11, 14, 17}};
    for (int f = 0; f < 3; f++) for (int fi = 1; fi < 6; fi++) for (int v = 0; v < 100; v++) if (k++ % nsh == shard) { std::string t = form(f, base[0]); t[pos[f][fi]] = '0' + v / 10; t[pos[f][fi] + 1] = '0' + v % 10; verdicts(t); }
    for (int f = 0; f < 3; f++) for (int y = 0; y < 10000; y++) if (k++ % nsh == shard) { std::string t = form(f, base[0]); char b[8]; snprintf(b, sizeof b, "%04d", y); t.replace(0, 4, b); verdicts(t); }
}
void sizes() {
    zone("UTC0"); describe = desc;
    std::vector<size_t> ns; for (size_t n = 1; n <= 600; n++) ns.push_back(n); for (size_t n : {1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001}) ns.push_back(n);
    for (VitaDateTime v : {mkdt(2023, 10, 5, 7, 8, 9), mkdt(987, 6, 5, 4, 3, 2), mkdt(9999, 12, 31, 23, 59, 59)}) for (int f = 0; f < 4; f++) for (size_t n : ns) {
        D = "writing " + std::string(f == 3 ? "pretty" : NAME[f]) + " into a buffer of " + std::to_string(n); step(); char *b = buf(n); GuardResult g = guard([&] { to_text(f, v, b, n); });
        if (n >= VT_DATETIME_BUFFER_SIZE) { CHECK(g.how == RETURNED, "a sufficient buffer was refused"); written(b, n, f == 3 ? pretty(v) : form(f, v), "text"); } else if (g.how == RETURNED) CHECK(mem_ok(b, n), "buffer");
        count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(n * 4 + f);
    }
}
time_t NOW; time_t fake_time(time_t *t) { if (t) *t = NOW; return NOW; }
void now(size_t zi) {
    const ZoneRule &z = ZONES[zi]; zone(z.tz); hooks.time = fake_time; describe = desc;
    std::vector<long> days; for (long y : {1969L, 1970L, 1999L, 2000L, 2023L, 2024L, 2038L, 2100L}) for (int m = 1; m <= 12; m++) for (int d : {1, 9, 10, 28, 31}) if (d <= mdays(y, m)) days.push_back(days_from_civil(y, m, d));
    for (long d : days) for (long s : {0L, 1L, 3599L, 43200L, 60000L, 86399L}) {
        long off = local_offset(z, d, s); if (off == -1000000) continue; NOW = d * 86400 + s - off; long y; int m, dd; civil_from_days(d, y, m, dd); VitaDateTime v = mkdt(y, m, dd, s / 3600, s / 60 % 60, s % 60);
        D = "now = " + std::to_string((long)NOW) + " in zone " + z.tz; step();
        VitaDateTime r = vt_datetime_get_now(); CHECK(!memcmp(&r, &v, sizeof v), "get_now gave %s, expected %s", show_dt(r).c_str(), show_dt(v).c_str());
        for (size_t n : {26, 27, 40}) { char *b = buf(n); vt_datetime_get_now_as_text(b, n); written(b, n, form(0, v), "now as text"); b = buf(n); vt_datetime_get_now_as_text_pretty(b, n); written(b, n, pretty(v), "now as pretty text"); }
        count(C_TRANS, 7); count(C_TRACES); count(C_EVALS); outcome(NOW * 16 + zi);
    }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); describe = desc;
    for (long y = 0; y < 10000; y += 250) add_job("days_" + std::to_string(y), [=] { days("UTC0", y ? y : 1, y + 250, T); }); // from the year 1
    for (size_t z = 1; z < sizeof ZONES / sizeof ZONES[0]; z++) add_job("zone_" + std::to_string(z), [=] { if (T) days(ZONES[z].tz, 1890, 2110, true); else days(ZONES[z].tz, 1990, 2045, true); });
    for (size_t i = 0; i < 8; i++) { add_job("seconds_" + std::to_string(i), [=] { day_seconds(2024, 2, 29, i, 8); if (T) { day_seconds(1000, 1, 1, i, 8); day_seconds(9999, 12, 31, i, 8); } }); }
    for (long y = 1000; y < 10000; y += 450) if (T || y % 900 == 100 || y == 1900) add_job("pretty_" + std::to_string(y), [=] { pretty_days(y, y + (T ? 450 : 250)); });
    for (long y = 0; y < 1000; y += 250) add_job("pretty_" + std::to_string(y), [=] { pretty_days(y ? y : 1, y + 250); });
    for (size_t i = 0; i < 32; i++) add_job("corrupt_" + std::to_string(i), [=] { corruptions(i, 32); });
    add_job("sizes", sizes); for (size_t z = 0; z < sizeof ZONES / sizeof ZONES[0]; z++) add_job("now_" + std::to_string(z), [=] { now(z); });
    return run_main(argc, argv, "C16");
}
