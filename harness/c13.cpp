// C13: number <-> text conversion for all eleven types.
#include "strutil.hpp"
using namespace mc;
namespace {
typedef std::string str_t; typedef __int128 wide; str_t D; str_t desc() { return D; }
str_t dec(wide v) { if (v == 0) return "0"; bool neg = v < 0; str_t s; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; while (u) { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } return neg ? "-" + s : s; }
template <class T> bool in_range(wide v) { return v >= (wide)std::numeric_limits<T>::min() && v <= (wide)std::numeric_limits<T>::max(); }
// writes into an exact-size block of the given size
template <class T, class F> void to_text(const char *nm, F f, T v, const str_t &want, bool sizes) {
    std::vector<size_t> ks{want.size() + 1}; if (sizes) { ks.clear(); for (size_t k = 1; k <= want.size() + 4; k++) ks.push_back(k); ks.push_back(64 + want.size()); }
    for (size_t k : ks) {
        D = str_t(nm) + " -> text of " + want + ", buffer of " + std::to_string(k); step(); char *b = (char *)malloc(k); memset(b, 'Q', k);
        GuardResult g = guard([&] { f(b, k, v); }); count(C_EVALS); count(C_TRANS); count(C_TRACES);
        if (k < want.size() + 1) { CHECK(stopped_with_failure(g), "a buffer of %zu bytes was accepted for a text of %zu", k, want.size()); for (size_t i = 0; i < k; i++) CHECK(b[i] == 'Q', "byte %zu of a refused buffer was written", i); count(C_STOPS); }
        else { CHECK(g.how == RETURNED, "stopped although the buffer suffices"); CHECK(!memcmp(b, want.c_str(), want.size() + 1), "wrote %s, expected %s", show(str_t(b, strnlen(b, k))).c_str(), want.c_str()); for (size_t i = want.size() + 1; i < k; i++) CHECK(b[i] == 'Q', "byte %zu past the text was written", i); }
        free(b);
    }
    outcome(H(want, nm[0], nm[1]));
}
template <class T> std::vector<T> ints() {
    std::set<T> s; if (sizeof(T) <= 2) { for (long i = (long)std::numeric_limits<T>::min(); i <= (long)std::numeric_limits<T>::max(); i++) s.insert((T)i); return std::vector<T>(s.begin(), s.end()); }
    auto add = [&](wide v) { for (wide w : {v, -v}) for (int d = -2; d <= 2; d++) if (in_range<T>(w + d)) s.insert((T)(w + d)); };
    for (int b = 0; b < 64; b++) { add((wide)1 << b); add(((wide)1 << b) * 3); } wide p = 1; for (int i = 0; i < 20; i++, p *= 10) for (int d = 1; d <= 9; d++) { add(p * d); wide r = 0; for (int k = 0; k <= i; k++) r = r * 10 + d; add(r); }
    add((wide)std::numeric_limits<T>::max()); add((wide)std::numeric_limits<T>::min()); add((wide)1234567890123456789LL); if (thorough() && sizeof(T) == 4) for (wide v = std::numeric_limits<T>::min(); v <= (wide)std::numeric_limits<T>::max(); v += 4099) s.insert((T)v);
    return std::vector<T>(s.begin(), s.end());
}
template <class T, class TS, class FS> void integers(const char *nm, TS to, FS from) {
    size_t i = 0; for (T v : ints<T>()) { str_t t = dec((wide)v); to_text(nm, to, v, t, i++ % (sizeof(T) == 2 ? 61 : sizeof(T) == 1 ? 1 : 7) == 0);
        D = str_t(nm) + " from text " + t; step(); Z z(t); T r = from(z); if (v >= 0) CHECK(r == v, "read %s, expected %s", dec(r).c_str(), t.c_str()); else CHECK(r == 0, "a text with a sign read as %s", dec(r).c_str()); count(C_EVALS); count(C_TRANS); count(C_TRACES);
        if (v >= 0 && i % 5 == 0) { for (const char *suf : {".", ".0", ".9", ".99.1", "..5"}) { Z q(t + suf); T x = from(q); CHECK(x == v, "%s%s read as %s", t.c_str(), suf, dec(x).c_str()); } for (const char *pre : {"0", "00", "0000000"}) { Z q(pre + t); T x = from(q); CHECK(x == v, "%s%s read as %s", pre, t.c_str(), dec(x).c_str()); } } }
}
// reference parser for every short text
str_t digits_before_dot(const str_t &t) { return t.substr(0, t.find('.')); }
bool numeric(const str_t &t) { for (char c : t) if (!((c >= '0' && c <= '9') || c == '.')) return false; return true; }
template <class T, class FS> void texts_i(const char *nm, FS from, const std::vector<str_t> &ts, size_t lo, size_t hi) {
    for (size_t i = lo; i < hi; i++) { const str_t &t = ts[i]; wide want = 0; if (numeric(t)) for (char c : digits_before_dot(t)) want = want * 10 + (c - '0'); if (!in_range<T>(want)) continue;
        D = str_t(nm) + " from text " + show(t); step(); Z z(t); T r = from(z); CHECK((wide)r == want, "read %s, expected %s", dec(r).c_str(), dec(want).c_str()); count(C_EVALS); count(C_TRANS); count(C_TRACES); outcome(H(t, nm[0], nm[1])); }
}
template <class T> T lib(const char *z); template <> float lib<float>(const char *z) { return strtof(z, nullptr); } template <> double lib<double>(const char *z) { return strtod(z, nullptr); } template <> real lib<real>(const char *z) { return strtold(z, nullptr); }
template <class T, class FS> void texts_f(const char *nm, FS from, const std::vector<str_t> &ts, size_t lo, size_t hi) {
    for (size_t i = lo; i < hi; i++) { const str_t &t = ts[i]; D = str_t(nm) + " from text " + show(t); step(); Z z(t); T want = 0; if (numeric(t)) want = lib<T>(z); T r = from(z); CHECK(r == want, "read %.20Lg, expected %.20Lg", (real)r, (real)want); count(C_EVALS); count(C_TRANS); count(C_TRACES); outcome(H(t, nm[0], nm[1])); }
}
template <class T> const char *ffmt(); template <> const char *ffmt<float>() { return "%f"; } template <> const char *ffmt<double>() { return "%f"; } template <> const char *ffmt<real>() { return "%Lf"; }
template <class T, class TS, class FS> void floats(const char *nm, TS to, FS from) {
    std::vector<T> vs; for (int e = -40; e <= 70; e++) for (T m : {(T)1, (T)1.25, (T)1.5, (T)1.9999999L, (T)1.1L}) { T v = ldexpl(m, e); vs.push_back(v); vs.push_back(-v); }
    for (long i = -3000; i <= 3000; i++) { vs.push_back((T)(i / 8.0L)); vs.push_back((T)(i / 1000.0L)); } T p = 1; for (int i = 0; i < 36; i++, p *= 10) { vs.push_back(p); vs.push_back(-p); vs.push_back(p - 1); vs.push_back(p / 3); }
    for (T v : {(T)0, (T)-0.0, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), (T)0.0000005L, (T)0.00000049L, (T)0.9999995L, (T)9.9999995L}) vs.push_back(v);
    size_t i = 0; std::vector<char> big(6000); for (T v : vs) { snprintf(big.data(), big.size(), ffmt<T>(), v); str_t t = big.data(); to_text(nm, to, v, t, i++ % 37 == 0 || t.size() > 300);
        D = str_t(nm) + " from text " + t; step(); Z z(t); T r = from(z), want = numeric(t) ? lib<T>(z) : 0; CHECK(r == want, "read %.20Lg, expected %.20Lg", (real)r, (real)want); count(C_EVALS); count(C_TRANS); }
}
// decimal texts at and around the exact midpoint between neighbouring values: only the correctly rounded answer is right
template <class T, class FS> void midpoints(const char *nm, FS from, size_t lo, size_t hi) {
    std::vector<T> vs; for (int e = -30; e <= 40; e++) for (long double m : {1.0L, 1.25L, 1.5L, 1.75L, 1.1L, 1.3L, 1.7L, 1.9999L, 1.0001L, 1.99999988L}) vs.push_back((T)ldexpl((T)m, e)); for (long i = 1; i <= 200; i++) { vs.push_back((T)i); vs.push_back((T)(i * 0.1L)); vs.push_back((T)((1 << 24) + i)); vs.push_back((T)(9007199254740992.0L + 2 * i)); }
    std::vector<char> big(4000);
    for (size_t i = lo; i < std::min(hi, vs.size()); i++) { T a = vs[i], b = nextafter(a, std::numeric_limits<T>::infinity()); __float128 mid = ((__float128)a + (__float128)b) / 2; str_t ip, fp; unsigned __int128 whole = (unsigned __int128)mid; { unsigned __int128 w = whole; do ip.insert(ip.begin(), (char)('0' + (int)(w % 10))); while (w /= 10); } __float128 fr = mid - (__float128)whole; 
        while (fr > 0 && fp.size() < 300) { fr *= 10; int dgt = (int)fr; fp += (char)('0' + dgt); fr -= dgt; } if (fp.size() >= 300) continue; // the expansion is exact: it ended
        str_t m = ip + "." + fp; if (fp.empty()) m += "0"; std::vector<str_t> ts{m, m + "1", m + "0", m + str_t(40, '0') + "1"}; { str_t d = m; size_t k = d.size(); bool done = false; while (k-- > 0 && !done) { if (d[k] == '.') continue; if (d[k] == '0') d[k] = '9'; else { d[k]--; done = true; } } ts.push_back(d); ts.push_back(d + "9999999999999999999999"); }
        for (auto &t : ts) { D = str_t(nm) + " from text " + t; step(); Z z(t); T want = lib<T>(z), r = from(z); CHECK(r == want, "read %.25Lg, expected %.25Lg", (real)r, (real)want); count(C_EVALS); count(C_TRANS); count(C_TRACES); outcome(H(t, nm[0])); } }
}
// long digit strings
template <class T, class FS> void longtexts_f(const char *nm, FS from) { for (size_t n : {16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 5000}) for (auto &t : {str_t(n, '0') + "7.5", "0." + str_t(n, '0') + "7", "3." + str_t(n, '3'), "1" + str_t(std::min<size_t>(n, 35), '0'), str_t(n, '0') + "." + str_t(n, '9'), "12345." + str_t(n, '0'), "2.5" + str_t(n, '0') + "1", "1" + str_t(n, '0') + "." + "5"}) { D = str_t(nm) + " from a text of " + std::to_string(t.size()) + " characters: " + t.substr(0, 40); step(); Z z(t); T want = lib<T>(z), r = from(z); CHECK(r == want, "read %.25Lg, expected %.25Lg", (real)r, (real)want); count(C_EVALS); count(C_TRANS); count(C_TRACES); outcome(H(t, nm[0])); } }
template <class T, class FS> void longtexts_i(const char *nm, FS from) { for (size_t n : {16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 5000}) for (T v : {(T)0, (T)7, (T)99, std::numeric_limits<T>::max()}) for (auto &t : {str_t(n, '0') + dec(v), dec(v) + "." + str_t(n, '9'), str_t(n, '0') + dec(v) + "." + str_t(n, '1')}) { D = str_t(nm) + " from a text of " + std::to_string(t.size()) + " characters: " + t.substr(0, 40); step(); Z z(t); T r = from(z); CHECK(r == v, "read %s, expected %s", dec(r).c_str(), dec(v).c_str()); count(C_EVALS); count(C_TRANS); count(C_TRACES); outcome(H(t, nm[0])); Z x(t + "x"); CHECK(from(x) == 0, "a long text that is not a number was read as one"); } }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    auto ts = std::make_shared<std::vector<str_t>>(words("019.-+ a", 0, deep() ? 7 : T ? 6 : 5)); for (auto &w : words("05.", 6, deep() ? 11 : T ? 9 : 8)) ts->push_back(w); for (int c = 1; c < 256; c++) for (auto &f : {"%c", "1%c", "%c1", "1%c1", "12%c"}) { char b[8]; snprintf(b, sizeof b, f, c); ts->push_back(b); } for (auto &w : {"0x10", "1e5", "1E5", "nan", "inf", "INF", "1,5", "\t1", "1\n", "--1", "1_000", "0b1", "1.e3"}) ts->push_back(w);
    size_t n = ts->size(), ch = n / 3 + 1;
#define INT_(T_, t) add_job("long_" #t, [=] { describe = desc; longtexts_i<T_>(#t, vt_conv_str_to_##t); }); add_job("int_" #t, [=] { describe = desc; integers<T_>(#t, vt_conv_##t##_to_str, vt_conv_str_to_##t); }); for (size_t lo = 0; lo < n; lo += ch) add_job("text_" #t "_" + std::to_string(lo), [=] { describe = desc; texts_i<T_>(#t, vt_conv_str_to_##t, *ts, lo, std::min(n, lo + ch)); });
#define FLT_(T_, t) add_job("long_" #t, [=] { describe = desc; longtexts_f<T_>(#t, vt_conv_str_to_##t); }); for (size_t lo = 0; lo < 1600; lo += 400) add_job("mid_" #t "_" + std::to_string(lo), [=] { describe = desc; midpoints<T_>(#t, vt_conv_str_to_##t, lo, lo + 400); }); add_job("flt_" #t, [=] { describe = desc; floats<T_>(#t, vt_conv_##t##_to_str, vt_conv_str_to_##t); }); for (size_t lo = 0; lo < n; lo += ch) add_job("text_" #t "_" + std::to_string(lo), [=] { describe = desc; texts_f<T_>(#t, vt_conv_str_to_##t, *ts, lo, std::min(n, lo + ch)); });
    INT_(int8_t, i8) INT_(uint8_t, u8) INT_(int16_t, i16) INT_(uint16_t, u16) INT_(int32_t, i32) INT_(uint32_t, u32) INT_(int64_t, i64) INT_(uint64_t, u64) FLT_(float, f) FLT_(double, d) FLT_(real, r)
    return run_main(argc, argv, "C13");
}
