// C23: comparison and arithmetic helpers against exact oracles.
#include "mc.hpp"
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; }
template <class T> S_ num(T v) { char b[64]; if constexpr (std::is_floating_point<T>::value) snprintf(b, sizeof b, "%.21Lg", (long double)v); else if constexpr (std::is_signed<T>::value) snprintf(b, sizeof b, "%lld", (long long)v); else snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
template <class T> struct Fn { const char *n; T (*mn)(T, T); T (*mx)(T, T); T (*cl)(T, T, T); };
template <class T> uint64_t hv(T v) { S_ s = num(v); return hash_str(s); }
template <class T> void pair(const Fn<T> &f, T x, T y) { T a = f.mn(x, y), b = f.mx(x, y); if (!(a == (y < x ? y : x)) || !(b == (x < y ? y : x))) failf("%s: min(%s,%s)=%s max=%s", f.n, num(x).c_str(), num(y).c_str(), num(a).c_str(), num(b).c_str()); }
template <class T> void triple(const Fn<T> &f, T x, T l, T h) { T c = f.cl(x, l, h); T w = x < l ? l : h < x ? h : x; if (!(c == w)) failf("%s: clamp(%s,%s,%s)=%s", f.n, num(x).c_str(), num(l).c_str(), num(h).c_str(), num(c).c_str()); }
template <class T> void all_narrow(const Fn<T> &f) { // every pair and every triple of an 8-bit type
    D = S_(f.n) + " every value"; const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); uint64_t n = 0;
    for (int x = lo; x <= hi; x++) { step(); for (int y = lo; y <= hi; y++) { pair<T>(f, (T)x, (T)y); n += 2; for (int h = y; h <= hi; h++) { triple<T>(f, (T)x, (T)y, (T)h); n++; } } outcome(hash_str(D) + (uint64_t)x); }
    count(C_EVALS, n); count(C_TRACES, n); count(C_TRANS, n);
}
template <class T> void all16(const Fn<T> &f, int sh, int n) { // every pair of a 16-bit type
    D = S_(f.n) + " every pair"; const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); uint64_t k = 0;
    for (int x = lo + sh; x <= hi; x += n) { step(); for (int y = lo; y <= hi; y++) { pair<T>(f, (T)x, (T)y); k += 2; } outcome(hash_str(D) + (uint64_t)x); }
    count(C_EVALS, k); count(C_TRACES, k); count(C_TRANS, k);
}
template <class T> std::vector<T> boundary() {
    std::set<T> s;
    if constexpr (std::is_floating_point<T>::value) {
        for (T v : {(T)0, (T)1, (T)0.5L, (T)3, (T)1e-30L, (T)1e30L, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), (T)1 + std::numeric_limits<T>::epsilon(), (T)1 - std::numeric_limits<T>::epsilon() / 2, (T)16777216.0L, (T)16777217.0L, (T)9007199254740992.0L, (T)9007199254740993.0L, (T)123456.789L, std::numeric_limits<T>::infinity(), (T)2147483648.0L, (T)4294967296.5L, (T)18446744073709551615.0L, (T)9223372036854775807.0L}) { s.insert(v); s.insert(-v); }
    } else { const bool sg = std::is_signed<T>::value; for (int b = 0; b < (int)sizeof(T) * 8; b++) for (int d = -1; d <= 1; d++) { typedef typename std::make_unsigned<T>::type U; U u = (U)(((U)1 << b) + (U)d); s.insert((T)u); if (sg) s.insert((T)(U)(0 - u)); if (!thorough() && sizeof(T) > 2 && b % 4 != 3 && b > 2) break; } s.insert(std::numeric_limits<T>::max()); s.insert(std::numeric_limits<T>::min()); s.insert((T)100); s.insert((T)101); }
    return std::vector<T>(s.begin(), s.end());
}
template <class T> void wide(const Fn<T> &f) {
    D = S_(f.n) + " boundary values"; auto v = boundary<T>(); uint64_t n = 0;
    for (T x : v) { step(); for (T y : v) { pair<T>(f, x, y); n += 2; if (y < x || std::is_floating_point<T>::value || true) for (T h : v) if (y <= h) { triple<T>(f, x, y, h); n++; } } outcome(hash_str(D) ^ hv(x)); }
    count(C_EVALS, n); count(C_TRACES, n); count(C_TRANS, n); sample("%s: %zu boundary values, all pairs and ordered-bound triples", f.n, v.size());
}
bool pal(uint64_t n) { S_ s = std::to_string(n), r(s.rbegin(), s.rend()); return s == r; }
void pchk(uint64_t n) { if (vt_math_is_palindrome(n) != pal(n)) failf("is_palindrome(%llu) = %d", (unsigned long long)n, !pal(n)); count(C_EVALS); count(C_TRACES); count(C_TRANS); }
void palindromes(uint64_t lo, uint64_t hi) { D = "palindromes from " + std::to_string(lo); for (uint64_t n = lo; n < hi; n++) { if (n % 1024 == 0) step(); pchk(n); } outcome(lo); }
void long_palindromes(int digits) { // constructed: half over a digit alphabet, mirrored; and every one-digit corruption
    D = std::to_string(digits) + "-digit palindromes"; int h = (digits + 1) / 2; std::vector<S_> halves{""}; for (int i = 0; i < h; i++) { std::vector<S_> nx; for (auto &w : halves) for (char c : S_(h <= 5 ? "0159" : h <= 7 ? "019" : "09")) if (i || c != '0') nx.push_back(w + c); halves = nx; if (halves.size() > 3000) { std::vector<S_> t; for (size_t k = 0; k < halves.size(); k += halves.size() / 1500) t.push_back(halves[k]); halves = t; } }
    for (auto &w : halves) { S_ s = w; for (int i = digits / 2 - 1; i >= 0; i--) s += w[i]; auto fits = [](const S_ &t) { return t.size() < 20 || t <= "18446744073709551615"; }; step(); if (!fits(s)) continue; pchk(strtoull(s.c_str(), nullptr, 10)); CHECK(vt_math_is_palindrome(strtoull(s.c_str(), nullptr, 10)), "%s is a palindrome", s.c_str());
        for (int i = 0; i < digits; i++) for (char c : {'0', '1', '8', '9'}) { S_ t = s; t[i] = c; if (t[0] == '0' || !fits(t)) continue; pchk(strtoull(t.c_str(), nullptr, 10)); } outcome(hash_str(s)); }
}
typedef __int128 I; I gcd0(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
void gchk(int64_t a, int64_t b) {
    I g = gcd0(a, b); int64_t got = vt_math_gcd(a, b); I ga = got < 0 ? -(I)got : got; if (a >= 0 && b >= 0 ? (I)got != g : ga != g) failf("gcd(%lld,%lld) = %lld", (long long)a, (long long)b, (long long)got);
    I l = g == 0 ? 0 : (I)a / g * b; if (l < 0) l = -l; if (l <= INT64_MAX) { int64_t gl = vt_math_lcm(a, b); I la = gl < 0 ? -(I)gl : gl; if (a >= 0 && b >= 0 ? (I)gl != l : la != l) failf("lcm(%lld,%lld) = %lld, expected %lld", (long long)a, (long long)b, (long long)gl, (long long)l); }
    count(C_EVALS, 2); count(C_TRACES, 2); count(C_TRANS, 2);
}
void gcds(int sh, int n) {
    const int N = thorough() ? 1500 : 400; D = "gcd/lcm of all small pairs"; for (int a = sh; a <= N; a += n) { step(); for (int b = 0; b <= N; b++) { gchk(a, b); if (a <= 60 && b <= 60) { gchk(-a, b); gchk(a, -b); gchk(-a, -b); } } outcome(a); }
    if (sh) return; D = "gcd/lcm of boundary pairs"; std::vector<int64_t> v; for (int b = 0; b < 63; b++) for (int d = -1; d <= 1; d++) v.push_back((int64_t)((1ull << b) + d)); v.push_back(INT64_MAX); int64_t f0 = 1, f1 = 2; while (f1 < INT64_MAX / 2) { v.push_back(f1); int64_t t = f0 + f1; f0 = f1; f1 = t; } int64_t p = 1; for (int64_t q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41}) { p *= q; v.push_back(p); v.push_back(p / 2 * 3 > 0 ? p / q * 4 : 1); } for (int64_t t = 1, i = 0; i < 18; i++, t *= 10) v.push_back(t);
    for (int64_t a : v) { step(); for (int64_t b : v) gchk(a, b); outcome((uint64_t)a * 7919); }
}
void maps() {
    D = "map_to"; std::vector<double> v{0, 1, -1, 0.5, 2, 10, -10, 100, 255, 1000, -1000, 3.25, 1e6, -1e6, 1e-3, 7, 1e9}; uint64_t n = 0;
    for (double a : v) for (double b : v) { if (a == b) continue; for (double c : v) for (double d : v) { step(); double sc = std::max({fabs(c), fabs(d), fabs(d - c)}), cond = 1 + std::max(fabs(a), fabs(b)) / fabs(b - a); double tol = 1e-13 * (sc + 1e-300) * cond; auto m = [&](double x) { return vt_math_map_to(x, a, b, c, d); };
        double g = m(a); if (!(fabs(g - c) <= tol)) failf("map_to(%g,[%g,%g],[%g,%g]) = %.17g, expected %.17g", a, a, b, c, d, g, c); g = m(b); if (!(fabs(g - d) <= tol)) failf("map_to(%g,[%g,%g],[%g,%g]) = %.17g, expected %.17g", b, a, b, c, d, g, d);
        for (double t : {0.25, 0.5, 0.75, 0.125, -0.5, 1.5, 2.0, 1.0 / 3}) { double x = a + (b - a) * t; long double w = (long double)c + ((long double)d - c) * (((long double)x - a) / ((long double)b - a)); g = m(x); if (!(fabsl(g - w) <= tol * 4)) failf("map_to(%.17g,[%g,%g],[%g,%g]) = %.17g, expected %.17Lg", x, a, b, c, d, g, w); n++; } n += 2; } outcome(hash_bytes(&a, 8, hash_bytes(&b, 8))); }
    count(C_EVALS, n); count(C_TRACES, n); count(C_TRANS, n);
}
void closeness() {
    D = "is_close"; std::vector<float> base{0, 1, -1, 2, 0.5f, 100, -100, 1e-8f, 1e-3f, 16777216.f, 1e10f, 3.14159f, 1e-30f}, tol{-1, -0.5f, -1e-20f, 0, FLT_EPSILON, FLT_EPSILON / 2, FLT_EPSILON * 2, 1e-3f, 0.1f, 0.5f, 1, 2, 1e-6f, 1e-10f, 1e6f}, off{0, FLT_EPSILON / 4, FLT_EPSILON / 2, FLT_EPSILON * 0.999f, FLT_EPSILON, FLT_EPSILON * 1.001f, FLT_EPSILON * 2, 1e-3f, 0.0999f, 0.1f, 0.1001f, 0.5f, 0.49999f, 0.50001f, 1, 0.9999f, 1.0001f, 2, 1e-6f, 1e-10f, 1e5f, 1e6f, 2e6f}; uint64_t n = 0;
    for (float b : base) for (float o : off) for (int sg : {1, -1}) for (float t : tol) for (int sw = 0; sw < 2; sw++) { step(); float r = b + sg * o; float l = sw ? r : b, rr = sw ? b : r; float df = fabsf(l - rr); double dd = fabs((double)l - (double)rr); double lim = t < 0 ? (double)FLT_EPSILON : (double)t; bool w = df < lim; if (w != (dd < lim)) continue; /* rounding of the subtraction decides: not constrained */ bool g = vt_math_is_close(l, rr, t); if (g != w) failf("is_close(%.9g,%.9g,%.9g) = %d", l, rr, t, g); n++; outcome(hash_bytes(&l, 4, hash_bytes(&rr, 4, hash_bytes(&t, 4)))); }
    count(C_EVALS, n); count(C_TRACES, n); count(C_TRANS, n);
}
void roots(int sh, int n) { // every normal exponent x mantissas
    const uint32_t M = thorough() ? 8388608 : 131072; D = "fast square roots"; uint64_t k = 0; double worst = 0;
    for (uint32_t e = 1 + sh; e < 255; e += n) { step(); for (uint32_t m = 0; m < M; m++) { uint32_t bits = e << 23 | m * (8388608 / M) | (m & 1 && M < 8388608 ? 1 : 0); float v; memcpy(&v, &bits, 4); double w = sqrt((double)v); float g = vt_math_sqrt_carmack(v); float gi = vt_math_isqrt_carmack(v); if (!(fabs(g - w) <= w * 1e-6)) failf("sqrt_carmack(%.9g) = %.9g, true %.9g", v, g, w); if (!(fabs(gi - 1 / w) <= 1e-6 / w)) failf("isqrt_carmack(%.9g) = %.9g, true %.9g", v, gi, 1 / w); worst = std::max({worst, fabs(g - w) / w, fabs(gi * w - 1)}); k += 2; } outcome(e); }
    float z = vt_math_sqrt_carmack(0.0f); CHECK(z == 0, "sqrt of zero is %g", z); if (!sh) sample("fast roots: worst relative error %.3g", worst); count(C_EVALS, k); count(C_TRACES, k); count(C_TRANS, k);
}
}
#define FN(T, t) Fn<T>{"vt_cmp_*" #t, vt_cmp_min##t, vt_cmp_max##t, vt_cmp_clamp##t}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); auto J = [](const S_ &n, std::function<void()> f) { add_job(n, [=] { describe = desc; f(); }); };
    J("i8", [] { all_narrow(FN(int8_t, i8)); }); J("u8", [] { all_narrow(FN(uint8_t, u8)); });
    J("i16", [] { wide(FN(int16_t, i16)); }); J("u16", [] { wide(FN(uint16_t, u16)); }); J("i32", [] { wide(FN(int32_t, i32)); }); J("u32", [] { wide(FN(uint32_t, u32)); }); J("i64", [] { wide(FN(int64_t, i64)); }); J("u64", [] { wide(FN(uint64_t, u64)); }); J("f", [] { wide(FN(float, f)); }); J("d", [] { wide(FN(double, d)); }); J("r", [] { wide(FN(real, r)); });
    for (int i = 0; i < 16; i++) { if (T) { J("i16_pairs_" + std::to_string(i), [=] { all16(FN(int16_t, i16), i, 16); }); J("u16_pairs_" + std::to_string(i), [=] { all16(FN(uint16_t, u16), i, 16); }); } uint64_t n = (T ? 20000000 : 2000000) / 16; J("palindrome_" + std::to_string(i), [=] { palindromes(i * n, (i + 1) * n + 1); }); if (i < 8) { J("gcd_" + std::to_string(i), [=] { gcds(i, 8); }); J("roots_" + std::to_string(i), [=] { roots(i, 8); }); } }
    for (int d = 7; d <= 20; d++) J("long_palindrome_" + std::to_string(d), [=] { long_palindromes(d); }); J("map", maps); J("close", closeness);
    return run_main(argc, argv, "C23");
}
