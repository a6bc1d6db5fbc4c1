// C06: strip / strip_punct / strip_c, case mapping, numeric test, equality.
#include "strutil.hpp"
using namespace mc;
namespace {
typedef std::string str_t; std::string D; std::string desc() { return D; }
// C-locale classes written out, independent of <ctype.h>
bool sp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool alnum_(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool pu(unsigned char c) { return c > 32 && c < 127 && !alnum_(c); }
template <class F> str_t strip_ref(const str_t &t, F in) { size_t a = 0, b = t.size(); while (a < b && in((unsigned char)t[a])) a++; while (b > a && in((unsigned char)t[b - 1])) b--; return t.substr(a, b - a); }
vt_str_t *make(const str_t &t, int v) { vt_str_t *s; switch (v) { case 0: s = mkstr(t); vt_str_shrink(s); return s; case 1: return mkstr(t, nullptr, 6); default: s = mkstr(t + " .,z9 "); vt_str_remove(s, t.size(), SIZE_MAX); return s; } }
void fin(vt_str_t *s, const str_t &want, const char *op) { check_str(s, want, op); outcome(H(want, op[0], op[1])); count(C_EVALS); count(C_TRANS, 4); count(C_TRACES); vt_str_append(s, "end"); check_str(s, want + "end", "edited afterwards"); vt_str_destroy(s); CHECK(live_count() == 0, "leak"); }
void unary(const str_t &t, int v) {
    auto go = [&](const char *op, auto f, const str_t &want) { D = std::string(op) + " " + show(t) + " variant " + std::to_string(v); step(); live_reset(); vt_str_t *s = make(t, v); f(s); fin(s, want, op); };
    go("strip", [](vt_str_t *s) { vt_str_strip(s); }, strip_ref(t, sp));
    go("strip_punct", [](vt_str_t *s) { vt_str_strip_punct(s); }, strip_ref(t, [](unsigned char c) { return sp(c) || pu(c); }));
    str_t up = t, lo = t; for (auto &c : up) if (c >= 'a' && c <= 'z') c -= 32; for (auto &c : lo) if (c >= 'A' && c <= 'Z') c += 32;
    go("to_uppercase", [](vt_str_t *s) { vt_str_to_uppercase(s); }, up); go("to_lowercase", [](vt_str_t *s) { vt_str_to_lowercase(s); }, lo);
    bool num = true; for (char c : t) if (!((c >= '0' && c <= '9') || c == '.')) num = false;
    go("numeric test", [&](vt_str_t *s) { CHECK(vt_str_is_numeric(s) == num, "is_numeric = %d", !num); if (!t.empty()) { Z z(t); CHECK(vt_str_is_numeric_z(z, t.size()) == num, "is_numeric_z = %d", !num);
        for (size_t k = 1; k < t.size(); k++) { bool nk = true; for (size_t i = 0; i < k; i++) if (!((t[i] >= '0' && t[i] <= '9') || t[i] == '.')) nk = false; CHECK(vt_str_is_numeric_z(z, k) == nk, "is_numeric_z of the first %zu", k); } } }, t);
}
void big(const str_t &t, int v) { // the numeric test of a long text at its own length and a few prefixes only
    bool num = true; size_t firstbad = t.size(); for (size_t i = t.size(); i-- > 0;) if (!((t[i] >= '0' && t[i] <= '9') || t[i] == '.')) { num = false; firstbad = i; }
    D = "long text of " + std::to_string(t.size()) + " bytes, variant " + std::to_string(v); step(); live_reset(); vt_str_t *s = make(t, v); Z z(t); CHECK(vt_str_is_numeric(s) == num, "is_numeric = %d", !num); CHECK(vt_str_is_numeric_z(z, t.size()) == num, "is_numeric_z = %d", !num); if (firstbad && firstbad < t.size()) { CHECK(vt_str_is_numeric_z(z, firstbad), "is_numeric_z of the numeric prefix"); CHECK(!vt_str_is_numeric_z(z, firstbad + 1), "is_numeric_z of the prefix with the first other byte"); }
    vt_str_strip(s); check_str(s, strip_ref(t, sp), "strip"); vt_str_destroy(s); s = make(t, v); vt_str_strip_punct(s); check_str(s, strip_ref(t, [](unsigned char c) { return sp(c) || pu(c); }), "strip_punct"); vt_str_destroy(s);
    str_t up = t, lo = t; for (auto &c : up) if (c >= 'a' && c <= 'z') c -= 32; for (auto &c : lo) if (c >= 'A' && c <= 'Z') c += 32;
    s = make(t, v); vt_str_to_uppercase(s); check_str(s, up, "to_uppercase"); vt_str_to_lowercase(s); check_str(s, lo, "to_lowercase"); fin(s, lo, "long text");
    s = make(t, v); { Z zz(t); vt_str_t *y = make(t, 0); CHECK(vt_str_equals(s, y) && vt_str_equals_z(zz, z) && vt_str_equals_n(zz, z, t.size()), "equal long texts differ"); str_t u = t; u.back() ^= 1; if (!u.back()) u.back() = 'Q'; Z zu(u); vt_str_t *w = make(u, 2); CHECK(!vt_str_equals(s, w) && !vt_str_equals_z(zu, z) && !vt_str_equals_n(zu, z, t.size()), "long texts that differ in the last byte are equal"); CHECK(vt_str_equals_n(zu, z, t.size() - 1), "equals_n before the difference"); CHECK(vt_str_starts_with(s, z) && vt_str_ends_with(s, z) && !vt_str_starts_with(s, zu) && !vt_str_ends_with(s, zu), "starts/ends_with of a long text"); vt_str_destroy(y); vt_str_destroy(w); } vt_str_destroy(s); CHECK(live_count() == 0, "leak");
}
void stripc(const str_t &t, const str_t &set, int v) { D = "strip_c " + show(t) + " set " + show(set) + " variant " + std::to_string(v); step(); live_reset(); vt_str_t *s = make(t, v); { Z z(set); vt_str_strip_c(s, z); } fin(s, strip_ref(t, [&](unsigned char c) { return set.find((char)c) != str_t::npos; }), "C strip_c"); }
void pair(const str_t &a, const str_t &b) {
    D = "compare " + show(a) + " with " + show(b); step(); live_reset(); vt_str_t *x = make(a, 2), *y = make(b, a.size() & 1); Z za(a), zb(b); bool eq = a == b;
    CHECK(vt_str_equals(x, y) == eq, "equals = %d", !eq); CHECK(vt_str_equals_z(za, zb) == eq, "equals_z = %d", !eq);
    for (size_t n = 1; n <= std::min(a.size(), b.size()); n++) { bool e = a.compare(0, n, b, 0, n) == 0; CHECK(vt_str_equals_n(za, zb, n) == e, "equals_n(%zu) = %d", n, !e); }
    bool sw = a.size() >= b.size() && !a.compare(0, b.size(), b), ew = a.size() >= b.size() && !a.compare(a.size() - b.size(), b.size(), b);
    CHECK(vt_str_starts_with(x, zb) == sw, "starts_with = %d", !sw); CHECK(vt_str_ends_with(x, zb) == ew, "ends_with = %d", !ew);
    check_str(x, a, "compared string"); check_str(y, b, "compared string"); vt_str_destroy(x); vt_str_destroy(y); CHECK(live_count() == 0, "leak"); outcome(H(a + "/" + b, eq, sw * 2 + ew)); count(C_EVALS); count(C_TRANS, 4); count(C_TRACES);
}
// one odd character at every position of every length; every number of strippable characters before and behind
void odd(size_t lo, size_t hi) { describe = desc; for (size_t n = lo; n < hi; n++) for (size_t i = 0; i < n; i++) for (char base : {'k', 'K', '7', ' '}) for (char c : {'q', 'Q', '3', '.', ' ', '\xe9'}) { str_t t(n, base); t[i] = c; unary(t, (int)(n + i) % 3); if (base == 'k' && c != 'q') { str_t u(n, base); pair(t, u); if (c == 'Q') { u[i] = 'q'; pair(t, u); } } } }
void margins(size_t a) { describe = desc; static const char *W[] = {" ", "\t \n", ".", " ,;", "ab"}; for (size_t b = 0; b <= 44; b++) for (size_t c = 0; c <= 4; c++) for (auto &w : W) { str_t m(w), t; for (size_t i = 0; i < a; i++) t += m[i % m.size()]; t += str_t("Q.7 z").substr(0, c); if (c == 2 || c == 4) t.back() = 'Z'; for (size_t i = 0; i < b; i++) t += m[(i * 2 + 1) % m.size()]; if (m != "ab") unary(t, (int)(a + b) % 3); stripc(t, m, b & 1 ? 2 : 0); } }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); describe = desc;
    str_t alpha = " \n.aZ7\xe9\x01"; static auto ws = words(alpha, 0, mc::deep() ? 7 : T ? 6 : 5); size_t ch = mc::deep() ? 16384 : T ? 4096 : 1024;
    for (size_t lo = 0; lo < ws.size(); lo += ch) add_job("unary_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(ws.size(), lo + ch); i++) for (int v : {0, 1, 2}) { if (v == 1 && i % 4) continue; unary(ws[i], v); } });
    static auto deep = words(" a.", 6, T ? 9 : 7); for (size_t lo = 0; lo < deep.size(); lo += ch) add_job("deep_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(deep.size(), lo + ch); i++) unary(deep[i], i & 1 ? 0 : 2); });
    for (int a = 1; a < 256; a += 16) add_job("bytes_" + std::to_string(a), [=] { describe = desc; for (int x = a; x < a + 16 && x < 256; x++) { unary(str_t(1, (char)x), 0); unary(str_t("m") + (char)x + "m", 0); for (int y = 1; y < 256; y++) { str_t t; t += (char)x; t += (char)y; unary(t, 0); if (T || y % 5 == 0) unary(str_t(1, (char)x) + "k" + (char)y, 2); stripc(t, str_t(1, (char)y), 0); stripc(t, str_t(1, (char)x) + "!", 0); } } });
    auto st = words("abc", 0, T ? 7 : 6), ss = words("abc", 0, 3); for (size_t lo = 0; lo < st.size(); lo += 100) add_job("stripc_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(st.size(), lo + 100); i++) for (auto &s : ss) for (int v : {0, 2}) stripc(st[i], s, v); });
    for (size_t lo = 0; lo < 8; lo++) add_job("stripset_" + std::to_string(lo), [=] { describe = desc; for (size_t n = lo + 1; n <= 200; n += 8) { str_t set; for (size_t i = 0; i < n; i++) set += (char)(1 + (i * 37 + n) % 251); // sets of every size, each member at either edge, alone and repeated
        for (size_t i = 0; i < n; i++) { str_t c(1, set[i]); char out = (char)253; stripc(c + out + c, set, i & 1 ? 2 : 0); if (T || i % 7 == 0 || i + 1 == n) { stripc(c + c + "\xfe" + c + "\xfe" + c + c, set, 0); stripc(str_t(1, out) + c, set, 2); stripc(c + out, set, 0); stripc(c, set, 0); } } stripc(set, set, 0); stripc(set + "\xfe" + set, set, 0); } });
    static auto pw = words("ab\xe9", 0, T ? 6 : 4); for (size_t lo = 0; lo < pw.size(); lo += 8) add_job("pair_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(pw.size(), lo + 8); i++) for (auto &b : pw) pair(pw[i], b); });
    add_job("bytes_eq", [] { describe = desc; for (int x = 1; x < 256; x++) for (int y = 1; y < 256; y++) pair(str_t("p") + (char)x, str_t("p") + (char)y); });
    add_job("lengths", [=] { describe = desc; for (size_t n = 0; n <= (mc::deep() ? 3000u : T ? 1200u : 300u); n++) { str_t a(n, ' '); unary(a, n % 3); unary(a + "x" + a, n % 3); unary("y" + a + "y", 0); unary(a + ".", 2); unary("." + a + "q9", 0); stripc(str_t(n, 'a') + "b" + str_t(n, 'a'), "a", 0); str_t b(n, 'k'); pair(b, b); if (n) { str_t c = b; c[n - 1] = 'j'; pair(b, c); c = b; c[n / 2] = 'K'; pair(b, c); c = b; c[0] = '\x80'; pair(b, c); pair(b, b.substr(1)); } } });
    for (size_t n : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 70001}) add_job("large_" + std::to_string(n), [=] { describe = desc; str_t d(n, '7'), spc(n, ' '), pun(n, '.'), low(n, 'q'), upp(n, 'Q'); for (size_t i = 0; i < n; i += 3) spc[i] = "\t\n\v\f\r "[i % 6];
        std::vector<str_t> ts{d, d + "x", d + ".5", d + "x" + d, "1." + d, spc, spc + "x", "x" + spc, spc + "a b" + spc, pun + "x" + pun, low + upp, upp + low + "7", spc + pun + low + pun + spc, d + "\xe9", "z" + d};
        for (auto &t : ts) for (int v : {0, 1, 2}) big(t, v); for (int v : {0, 2}) { stripc(low + "b" + low, "q", v); stripc(low, "q", v); stripc("b" + low + "b", "q", v); stripc("bqb", low + "b", v); stripc(spc + "x" + spc, " \t\n\v\f\r", v); } });
    for (size_t lo = 1; lo < 72; lo += lo < 40 ? 6 : 2) add_job("odd_" + std::to_string(lo), [=] { odd(lo, lo + (lo < 40 ? 6 : 2)); }); for (size_t lo : {80, 90, 95, 99, 100, 101, 120, 127, 128, 129}) add_job("odd_" + std::to_string(lo), [=] { odd(lo, lo + 1); }); for (size_t a = 0; a <= 44; a++) add_job("margins_" + std::to_string(a), [=] { margins(a); });
    return run_main(argc, argv, "C06");
}
