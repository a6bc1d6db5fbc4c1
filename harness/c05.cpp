// C05: split / join / split_between / pop_get_first / pop_get_last.
#include "strutil.hpp"
using namespace mc;
namespace {
typedef std::string str_t; std::string D; std::string desc() { return D; }
void set_desc(const char *op, const str_t &t, const str_t &a, const str_t &b, int v) { D = std::string(op) + " text=" + show(t) + " a=" + show(a) + " b=" + show(b) + " variant=" + std::to_string(v); }
std::vector<str_t> pieces(const str_t &t, const str_t &sep) { std::vector<str_t> r; size_t p = 0; for (;;) { size_t q = t.find(sep, p); str_t w = t.substr(p, q == str_t::npos ? str_t::npos : q - p); if (!w.empty()) r.push_back(w); if (q == str_t::npos) break; p = q + sep.size(); } return r; }
uint64_t hv(const std::vector<str_t> &v) { uint64_t h = v.size(); for (auto &x : v) h = hash_str(x, h * 31 + 7); return h; }
void leak() { CHECK(live_count() == 0, "%zu allocation(s) leaked", live_count()); }
void done(uint64_t h) { outcome(h); count(C_EVALS); count(C_TRANS, 4); count(C_TRACES); }
// variants: 0 no destination; 1 libc destination capacity 1; 2 allocator destination; 3 libc destination that holds stale entries; 4 source with allocator
void split_one(const str_t &t, const str_t &sep, int v) {
    if (sep.size() > t.size()) return;
    set_desc("split", t, sep, "", v); step(); live_reset();
    vt_mallocator_t *al = v == 2 || v == 4 ? vt_mallocator_create() : nullptr; vt_str_t *s = mkstr(t, v == 4 ? al : nullptr, v == 3 ? 7 : 0);
    vt_plist_t *dst = nullptr; static int dummy; if (v == 1) dst = vt_plist_create(1, nullptr); if (v == 2) dst = vt_plist_create(2, al); if (v == 3) { dst = vt_plist_create(2, nullptr); for (int i = 0; i < 3; i++) vt_plist_push_back(dst, &dummy); }
    size_t before = live_count(); bool found = t.find(sep) != str_t::npos;
    vt_plist_t *p = vt_str_split(dst, s, sep.c_str()); auto want = pieces(t, sep);
    check_str(s, t, "split source");
    if (!found) { CHECK(p == nullptr, "split without a separator did not return NULL"); CHECK(live_count() == before, "split without a separator left allocations behind"); if (v == 3) CHECK(vt_plist_len(dst) == 3, "split without a separator changed the destination"); }
    else {
        CHECK(p != nullptr, "split returned NULL"); if (dst) CHECK(p == dst, "split did not use the given list");
        CHECK(vt_plist_len(p) == want.size(), "split: %zu pieces, expected %zu", vt_plist_len(p), want.size());
        for (size_t i = 0; i < want.size(); i++) { vt_str_t *q = (vt_str_t *)vt_plist_get(p, i); char b[32]; snprintf(b, sizeof b, "piece %zu", i); check_str(q, want[i], b); CHECK(vt_array_has_alloctr(q) == (v == 2), "piece %zu does not use the list's allocator", i); }
        // pieces are independent and usable
        for (size_t i = 0; i < want.size(); i++) { vt_str_t *q = (vt_str_t *)vt_plist_get(p, i); vt_str_append(q, "+"); check_str(q, want[i] + "+", "piece edited"); vt_str_destroy(q); }
    }
    if (p || dst) vt_plist_destroy(p ? p : dst);
    vt_str_destroy(s); if (al) vt_mallocator_destroy(al); leak(); done(H(t, hv(want), v));
}
void join_one(const std::vector<str_t> &items, const str_t &sep, int v, bool rt) {
    str_t all; for (auto &x : items) all += "[" + x + "]"; set_desc("join", all, sep, "", v); step(); live_reset();
    vt_mallocator_t *al = v == 2 ? vt_mallocator_create() : nullptr; vt_str_t *dst = nullptr; str_t pre;
    if (v == 1) dst = vt_str_create_capacity(1, nullptr); if (v == 2) { dst = vt_str_create("pre", al); pre = "pre"; } if (v == 3) { dst = vt_str_create("x", nullptr); pre = "x"; }
    std::vector<std::unique_ptr<Z>> zs; vt_plist_t *p = vt_plist_create(items.size() ? items.size() : 1, nullptr); for (auto &x : items) { zs.emplace_back(new Z(x)); vt_plist_push_back(p, zs.back()->p); }
    str_t want = pre; for (size_t i = 0; i < items.size(); i++) { if (i) want += sep; want += items[i]; }
    Z zsep(sep); vt_str_t *r = vt_str_join(dst, zsep, p); if (dst) CHECK(r == dst, "join did not use the given string"); check_str(r, want, "join");
    CHECK(vt_plist_len(p) == items.size(), "join changed the list"); for (size_t i = 0; i < items.size(); i++) CHECK(vt_plist_get(p, i) == zs[i]->p && items[i] == zs[i]->p, "join changed item %zu", i);
    if (rt && items.size() > 1 && !sep.empty() && pre.empty()) { bool clean = true; for (auto &x : items) if (x.empty() || x.find(sep) != str_t::npos) clean = false;
        // the separator must not arise across a boundary either
        if (clean && pieces(want, sep) == items) { vt_plist_t *q = vt_str_split(nullptr, r, zsep); CHECK(q && vt_plist_len(q) == items.size(), "splitting the join gives %zu pieces, not %zu", q ? vt_plist_len(q) : 0, items.size()); for (size_t i = 0; i < items.size(); i++) { check_str((vt_str_t *)vt_plist_get(q, i), items[i], "round trip"); vt_str_destroy((vt_str_t *)vt_plist_get(q, i)); } vt_plist_destroy(q); } }
    vt_str_destroy(r); vt_plist_destroy(p);
    // the variadic form gives the same text
    if (items.size() && items.size() <= 5) { vt_str_t *d2 = v == 2 ? vt_str_create("pre", al) : v == 3 ? vt_str_create("x", nullptr) : v == 1 ? vt_str_create_capacity(1, nullptr) : nullptr; auto z = [&](size_t i) { return i < zs.size() ? zs[i]->p : nullptr; };
        size_t n = items.size(); vt_str_t *j = n == 1 ? vt_str_join_n(d2, zsep, n, z(0)) : n == 2 ? vt_str_join_n(d2, zsep, n, z(0), z(1)) : n == 3 ? vt_str_join_n(d2, zsep, n, z(0), z(1), z(2)) : n == 4 ? vt_str_join_n(d2, zsep, n, z(0), z(1), z(2), z(3)) : vt_str_join_n(d2, zsep, n, z(0), z(1), z(2), z(3), z(4));
        if (d2) CHECK(j == d2, "join_n did not use the given string"); check_str(j, want, "join_n"); vt_str_destroy(j); }
    if (al) vt_mallocator_destroy(al); leak(); done(H(want, 77, v));
}
template <size_t... I> vt_str_t *join_many(vt_str_t *d, const char *sep, const std::vector<str_t> &g, std::index_sequence<I...>) { return vt_str_join_n(d, sep, g.size(), (I < g.size() ? g[I].c_str() : nullptr)...); }
void join_many_one(size_t n, const str_t &sep) { std::vector<str_t> g; str_t want; for (size_t i = 0; i < n; i++) { g.push_back(str_t(i % 4, (char)('a' + i % 26))); want += (i ? sep : "") + g.back(); } for (const char *pre : {(const char *)nullptr, "", "pre"}) { set_desc("join_n", std::to_string(n) + " pieces", sep, pre ? pre : "no destination", 0); step(); live_reset(); vt_str_t *d = pre ? mkstr(pre) : nullptr, *r = n <= 70 ? join_many(d, sep.c_str(), g, std::make_index_sequence<70>()) : join_many(d, sep.c_str(), g, std::make_index_sequence<300>()); CHECK(!d || r == d, "a different string was returned"); check_str(r, (pre ? pre : "") + want, "join_n"); vt_str_destroy(r); leak(); done(H(want, n, 5)); } }
void between_one(const str_t &t, const str_t &l, const str_t &r, int v) {
    set_desc("split_between", t, l, r, v); step(); live_reset(); vt_mallocator_t *al = v == 2 ? vt_mallocator_create() : nullptr;
    vt_str_t *dst = v == 1 ? vt_str_create_capacity(1, nullptr) : v == 2 ? vt_str_create("old content", al) : v == 3 ? vt_str_create("q", nullptr) : nullptr; str_t old = dst ? str(dst) : "";
    size_t before = live_count(); Z zt(t), zl(l), zr(r); vt_str_t *x = vt_str_split_between(dst, zt, zl, zr);
    size_t a = t.find(l), b = a == str_t::npos ? a : t.find(r, a + l.size()); str_t want;
    if (b == str_t::npos) { CHECK(x == nullptr, "split_between without both delimiters did not return NULL"); CHECK(live_count() == before, "left allocations behind"); if (dst) check_str(dst, old, "destination of a failed split_between"); }
    else { want = t.substr(a + l.size(), b - a - l.size()); if (dst) CHECK(x == dst, "did not use the given string"); check_str(x, want, "split_between"); vt_str_append(x, "tail"); check_str(x, want + "tail", "split_between result edited"); }
    if (x || dst) vt_str_destroy(x ? x : dst); if (al) vt_mallocator_destroy(al); leak(); done(H(want, 99 + (b == str_t::npos), v));
}
void pop_one(const str_t &t, const str_t &sep, int v, bool firstp) {
    set_desc(firstp ? "pop_get_first" : "pop_get_last", t, sep, "", v); step(); live_reset(); vt_mallocator_t *al = v == 2 || v == 4 ? vt_mallocator_create() : nullptr;
    vt_str_t *s = mkstr(t, v == 4 ? al : nullptr, v == 3 ? 4 : 0); if (v == 5) { vt_str_append(s, sep.c_str()); vt_str_append(s, "stale"); vt_str_append(s, sep.c_str()); vt_str_remove(s, t.size(), SIZE_MAX); }
    vt_str_t *dst = v == 1 ? vt_str_create_capacity(1, nullptr) : v == 2 ? vt_str_create("old", al) : v == 3 ? vt_str_create("a much longer destination", nullptr) : nullptr; str_t old = dst ? str(dst) : "";
    size_t before = live_count(); Z zsep(sep); vt_str_t *x = firstp ? vt_str_pop_get_first(dst, s, zsep) : vt_str_pop_get_last(dst, s, zsep);
    size_t at = str_t::npos; if (!sep.empty()) { if (firstp) at = t.find(sep); else for (size_t p = 0; (p = t.find(sep, p)) != str_t::npos; p += sep.size()) at = p; }
    str_t piece, rest = t; if (at != str_t::npos) { piece = firstp ? t.substr(0, at) : t.substr(at + sep.size()); if (!piece.empty()) rest = firstp ? t.substr(at + sep.size()) : t.substr(0, at); }
    check_str(s, rest, "remaining text");
    if (piece.empty()) { CHECK(x == dst, "nothing to pop, but the result is not the given destination"); CHECK(live_count() == before, "left allocations behind"); if (dst) check_str(dst, old, "destination"); }
    else { if (dst) CHECK(x == dst, "did not use the given string"); check_str(x, piece, "popped piece"); vt_str_append(x, "tail"); check_str(x, piece + "tail", "popped piece edited"); }
    if (x || dst) vt_str_destroy(x ? x : dst); vt_str_destroy(s); if (al) vt_mallocator_destroy(al); leak(); done(H(piece + "|" + rest, 55 + firstp, v));
}
// popping from a growing side until nothing is left returns the pieces of the text in order
void drain(const str_t &t, const str_t &sep, bool firstp) {
    set_desc(firstp ? "drain first" : "drain last", t, sep, "", 0); step(); live_reset(); vt_str_t *s = mkstr(t); vt_str_t *d = vt_str_create_capacity(1, nullptr); std::vector<str_t> got; Z z(sep);
    for (int i = 0; i < 20; i++) { str_t b = str(s); vt_str_clear(d); vt_str_t *x = firstp ? vt_str_pop_get_first(d, s, z) : vt_str_pop_get_last(d, s, z); CHECK(x == d, "destination not returned"); if (vt_str_is_empty(d)) { check_str(s, b, "unchanged"); break; } got.push_back(str(d)); }
    str_t re; if (firstp) { for (auto &g : got) re += g + sep; re += str(s); } else { re = str(s); for (size_t i = got.size(); i-- > 0;) re += sep + got[i]; }
    CHECK(re == t, "pieces and rest do not add up: %s", show(re).c_str()); vt_str_destroy(d); vt_str_destroy(s); leak(); done(H(t, hv(got), 3 + firstp));
}
str_t fill(size_t n, int salt) { str_t w; for (size_t i = 0; i < n; i++) w += (char)('A' + (i * 5 + salt * 3) % 26); return w; } // never contains a small letter
// every (length before, separator length, length behind), delimiters of every length, lists of every size with separators of every length
void cube(size_t a) {
    describe = desc; auto sepof = [](size_t k, char c) { str_t s; for (size_t i = 0; i < k; i++) s += (char)(c + i % 12); return s; };
    for (size_t b = 0; b <= 44; b++) for (size_t k = 1; k <= 12; k++) { str_t sep = sepof(k, 'a'), t = fill(a, 1) + sep + fill(b, 2), u = t + sep + fill((a + b) % 7, 3); int v = (int)(a + b + k);
        split_one(t, sep, v % 5); split_one(u, sep, (v + 2) % 5); pop_one(t, sep, v % 6, true); pop_one(t, sep, (v + 1) % 6, false); pop_one(u, sep, (v + 3) % 6, true); pop_one(u, sep, (v + 4) % 6, false); }
    if (a <= 20) for (size_t b = 0; b <= 44; b++) for (size_t k = 1; k <= 7; k++) for (size_t m = 1; m <= 7; m++) between_one(fill(a, 1) + sepof(k, 'a') + fill(b, 2) + sepof(m, 'n') + "TAIL", sepof(k, 'a'), sepof(m, 'n'), (int)(a + b + k + m) % 4);
    for (size_t n = 1; n <= 90; n++) { std::vector<str_t> it; for (size_t i = 0; i < n; i++) it.push_back(fill((i * 3 + a) % 6 + (i == a ? 40 : 1), (int)i)); str_t sep = sepof(a % 9, 'a'); join_one(it, sep, (int)(n + a) % 4, true); if (a % 9 > 2) join_many_one(n, sep); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); describe = desc;
    auto t2 = words("a,", 1, deep() ? 14 : T ? 12 : 8), t3 = words("ab,", 1, deep() ? 8 : T ? 7 : 5), s2 = words("a,", 1, 3), s3 = words("ab,", 1, 2);
    auto chunked = [&](const char *n, const std::vector<str_t> &t, const std::vector<str_t> &seps, size_t chunk) { for (size_t lo = 0; lo < t.size(); lo += chunk) add_job(n + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(t.size(), lo + chunk); i++) for (auto &s : seps) { for (int v = 0; v < 5; v++) split_one(t[i], s, v); for (int v = 0; v < 6; v++) { pop_one(t[i], s, v, true); pop_one(t[i], s, v, false); } drain(t[i], s, true); drain(t[i], s, false); } }); };
    chunked("split2_", t2, s2, T ? 96 : 16); chunked("split3_", t3, s3, T ? 128 : 16);
    { auto ls = words("ab", 3, T ? 6 : 5); for (size_t lo = 0; lo < ls.size(); lo += 4) add_job("longsep_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(ls.size(), lo + 4); i++) { const str_t &l = ls[i]; // delimiters and separators of several bytes that overlap themselves and each other
        for (auto &r : words("ab", 1, 4)) for (auto &w : words("ab", 0, 4)) { int v = (int)(w.size() + r.size()) % 4; between_one(l + w, l, r, v); between_one("b" + l + w + r, l, r, v); if (w.size() < 3) between_one(w + r + l + r, r, l, v); }
        str_t tok[4] = {l, "a", "b", l.substr(0, l.size() - 1)}; for (size_t n = 0; n < 1024; n++) { str_t t; for (size_t k = n, j = 0; j < 5; j++, k /= 4) t += tok[k % 4]; int v = (int)(n % 5); split_one(t, l, v); pop_one(t, l, v, true); pop_one(t, l, v, false); } } }); }
    add_job("pop_edge", [] { describe = desc; for (auto &t : words("a,", 0, 3)) for (auto &s : words("a,", 0, 4)) for (int v = 0; v < 6; v++) { pop_one(t, s, v, true); pop_one(t, s, v, false); } });
    auto bt = words("a[]", 0, T ? 7 : 6), bd = words("[]a", 1, 2);
    for (size_t lo = 0; lo < bt.size(); lo += 40) add_job("between_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(bt.size(), lo + 40); i++) for (auto &l : bd) for (auto &r : bd) for (int v = 0; v < 4; v++) { if (v > 1 && (i + v) % 3) continue; between_one(bt[i], l, r, v); } });
    auto items = words("a,", 0, 2);
    for (size_t n = 1; n <= (T ? 5u : 4u); n++) for (size_t f = 0; f < items.size(); f++) add_job("join_" + std::to_string(n) + "_" + std::to_string(f), [=] { describe = desc; std::vector<size_t> ix(n, 0); ix[0] = f; for (;;) { std::vector<str_t> it; for (size_t k : ix) it.push_back(items[k]); for (auto &sep : {str_t(""), str_t(","), str_t(",,"), str_t("-"), str_t("a,a")}) for (int v = 0; v < 4; v++) join_one(it, sep, v, true); size_t k = n - 1; while (k > 0 && ++ix[k] == items.size()) ix[k--] = 0; if (k == 0) break; } });
    add_job("long", [=] { describe = desc; for (size_t n = 1; n <= (deep() ? 900u : T ? 400u : 160u); n++) { std::vector<str_t> it; str_t t; for (size_t i = 0; i < n % 40 + 2; i++) { str_t w(1 + (i * 7 + n) % 23, (char)('a' + i % 26)); if (i % 9 == 4) w = str_t(n, 'q'); it.push_back(w); t += (i ? "::" : "") + w; }
        for (int v = 0; v < 4; v++) join_one(it, "::", v, true); for (int v = 0; v < 5; v++) split_one(t, "::", v); for (int v = 0; v < 6; v++) { pop_one(t, "::", v, true); pop_one(t, "::", v, false); }
        str_t body(n, 'm'); for (int v = 0; v < 4; v++) { between_one("pre<<" + body + ">>post<<x>>", "<<", ">>", v); between_one(body + "<" + body + ">", "<", ">", v); } } });
    add_job("bytes", [] { describe = desc; for (int b = 1; b < 256; b++) { str_t c(1, (char)b), o(1, (char)(b == 0x41 ? 0x42 : 0x41)), h(1, (char)((b ^ 0x80) ? (b ^ 0x80) : 9)); str_t t = o + c + h + c + c + o + h; for (int v = 0; v < 5; v++) split_one(t, c, v); for (int v = 0; v < 6; v++) { pop_one(t, c, v, true); pop_one(t, c, v, false); } for (int v = 0; v < 4; v++) { between_one(t, c, h, v); between_one(t, c, c, v); join_one({o + h, h, o}, c, v, true); } } });
    for (size_t n : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 70001}) add_job("large_" + std::to_string(n), [=] { describe = desc; str_t w(n, 'w'), sp(n, ' '), digits; for (size_t i = 0; i < n; i++) digits += (char)('0' + i % 10); str_t lsep = str_t(n, 's') + "e";
        std::vector<str_t> ts{w + "::" + digits, digits + "::x", "x::" + digits, sp + "::" + w, w + "::" + sp, "q::" + w + "::" + sp + " ", digits + w + "::", "::" + sp + w};
        for (auto &t : ts) { for (int v = 0; v < 5; v++) split_one(t, "::", v); for (int v = 0; v < 6; v++) { pop_one(t, "::", v, true); pop_one(t, "::", v, false); } drain(t, "::", true); drain(t, "::", false); }
        for (int v = 0; v < 5; v++) split_one("a" + lsep + "b" + lsep + "cc", lsep, v);
        for (int v = 0; v < 6; v++) { pop_one("a" + lsep + "b" + lsep + "cc", lsep, v, true); pop_one("a" + lsep + "b" + lsep + "cc", lsep, v, false); }
        for (int v = 0; v < 4; v++) { between_one(w + "<" + digits + ">" + w, "<", ">", v); between_one("<" + sp + ">", "<", ">", v); between_one(w + lsep + "k" + lsep, lsep, lsep, v); join_one({w, sp, digits}, ":", v, true); join_one({"a", "b"}, lsep, v, true); }
        str_t manyt; std::vector<str_t> items; for (size_t i = 0; i < n; i++) { str_t it(1, (char)('a' + i % 26)); items.push_back(it); manyt += (i ? "," : "") + it; }
        if (n < 9000 || n == 65537 || thorough()) split_one(manyt, ",", 0); if (n < 9000 || thorough()) split_one(manyt, ",", 2); pop_one(manyt, ",", 0, true); pop_one(manyt, ",", 0, false); join_one(items, ",", 0, true); join_one(items, "::", 3, true); });
    add_job("join_many", [=] { describe = desc; for (size_t n = 1; n <= 300; n++) for (auto &sep : {str_t(""), str_t(","), str_t("::")}) join_many_one(n, sep); });
    for (size_t a = 0; a <= 44; a++) add_job("cube_" + std::to_string(a), [=] { cube(a); });
    return run_main(argc, argv, "C05");
}
