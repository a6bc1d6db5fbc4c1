// C26: index mappings, memory primitives, status names.
#include "fileops.hpp"
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; }
void one() { count(C_TRACES); count(C_EVALS); count(C_TRANS); }
void d2(size_t nr, size_t nc, bool all) {
    D = "shape " + std::to_string(nr) + "x" + std::to_string(nc); step(); size_t want = 0;
    auto at = [&](size_t r, size_t c, size_t w) { size_t i = vt_index_2d_to_1d(r, c, nc); if (i != w) failf("(%zu,%zu) maps to %zu, expected %zu", r, c, i, w); size_t a = 77, b = 77; vt_index_1d_to_2d(&a, &b, i, nc); if (a != r || b != c) failf("%zu maps back to (%zu,%zu), expected (%zu,%zu)", i, a, b, r, c); one(); };
    if (all) { for (size_t r = 0; r < nr; r++) for (size_t c = 0; c < nc; c++) at(r, c, want++); } else for (size_t r : {(size_t)0, (size_t)1, nr / 2, nr - 2, nr - 1}) for (size_t c : {(size_t)0, (size_t)1, nc / 2, nc - 2, nc - 1}) at(r, c, (size_t)((unsigned __int128)r * nc + c)); outcome(hash_str(D));
}
void d3(size_t nr, size_t nc, size_t nd, bool all) {
    D = "shape " + std::to_string(nr) + "x" + std::to_string(nc) + "x" + std::to_string(nd); step(); size_t want = 0;
    auto at = [&](size_t r, size_t c, size_t d, size_t w) { size_t i = vt_index_3d_to_1d(r, c, d, nr, nc); if (i != w) failf("(%zu,%zu,%zu) maps to %zu, expected %zu", r, c, d, i, w); size_t a = 77, b = 77, e = 77; vt_index_1d_to_3d(&a, &b, &e, i, nr, nc); if (a != r || b != c || e != d) failf("%zu maps back to (%zu,%zu,%zu), expected (%zu,%zu,%zu)", i, a, b, e, r, c, d); one(); };
    if (all) { for (size_t d = 0; d < nd; d++) for (size_t r = 0; r < nr; r++) for (size_t c = 0; c < nc; c++) at(r, c, d, want++); } else for (size_t d : {(size_t)0, (size_t)1, nd - 1}) for (size_t r : {(size_t)0, (size_t)1, nr / 2, nr - 1}) for (size_t c : {(size_t)0, (size_t)1, nc / 2, nc - 1}) at(r, c, d, (d * nr + r) * nc + c); outcome(hash_str(D));
}
void shapes(size_t sh, size_t n) {
    const size_t N2 = thorough() ? 120 : 60, N3 = thorough() ? 26 : 16; for (size_t r = 1 + sh; r <= N2; r += n) for (size_t c = 1; c <= N2; c++) d2(r, c, true); for (size_t r = 1 + sh; r <= N3; r += n) for (size_t c = 1; c <= N3; c++) for (size_t d = 1; d <= N3; d++) d3(r, c, d, true);
    if (sh == 0) { std::vector<size_t> big{7, 1009, 46341, 65535, 65536, 65537, 1000003, 4294967291u, 4294967295u, 4294967296ull, 4294967297ull, (1ull << 40) + 1}; for (size_t r : big) for (size_t c : big) if ((unsigned __int128)r * c <= SIZE_MAX) { d2(r, c, false); for (size_t d : big) if ((unsigned __int128)r * c * d <= SIZE_MAX) d3(r, c, d, false); } }
}
void swaps() {
    const size_t N = thorough() ? 600 : 200; std::vector<size_t> sz; for (size_t n = 1; n <= N; n++) sz.push_back(n); for (size_t n : {255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65536, 100001}) sz.push_back(n);
    for (size_t n : sz) for (int same = 0; same < 2; same++) { D = "gswap of " + std::to_string(n) + " bytes" + (same ? " with itself" : ""); step(); live_reset(); char *a = (char *)malloc(n), *b = (char *)malloc(n); S_ x = pattern(n, 1), y = pattern(n, 2); memcpy(a, x.data(), n); memcpy(b, y.data(), n); if (same) { vt_gswap(a, a, n); CHECK(S_(a, n) == x && S_(b, n) == y, "swapping an object with itself changed it"); } else { vt_gswap(a, b, n); CHECK(S_(a, n) == y && S_(b, n) == x, "the objects were not exchanged exactly"); } CHECK(live_count() == 0, "leak"); free(a); free(b); one(); outcome(hash_str(D)); }
    // neighbouring elements of one array
    for (size_t es = 1; es <= 40; es++) for (size_t i = 0; i < 5; i++) for (size_t j = 0; j < 5; j++) { D = "gswap of array elements"; step(); S_ x = pattern(5 * es, 3); char *a = (char *)malloc(5 * es); memcpy(a, x.data(), 5 * es); vt_gswap(a + i * es, a + j * es, es); S_ w = x; w.replace(i * es, es, x, j * es, es); w.replace(j * es, es, x, i * es, es); CHECK(S_(a, 5 * es) == w, "elements %zu and %zu of size %zu", i, j, es); free(a); one(); }
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { D = "pswap"; step(); int t[4]; void *p[5] = {&t[0], nullptr, &t[2], &t[3], &t[1]}; void *w[5]; memcpy(w, p, sizeof w); std::swap(w[i], w[j]); vt_pswap(&p[i], &p[j]); CHECK(!memcmp(p, w, sizeof w), "pointers %d and %d", i, j); one(); }
}
void moves(size_t sh, size_t n) { // every overlap
    const size_t N = thorough() ? 96 : 40; for (size_t len = sh; len <= N; len += n) for (size_t s = 0; s <= N; s++) for (size_t d = 0; d <= N; d++) { step(); size_t tot = std::max(s, d) + len; if (!tot) tot = 1; D = "memmove of " + std::to_string(len) + " from " + std::to_string(s) + " to " + std::to_string(d); S_ x = pattern(tot, 4), w = x; char *a = (char *)malloc(tot); memcpy(a, x.data(), tot); S_ piece = x.substr(s, len); w.replace(d, len, piece); void *r = vt_memmove(a + d, a + s, len); CHECK(r == a + d, "returned another pointer"); CHECK(S_(a, tot) == w, "other bytes than asked for"); free(a); one(); if ((s + d) % 16 == 0) outcome(hash_str(D)); }
}
void far_bytes(size_t n) { // a difference, an overlap or a leftover far into a long range
    D = "ranges of " + std::to_string(n) + " bytes"; S_ x = pattern(n, 5); std::vector<size_t> at; for (size_t i = 0; i < n; i += n < 5000 ? 1 : n < 100000 ? 251 : 20011) at.push_back(i); for (size_t b : {255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537}) if (b < n) at.push_back(b); for (size_t i = 1; i <= 20 && i <= n; i++) at.push_back(n - i);
    char *a = (char *)malloc(n), *b = (char *)malloc(n); memcpy(a, x.data(), n); memcpy(b, x.data(), n); CHECK(vt_memcmp(a, b, n), "equal ranges"); for (size_t i : at) { step(); b[i] ^= 0x40; CHECK(!vt_memcmp(a, b, n), "ranges that differ in byte %zu", i); if (i) CHECK(vt_memcmp(a, b, i), "ranges equal in their first %zu bytes", i); b[i] ^= 0x40; one(); }
    for (size_t i : at) if (n < 5000 ? i % 37 == 0 : true) for (int dir = 0; dir < 2; dir++) { step(); D = "memmove of " + std::to_string(n - i) + " bytes by " + std::to_string(i); memcpy(a, x.data(), n); S_ w = x; if (dir) { w.replace(i, n - i, x, 0, n - i); CHECK(vt_memmove(a + i, a, n - i) == a + i, "returned another pointer"); } else { w.replace(0, n - i, x, i, n - i); CHECK(vt_memmove(a, a + i, n - i) == a, "returned another pointer"); } CHECK(!memcmp(a, w.data(), n), "other bytes than asked for"); memset(b, 1, n); vt_memset(b + i, 0xA5, n - i); for (size_t k : {(size_t)0, i ? i - 1 : 0, i, i + (n - i) / 2, n - 1}) if (k < n) CHECK((unsigned char)b[k] == (k < i ? 1 : 0xA5), "memset at %zu", k); memset(b, 1, n); vt_memcopy(b + i, x.data(), n - i); CHECK(!memcmp(b + i, x.data(), n - i), "memcopy"); one(); }
    outcome(n); free(a); free(b); for (int r = 0; r < 4; r++) { D = "request of " + std::to_string(n) + " bytes"; live_reset(); char *m = (char *)VT_MALLOC(n); CHECK(mem_ok(m, n), "malloc"); memset(m, 0x5a, n); VT_FREE(m); char *c = (char *)VT_CALLOC(n); CHECK(mem_ok(c, n), "calloc"); for (size_t i = 0; i < n; i++) if (c[i]) failf("calloc is not zeroed at %zu", i); memcpy(c, x.data(), n); c = (char *)VT_REALLOC(c, 2 * n); CHECK(mem_ok(c, 2 * n) && !memcmp(c, x.data(), n), "growing realloc"); c = (char *)VT_REALLOC(c, n / 2 + 1); CHECK(mem_ok(c, n / 2 + 1) && !memcmp(c, x.data(), n / 2 + 1), "shrinking realloc"); VT_FREE(c); CHECK(live_count() == 0, "leak"); one(); }
}
// ranges longer than 2^32 bytes (lazily backed; thorough also fills one)
void huge_ranges() { live_reset(); const size_t G = (size_t)1 << 32, n = G + 9; for (int r = 0; r < 3; r++) { D = "request of " + std::to_string(n) + " bytes, way " + std::to_string(r); step(); char *p = r == 0 ? (char *)VT_MALLOC(n) : r == 1 ? (char *)VT_CALLOC(n) : (char *)VT_REALLOC(VT_MALLOC(5), n); CHECK(p && mem_ok(p, n), "the block is shorter than that"); p[n - 1] = 3; if (r == 2) { p = (char *)VT_REALLOC(p, n + G); CHECK(mem_ok(p, n + G) && p[n - 1] == 3, "realloc"); } VT_FREE(p); CHECK(live_count() == 0, "leak"); one(); }
    char *p = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return; madvise(p, n, MADV_HUGEPAGE);
    D = "memset of more than 4 GB"; step(); vt_memset(p + 1, 'q', n - 2); for (size_t i : {(size_t)1, (size_t)8, (size_t)1 << 31, G - 1, G, G + 1, n - 2}) CHECK(p[i] == 'q', "byte %zu was not set", i); CHECK(p[0] == 0 && p[n - 1] == 0, "memset wrote outside its range"); one();
    for (size_t i = 0; i < 9; i++) p[G + i] = (char)('a' + i); p[G - 1] = '!'; step(); D = "memmove of more than 4 GB"; vt_memmove(p, p + 1, n - 1); CHECK(p[G - 2] == '!' && !memcmp(p + G - 1, "abcdefghi", 9) && p[0] == 'q', "memmove left the end behind"); one();
    munmap(p, n); outcome(26); }
void copies() {
    std::vector<size_t> sz; for (size_t n = 0; n <= (thorough() ? 600u : 200u); n++) sz.push_back(n); for (size_t n : {255, 256, 257, 4095, 4096, 4097, 65537}) sz.push_back(n);
    for (size_t n : sz) { step(); D = "memcopy/memset/memcmp of " + std::to_string(n); S_ x = pattern(n + 8, 5), y = pattern(n + 8, 6); char *a = (char *)malloc(n + 8), *b = (char *)malloc(n ? n : 1); memcpy(a, x.data(), n + 8); memcpy(b, y.data(), n); CHECK(vt_memcopy(a + 4, b, n) == a + 4, "memcopy returned another pointer"); S_ w = x; w.replace(4, n, y, 0, n); CHECK(S_(a, n + 8) == w, "memcopy"); CHECK(!memcmp(b, y.data(), n), "memcopy changed its source");
        for (int v : {0, 1, 127, 128, 255, 256, -1, 0x1234}) { memcpy(a, x.data(), n + 8); CHECK(vt_memset(a + 4, v, n) == a + 4, "memset returned another pointer"); w = x; w.replace(4, n, S_(n, (char)v)); CHECK(S_(a, n + 8) == w, "memset to %d", v); one(); }
        char *c = (char *)malloc(n ? n : 1); memcpy(c, b, n); CHECK(vt_memcmp(b, c, n) == (n > 0), "equal ranges of %zu bytes: %d", n, vt_memcmp(b, c, n)); CHECK(vt_memcmp(b, b, n) == (n > 0), "a range and itself"); if (n <= 200) for (size_t i = 0; i < n; i++) for (int bit = 0; bit < 8; bit++) { c[i] ^= (char)(1 << bit); CHECK(!vt_memcmp(b, c, n), "ranges that differ in byte %zu", i); CHECK(vt_memcmp(b, c, i) == (i > 0), "ranges equal in their first %zu bytes", i); c[i] ^= (char)(1 << bit); one(); } free(a); free(b); free(c); one(); outcome(hash_str(D)); }
    { const int L = thorough() ? 6 : 4; unsigned char al[] = {0, 1, 0xff, 'a'}; int tot = 1; for (int i = 0; i < L; i++) tot *= 4; for (int i = 0; i < tot; i++) { step(); for (int j = 0; j < tot; j++) { unsigned char a[8], b[8]; for (int k = 0, x = i, y = j; k < L; k++, x /= 4, y /= 4) a[k] = al[x % 4], b[k] = al[y % 4]; for (int n = 1; n <= L; n++) { CHECK(vt_memcmp(a, b, n) == !memcmp(a, b, n), "ranges of %d bytes, with zero bytes, #%d #%d", n, i, j); } one(); } } }
    for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) { char a = (char)i, b = (char)j; CHECK(vt_memcmp(&a, &b, 1) == (i == j), "bytes %d %d", i, j); one(); }
    // raw requests
    for (size_t n = 1; n <= (thorough() ? 3000u : 500u); n++) { D = "request of " + std::to_string(n) + " bytes"; step(); live_reset(); char *m = (char *)VT_MALLOC(n); CHECK(mem_ok(m, n), "malloc"); memset(m, 7, n); char *c = (char *)VT_CALLOC(n); CHECK(mem_ok(c, n), "calloc"); for (size_t i = 0; i < n; i++) CHECK(c[i] == 0, "calloc is not zeroed at %zu", i); memset(c, 9, n); for (size_t k : {n * 2, n + 1, n, (n + 1) / 2, (size_t)1}) { char *q = (char *)VT_REALLOC(m, k); CHECK(mem_ok(q, k), "realloc"); for (size_t i = 0; i < std::min(n, k); i++) CHECK(q[i] == 7, "realloc lost byte %zu", i); m = q; memset(m, 7, k); if (k < n) break; } VT_FREE(m); VT_FREE(c); VT_FREE(nullptr); CHECK(live_count() == 0, "leak"); char *z = (char *)VT_REALLOC(nullptr, n); CHECK(mem_ok(z, n), "realloc of nothing"); VT_FREE(z); CHECK(live_count() == 0, "leak"); one(); }
}
void names() {
    D = "status names"; step(); std::set<S_> seen; std::map<int, S_> want;
#define X(a) want[(int)a] = #a;
    VT_i_GENERATE_VITA_STATUS(X)
#undef X
    for (int e = 0; e < (int)VT_STATUS_COUNT; e++) { const char *s = vt_status_to_str((VitaStatus)e); CHECK(s != nullptr, "status %d has no name", e); CHECK(seen.insert(s).second, "two statuses are called %s", s); CHECK(want[e] == s, "status %d (%s) is called %s", e, want[e].c_str(), s); one(); outcome(hash_str(s)); }
    for (long e : {(long)VT_STATUS_COUNT, (long)VT_STATUS_COUNT + 1, 100L, 127L, 128L, 255L, 256L, 65535L, 0x7fffffffL, 0x80000000L, 0xffffffffL}) { const char *s = vt_status_to_str((VitaStatus)(unsigned)e); CHECK(s == nullptr, "unknown status %ld is called %s", e, s); one(); }
    // constants users compare against
    static const char *order[] = {"VT_STATUS_ERROR_IS_NULL", "VT_STATUS_ERROR_ALLOCATION", "VT_STATUS_ERROR_INVALID_ARGUMENTS", "VT_STATUS_ERROR_OUT_OF_MEMORY", "VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS", "VT_STATUS_ERROR_INCOMPATIBLE_DATATYPE", "VT_STATUS_ERROR_CONVERSION", "VT_STATUS_ERROR_ELEMENT_NOT_FOUND", "VT_STATUS_ERROR_IS_VIEW", "VT_STATUS_OPERATION_FAILURE", "VT_STATUS_OPERATION_SUCCESS"}; for (const char *o : order) CHECK(seen.count(o), "no status is called %s", o);
    D = "version"; vt_version_t v = vt_version_get(); char b[64]; snprintf(b, sizeof b, "%d.%d.%d", v.major, v.minor, v.patch); CHECK(v.str && !strcmp(b, v.str), "version %s is written %s", b, v.str ? v.str : "(null)"); one();
}
void loops() {
    D = "iteration macros"; for (size_t a = 0; a <= 12; a++) for (size_t b = 0; b <= 12; b++) { step(); std::vector<size_t> f, r, w, wr; VT_FOREACH(i, a, b) f.push_back(i); for (size_t i = a; i < b; i++) w.push_back(i); CHECK(f == w, "VT_FOREACH %zu..%zu", a, b); VT_FOREACH_R(i, a, b) r.push_back(i); for (size_t i = b; i > a; i--) wr.push_back(i); CHECK(r == wr, "VT_FOREACH_R %zu..%zu", a, b); for (size_t s = 1; s <= 5; s++) { f.clear(); w.clear(); VT_FOREACH_STEP(i, a, b, s) f.push_back(i); for (size_t i = a; i < b; i += s) w.push_back(i); CHECK(f == w, "VT_FOREACH_STEP %zu..%zu by %zu", a, b, s); one(); } }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); auto J = [](const S_ &n, std::function<void()> f) { add_job(n, [=] { describe = desc; f(); }); }; if (roomy(10)) J("huge_ranges", huge_ranges);
    for (size_t i = 0; i < 8; i++) { J("shapes_" + std::to_string(i), [=] { shapes(i, 8); }); J("moves_" + std::to_string(i), [=] { moves(i, 8); }); } for (size_t n : {300, 1000, 4096, 4097, 5000, 65535, 65536, 65537, 70001, 1100003}) J("far_" + std::to_string(n), [=] { far_bytes(n); }); J("swaps", swaps); J("copies", copies); J("names", names); J("loops", loops);
    return run_main(argc, argv, "C26");
}
