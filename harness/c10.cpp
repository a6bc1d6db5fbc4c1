// FLAGS: -O0
// C10: out-of-contract calls. Every case builds a fresh world (a string, vector, list, view, span, mallocator block
// and raw buffers), makes one call, and demands: outside the contract -> the program stops with a failure status and
// not one byte of the world has changed; at the edge of the contract -> the call returns.
#include "catalog.hpp"
using namespace mc;
namespace {
typedef std::string str_t;
const size_t SM = SIZE_MAX;
struct World {
    size_t n; int var; vt_mallocator_t *al = nullptr;
    vt_str_t *s, *s2; vt_vec_t *v; vt_plist_t *p; vt_plist_t *texts; vt_str_t view; vt_span_t span; int32_t *arr; void *blk; char *buf; char *path;
    vt_str_t bad_s; vt_vec_t bad_v; vt_plist_t bad_p;   // objects whose storage is missing
    std::vector<std::pair<str_t, str_t>> snap;
};
int things[70100]; char viewed[] = "viewed";
World W; str_t D; str_t desc() { return D; }
str_t text(size_t n) { str_t t; for (size_t i = 0; i < n; i++) t += (char)('a' + i % 26); return t; }
void build(size_t n, int var) {
    release_leaked(); W = World(); W.n = n; W.var = var; if (var & 1) W.al = vt_mallocator_create();
    W.s = mkstr(text(n), W.al, var & 2 ? 5 : 0); W.s2 = vt_str_create("destination", W.al);
    W.v = vt_vec_create(n ? n + (var & 2 ? 3 : 0) : 1, 4, W.al); W.p = vt_plist_create(n ? n + (var & 2 ? 3 : 0) : 1, W.al);
    for (size_t i = 0; i < n; i++) { vt_vec_push_backi32(W.v, 1000 + (int)i); vt_plist_push_back(W.p, &things[i]); }
    W.texts = vt_plist_create(2, W.al); vt_plist_push_back(W.texts, "x"); vt_plist_push_back(W.texts, "y");
    W.view = vt_str_create_static(viewed); W.arr = (int32_t *)tracked_malloc(4 * (n + 1)); for (size_t i = 0; i <= n; i++) W.arr[i] = 7 + (int)i;
    if (n) W.span = vt_span_from(W.arr, n, 4);
    W.blk = tracked_malloc(24); memset(W.blk, 0x3c, 24); W.buf = (char *)tracked_malloc(32); memset(W.buf, 'B', 31); W.buf[31] = 0; W.path = tracked_strdup("a/b");
    W.bad_s = *W.s; W.bad_s.ptr = nullptr; W.bad_v = *W.v; W.bad_v.ptr = nullptr; W.bad_p = *W.p; W.bad_p.ptr2 = nullptr;
}
str_t B(const void *p, size_t n) { return str_t((const char *)p, n); }
template <class T> str_t fields(const T *a) { size_t f[4] = {a->len, a->capacity, a->elsize, (size_t)a->slider_idx}; void *q[2] = {a->ptr, (void *)a->alloctr}; return B(f, sizeof f) + B(q, sizeof q) + (a->is_view ? "v" : "o"); }
std::vector<std::pair<str_t, str_t>> snapshot() {
    std::vector<std::pair<str_t, str_t>> r;
    r.push_back({"the string", fields(W.s) + B(W.s->ptr, W.s->len + 1)}); r.push_back({"the destination string", fields(W.s2) + B(W.s2->ptr, W.s2->len + 1)});
    r.push_back({"the vector", fields(W.v) + B(W.v->ptr, W.v->len * 4)}); r.push_back({"the list", fields(W.p) + B(W.p->ptr, W.p->len * 8)});
    r.push_back({"the text list", fields(W.texts) + B(W.texts->ptr, 16)}); r.push_back({"the view", fields(&W.view) + B(viewed, sizeof viewed)});
    r.push_back({"the array", B(W.arr, 4 * (W.n + 1))}); 
    r.push_back({"the block", B(W.blk, 24)}); r.push_back({"the buffer", B(W.buf, 32)}); r.push_back({"the path", B(W.path, 4)});
    r.push_back({"the string without storage", fields(&W.bad_s)}); r.push_back({"the vector without storage", fields(&W.bad_v)}); r.push_back({"the list without storage", fields(&W.bad_p)});
    if (W.al) { str_t t = B(&W.al->stats, sizeof W.al->stats); r.push_back({"the allocator's books", t}); }
    return r;
}
bool books_matter = true;
template <class F> void run(const str_t &what, bool stop, F f) {
    D = what + " (length " + std::to_string(W.n) + (W.al ? ", accounting allocator" : "") + (W.var & 2 ? ", spare capacity" : ", exact capacity") + ")"; step();
    auto before = snapshot(); size_t live0 = live_count(); std::vector<std::pair<void *, size_t>> tracked; if (W.al && stop) for (size_t i = 0; i < W.al->obj_list_len; i++) tracked.push_back({W.al->obj_list[i].ptr, W.al->obj_list[i].bytes});
    GuardResult g = guard(f); count(C_EVALS); count(C_TRANS); count(C_TRACES);
    uint64_t h = hash_str(what, W.n * 2 + stop); outcome(h);
    if (!stop) { CHECK(g.how == RETURNED, "a call at the edge of its contract stopped the program (%s %d)", g.how == EXITED ? "exit" : "abort", g.code); return; }
    CHECK(g.how != RETURNED, "the call returned although it breaks its precondition"); CHECK(stopped_with_failure(g), "the program ended with status %d (success)", g.code); count(C_STOPS);
    auto after = snapshot(); for (size_t i = 0; i < before.size(); i++) { if (before[i].first == "the allocator's books") continue; /* formatting may use a temporary first */ CHECK(before[i].second == after[i].second, "%s was changed before the program stopped", before[i].first.c_str()); }
    CHECK(live_count() >= live0, "memory was released before the program stopped");
    for (auto &e : tracked) { bool there = false; for (size_t i = 0; i < W.al->obj_list_len && !there; i++) there = W.al->obj_list[i].ptr == e.first && W.al->obj_list[i].bytes == e.second; CHECK(there, "the allocator no longer lists a block it had handed out before the program stopped"); }
}
size_t cn; int cv;
#define STOP(name, ...) do { build(cn, cv); run(name, true, [&] { __VA_ARGS__; }); } while (0)
#define OK(name, ...) do { build(cn, cv); run(name, false, [&] { __VA_ARGS__; }); } while (0)
#define CASE(name, bad, ...) do { build(cn, cv); run(name, bad, [&] { __VA_ARGS__; }); } while (0)
void nopv(void *, size_t) {} void nopc(char *, size_t) {}
str_t I(size_t k) { return k == SM ? "SIZE_MAX" : k >= SM / 4 ? "SIZE_MAX-scale(" + std::to_string(k) + ")" : std::to_string(k); }
std::vector<size_t> idx(size_t n) { std::set<size_t> s{0, n, n + 1, n + 2, n + 3, SM, SM - 1, SM / 2, SM / 2 + 1, SM / 4 + 1, SM / 8 + 1, (size_t)UINT32_MAX + 1, (size_t)1 << 33, n + 16, 2 * n + 5, (size_t)1 << 63, ((size_t)1 << 32) + n / 2}; for (size_t b : {128, 256, 32768, 65536}) { s.insert(b - 1); s.insert(b); s.insert(b + n / 2); } if (n) { s.insert(n - 1); s.insert(n / 2); } return std::vector<size_t>(s.begin(), s.end()); }

void vec_cases() {
    int32_t x = 5; size_t n = cn;
    for (size_t at : idx(n)) {
        bool bad = at >= n; str_t a = "(" + I(at) + ")";
        CASE("vec_get" + a, bad, vt_vec_get(W.v, at)); CASE("vec_set" + a, bad, vt_vec_set(W.v, &x, at)); CASE("vec_insert" + a, bad, vt_vec_insert(W.v, &x, at));
        CASE("array_get" + a, bad, vt_array_get(W.v, at)); CASE("array_set" + a, bad, vt_array_set(W.v, &x, at));
        CASE("vec_remove stable" + a, bad, vt_vec_remove(W.v, at, VT_REMOVE_STRATEGY_STABLE)); CASE("vec_remove fast" + a, bad, vt_vec_remove(W.v, at, VT_REMOVE_STRATEGY_FAST));
        for (int rs : {(int)VT_REMOVE_STRATEGY_COUNT, (int)VT_REMOVE_STRATEGY_COUNT + 1, 255, INT_MAX, -1}) STOP("vec_remove strategy " + std::to_string(rs) + a, vt_vec_remove(W.v, at, (enum VitaRemoveStrategy)rs));
#define T(T_, t) CASE("vec_get" #t + a, bad, vt_vec_t *q = vt_vec_create(n + 1, sizeof(T_), W.al); for (size_t i = 0; i < n; i++) vt_vec_push_back##t(q, (T_)1); vt_vec_get##t(q, at)); \
                 CASE("vec_set" #t + a, bad, vt_vec_t *q = vt_vec_create(n + 1, sizeof(T_), W.al); for (size_t i = 0; i < n; i++) vt_vec_push_back##t(q, (T_)1); vt_vec_set##t(q, (T_)2, at)); \
                 CASE("vec_insert" #t + a, bad, vt_vec_t *q = vt_vec_create(n + 1, sizeof(T_), W.al); for (size_t i = 0; i < n; i++) vt_vec_push_back##t(q, (T_)1); vt_vec_insert##t(q, (T_)2, at));
        T(int8_t, i8) T(uint8_t, u8) T(int16_t, i16) T(uint16_t, u16) T(int32_t, i32) T(uint32_t, u32) T(int64_t, i64) T(uint64_t, u64) T(float, f) T(double, d) T(real, r)
#undef T
    }
    STOP("vec_create(0,4)", vt_vec_create(0, 4, W.al)); STOP("vec_create(1,0)", vt_vec_create(1, 0, W.al)); OK("vec_create(1,1)", vt_vec_create(1, 1, W.al));
    STOP("vec_reserve(0)", vt_vec_reserve(W.v, 0)); OK("vec_reserve(1)", vt_vec_reserve(W.v, 1)); STOP("vec_resize(0)", vt_vec_resize(W.v, 0)); OK("vec_resize(1)", vt_vec_resize(W.v, 1));
    STOP("vec_push_back(NULL)", vt_vec_push_back(W.v, nullptr)); STOP("vec_push_front(NULL)", vt_vec_push_front(W.v, nullptr)); STOP("vec_can_find(NULL)", vt_vec_can_find(W.v, nullptr)); STOP("vec_apply(NULL)", vt_vec_apply(W.v, nullptr));
    STOP("array_set(NULL)", vt_array_set(W.v, nullptr, 0)); STOP("vec_set(NULL)", vt_vec_set(W.v, nullptr, 0)); STOP("vec_insert(NULL)", vt_vec_insert(W.v, nullptr, 0));
    OK("vec_pop", vt_vec_pop(W.v)); OK("vec_pop_get", vt_vec_pop_get(W.v)); OK("vec_shrink", vt_vec_shrink(W.v)); OK("vec_clear", vt_vec_clear(W.v)); OK("vec_apply", vt_vec_apply(W.v, nopv)); OK("vec_can_find", vt_vec_can_find(W.v, &x)); OK("vec_slide_front", vt_vec_slide_front(W.v)); OK("vec_slide_back", vt_vec_slide_back(W.v));
    for (int k : {0, 1}) {
        str_t w = k ? "vector without storage" : "NULL vector";
#define Q (k ? &W.bad_v : (vt_vec_t *)nullptr)
#define N(fn, ...) STOP(w + ": " #fn, fn(__VA_ARGS__))
        N(vt_vec_destroy, Q); N(vt_vec_dup, Q, nullptr); N(vt_vec_len, Q); N(vt_vec_capacity, Q); N(vt_vec_has_space, Q); N(vt_vec_is_empty, Q); N(vt_vec_shrink, Q); N(vt_vec_clear, Q); N(vt_vec_reserve, Q, 1); N(vt_vec_resize, Q, 1);
        N(vt_vec_push_front, Q, &x); N(vt_vec_push_back, Q, &x); N(vt_vec_pop, Q); N(vt_vec_pop_get, Q); N(vt_vec_set, Q, &x, 0); N(vt_vec_get, Q, 0); N(vt_vec_insert, Q, &x, 0); N(vt_vec_remove, Q, 0, VT_REMOVE_STRATEGY_STABLE); N(vt_vec_remove, Q, 0, VT_REMOVE_STRATEGY_FAST); N(vt_vec_can_find, Q, &x);
        N(vt_vec_slide_front, Q); N(vt_vec_slide_back, Q); N(vt_vec_slide_reset, Q); N(vt_vec_apply, Q, nopv);
        N(vt_array_head, Q); N(vt_array_len, Q); N(vt_array_capacity, Q); N(vt_array_has_space, Q); N(vt_array_elsize, Q); N(vt_array_has_alloctr, Q); N(vt_array_get, Q, 0); N(vt_array_set, Q, &x, 0); N(vt_array_slide_front, Q); N(vt_array_slide_back, Q); N(vt_array_slide_reset, Q);
#define T(T_, t) N(vt_vec_push_front##t, Q, (T_)1); N(vt_vec_push_back##t, Q, (T_)1); N(vt_vec_pop_get##t, Q); N(vt_vec_set##t, Q, (T_)1, 0); N(vt_vec_get##t, Q, 0); N(vt_vec_insert##t, Q, (T_)1, 0); N(vt_vec_can_find##t, Q, (T_)1);
        T(int8_t, i8) T(uint8_t, u8) T(int16_t, i16) T(uint16_t, u16) T(int32_t, i32) T(uint32_t, u32) T(int64_t, i64) T(uint64_t, u64) T(float, f) T(double, d) T(real, r)
#undef T
#undef Q
    }
    STOP("array_free(NULL)", vt_array_free(nullptr));
}
void plist_cases() {
    void *x = &things[70099]; size_t n = cn;
    for (size_t at : idx(n)) {
        bool bad = at >= n; str_t a = "(" + I(at) + ")";
        CASE("plist_get" + a, bad, vt_plist_get(W.p, at)); CASE("plist_set" + a, bad, vt_plist_set(W.p, x, at)); CASE("plist_insert" + a, bad, vt_plist_insert(W.p, x, at));
        CASE("plist_remove stable" + a, bad, vt_plist_remove(W.p, at, VT_REMOVE_STRATEGY_STABLE)); CASE("plist_remove fast" + a, bad, vt_plist_remove(W.p, at, VT_REMOVE_STRATEGY_FAST));
        STOP("plist_set NULL pointer" + a, vt_plist_set(W.p, nullptr, at)); STOP("plist_insert NULL pointer" + a, vt_plist_insert(W.p, nullptr, at));
        for (int rs : {(int)VT_REMOVE_STRATEGY_COUNT, 255, INT_MAX, -1}) STOP("plist_remove strategy " + std::to_string(rs) + a, vt_plist_remove(W.p, at, (enum VitaRemoveStrategy)rs));
    }
    for (int rs : {(int)VT_REMOVE_STRATEGY_COUNT, 255, INT_MAX, -1}) { STOP("plist_remove_element strategy " + std::to_string(rs), vt_plist_remove_element(W.p, &things[0], (enum VitaRemoveStrategy)rs)); STOP("plist_remove_element absent, strategy " + std::to_string(rs), vt_plist_remove_element(W.p, x, (enum VitaRemoveStrategy)rs)); }
    STOP("plist_create(0)", vt_plist_create(0, W.al)); OK("plist_create(1)", vt_plist_create(1, W.al)); STOP("plist_reserve(0)", vt_plist_reserve(W.p, 0)); OK("plist_reserve(1)", vt_plist_reserve(W.p, 1)); STOP("plist_resize(0)", vt_plist_resize(W.p, 0)); OK("plist_resize(1)", vt_plist_resize(W.p, 1));
    STOP("plist_push_back(NULL)", vt_plist_push_back(W.p, nullptr)); STOP("plist_push_front(NULL)", vt_plist_push_front(W.p, nullptr)); STOP("plist_can_find(NULL)", vt_plist_can_find(W.p, nullptr)); STOP("plist_apply(NULL)", vt_plist_apply(W.p, nullptr));
    STOP("plist_remove_element(NULL)", vt_plist_remove_element(W.p, nullptr, VT_REMOVE_STRATEGY_STABLE)); OK("plist_remove_element absent", vt_plist_remove_element(W.p, x, VT_REMOVE_STRATEGY_FAST)); OK("plist_pop", vt_plist_pop(W.p)); OK("plist_pop_get", vt_plist_pop_get(W.p)); OK("plist_shrink", vt_plist_shrink(W.p)); OK("plist_apply", vt_plist_apply(W.p, nopv)); OK("plist_can_find absent", vt_plist_can_find(W.p, x));
    for (int k : {0, 1}) {
        str_t w = k ? "list without storage" : "NULL list";
#define Q (k ? &W.bad_p : (vt_plist_t *)nullptr)
        N(vt_plist_destroy, Q); N(vt_plist_dup, Q, nullptr); N(vt_plist_len, Q); N(vt_plist_capacity, Q); N(vt_plist_has_space, Q); N(vt_plist_is_empty, Q); N(vt_plist_reserve, Q, 1); N(vt_plist_shrink, Q); N(vt_plist_resize, Q, 1); N(vt_plist_insert, Q, x, 0); N(vt_plist_clear, Q); N(vt_plist_set, Q, x, 0); N(vt_plist_get, Q, 0);
        N(vt_plist_push_front, Q, x); N(vt_plist_push_back, Q, x); N(vt_plist_pop, Q); N(vt_plist_pop_get, Q); N(vt_plist_remove, Q, 0, VT_REMOVE_STRATEGY_STABLE); N(vt_plist_remove_element, Q, x, VT_REMOVE_STRATEGY_STABLE); N(vt_plist_can_find, Q, x); N(vt_plist_slide_front, Q); N(vt_plist_slide_back, Q); N(vt_plist_slide_reset, Q); N(vt_plist_apply, Q, nopv);
        N(vt_str_join, W.s2, ",", Q); N(vt_path_build, W.s2, Q);
#undef Q
    }
    STOP("path_dir_free(NULL)", vt_path_dir_free(nullptr));
}
void str_cases() {
    size_t n = cn;
    for (size_t at : idx(n)) {
        bool out = at >= n; str_t a = "(" + I(at) + ")";
        CASE("str_insert" + a, out, vt_str_insert(W.s, "zz", at)); CASE("str_insertf" + a, out, vt_str_insertf(W.s, at, "%d", 42));
        CASE("str_set_c" + a, out, vt_str_set_c(W.s, 'q', at)); CASE("str_insert_n" + a, at > n, vt_str_insert_n(W.s, "zz", at, 2)); STOP("str_insert_n zero" + a, vt_str_insert_n(W.s, "zz", at, 0));
        for (size_t k : {(size_t)1, (size_t)2, n, n + 1, SM}) if (k) CASE("str_remove" + a + " " + I(k), out, vt_str_remove(W.s, at, k)); STOP("str_remove zero" + a, vt_str_remove(W.s, at, 0));
        for (size_t l : {(size_t)1, (size_t)2, n, n + 1, n + 7}) if (l) { Z z(text(l)); CASE("str_set_at" + a + " " + I(l) + " bytes", out || l > n - at, vt_str_set_at(W.s, z, at)); }
        STOP("str_insert NULL" + a, vt_str_insert(W.s, nullptr, at)); STOP("str_insertf NULL" + a, vt_str_insertf(W.s, at, nullptr)); STOP("str_insert_n NULL" + a, vt_str_insert_n(W.s, nullptr, at, 1)); STOP("str_set_at NULL" + a, vt_str_set_at(W.s, nullptr, at));
    }
    for (size_t l : {(size_t)1, (size_t)2, n, n + 1, n + 2, n + 9, 2 * n + 40}) if (l) {
        Z z(text(l)); str_t a = "(needle of " + I(l) + ")"; bool bad = l > n;
        CASE("str_find" + a, bad, vt_str_find(W.s, z)); CASE("str_can_find" + a, bad, vt_str_can_find(W.s, z)); CASE("str_index_find" + a, bad, vt_str_index_find(W.s, z)); CASE("str_insert_before" + a, bad, vt_str_insert_before(W.s, z, "k")); CASE("str_insert_after" + a, bad, vt_str_insert_after(W.s, z, "k"));
        OK("str_starts_with" + a, vt_str_starts_with(W.s, z)); OK("str_ends_with" + a, vt_str_ends_with(W.s, z));
        for (size_t m : {l - 1, l, l + 1, l + 5}) if (m) { Z r(str_t(m, 'R')); CASE("str_replace_c(" + I(l) + " by " + I(m) + ")", m > l, vt_str_replace_c(W.s, z, r)); }
        for (size_t m : {(size_t)1, l, l + 3}) for (size_t k : {(size_t)0, (size_t)1, std::min(l, m), std::min(l, m) + 1, std::max(l, m), std::max(l, m) + 1, SM}) { Z q(str_t(m, 'a')); CASE("str_equals_n(" + I(l) + "," + I(m) + "," + I(k) + ")", k == 0 || k > l || k > m, vt_str_equals_n(z, q, k)); }
    }
    { Z z(text(n + 9)); for (size_t k : {(size_t)0, (size_t)1, n ? n - 1 : 0, n, n + 1, n + 2, n + 8, SM / 2, SM}) { if (k > n && k < n + 9) {} CASE("str_set_n(" + I(k) + ")", k == 0 || k > n, vt_str_set_n(W.s, z, k)); } }
    for (size_t l : {(size_t)0, (size_t)1, n, n + 1, n + 5}) { Z z(text(l)); CASE("str_set(" + I(l) + " bytes)", l > n, vt_str_set(W.s, z)); }
    STOP("str_append_n(0)", vt_str_append_n(W.s, "abc", 0)); OK("str_append_n(1)", vt_str_append_n(W.s, "abc", 1)); OK("str_append(\"\")", vt_str_append(W.s, ""));
    STOP("str_create(NULL)", vt_str_create(nullptr, W.al)); STOP("str_create_static(NULL)", vt_str_create_static(nullptr)); STOP("str_create_len(0)", vt_str_create_len(0, W.al)); STOP("str_create_capacity(0)", vt_str_create_capacity(0, W.al)); STOP("str_take_ownership(NULL)", vt_str_take_ownership(nullptr, W.al)); OK("str_create_len(1)", vt_str_create_len(1, W.al)); OK("str_create_capacity(1)", vt_str_create_capacity(1, W.al));
    STOP("str_reserve(0)", vt_str_reserve(W.s, 0)); STOP("str_resize(0)", vt_str_resize(W.s, 0)); OK("str_reserve(1)", vt_str_reserve(W.s, 1)); OK("str_resize(1)", vt_str_resize(W.s, 1));
    STOP("str_is_numeric_z(z,0)", vt_str_is_numeric_z("12", 0)); STOP("str_is_numeric_z(NULL)", vt_str_is_numeric_z(nullptr, 2)); OK("str_is_numeric_z(z,1)", vt_str_is_numeric_z("12", 1));
    STOP("str_equals_z(NULL,z)", vt_str_equals_z(nullptr, "a")); STOP("str_equals_z(z,NULL)", vt_str_equals_z("a", nullptr)); STOP("str_equals_n(NULL)", vt_str_equals_n(nullptr, "a", 1)); STOP("str_equals_n(,NULL)", vt_str_equals_n("a", nullptr, 1)); STOP("str_equals(NULL,s)", vt_str_equals(nullptr, W.s)); STOP("str_equals(s,NULL)", vt_str_equals(W.s, nullptr));
    STOP("str_join_n(0)", vt_str_join_n(W.s2, ",", 0)); STOP("str_join_n NULL separator", vt_str_join_n(W.s2, nullptr, 1, "a")); STOP("str_join NULL separator", vt_str_join(W.s2, nullptr, W.texts)); STOP("str_join NULL list", vt_str_join(W.s2, ",", nullptr)); STOP("path_build_n(0)", vt_path_build_n(W.s2, 0));
    STOP("str_split NULL separator", vt_str_split(W.texts, W.s, nullptr)); STOP("str_split_between NULL text", vt_str_split_between(W.s2, nullptr, "a", "b")); STOP("str_split_between NULL left", vt_str_split_between(W.s2, "xaybz", nullptr, "b")); STOP("str_split_between NULL right", vt_str_split_between(W.s2, "xaybz", "a", nullptr));
    STOP("str_pop_get_first NULL separator", vt_str_pop_get_first(W.s2, W.s, nullptr)); STOP("str_pop_get_last NULL separator", vt_str_pop_get_last(W.s2, W.s, nullptr));
    STOP("str_set(NULL)", vt_str_set(W.s, nullptr)); STOP("str_set_n(NULL)", vt_str_set_n(W.s, nullptr, 1)); STOP("str_append(NULL)", vt_str_append(W.s, nullptr)); STOP("str_append_n(NULL)", vt_str_append_n(W.s, nullptr, 1)); STOP("str_appendf(NULL)", vt_str_appendf(W.s, nullptr));
    STOP("str_insert_before(NULL,)", vt_str_insert_before(W.s, nullptr, "a")); STOP("str_insert_before(,NULL)", vt_str_insert_before(W.s, "a", nullptr)); STOP("str_insert_after(NULL,)", vt_str_insert_after(W.s, nullptr, "a")); STOP("str_insert_after(,NULL)", vt_str_insert_after(W.s, "a", nullptr));
    STOP("str_remove_first(NULL)", vt_str_remove_first(W.s, nullptr)); STOP("str_remove_last(NULL)", vt_str_remove_last(W.s, nullptr)); STOP("str_remove_all(NULL)", vt_str_remove_all(W.s, nullptr)); STOP("str_remove_c(NULL)", vt_str_remove_c(W.s, nullptr));
    for (auto f : {vt_str_replace, vt_str_replace_first, vt_str_replace_last, vt_str_replace_c}) { STOP("str_replace*(NULL,)", f(W.s, nullptr, "a")); STOP("str_replace*(,NULL)", f(W.s, "a", nullptr)); }
    STOP("str_strip_c(NULL)", vt_str_strip_c(W.s, nullptr)); STOP("str_find(NULL)", vt_str_find(W.s, nullptr)); STOP("str_can_find(NULL)", vt_str_can_find(W.s, nullptr)); STOP("str_index_find(NULL)", vt_str_index_find(W.s, nullptr)); STOP("str_starts_with(NULL)", vt_str_starts_with(W.s, nullptr)); STOP("str_ends_with(NULL)", vt_str_ends_with(W.s, nullptr)); STOP("str_apply(NULL)", vt_str_apply(W.s, nullptr));
    STOP("view: reserve", vt_str_reserve(&W.view, 1)); STOP("view: resize", vt_str_resize(&W.view, 1)); STOP("view: resize larger", vt_str_resize(&W.view, 40)); STOP("view: shrink", vt_str_shrink(&W.view)); STOP("view: append", vt_str_append(&W.view, "more")); STOP("view: append_n", vt_str_append_n(&W.view, "more", 2)); STOP("view: appendf", vt_str_appendf(&W.view, "%s", "more")); STOP("view: insert", vt_str_insert(&W.view, "more", 1)); STOP("view: insert_n", vt_str_insert_n(&W.view, "more", 1, 2)); STOP("view: insertf", vt_str_insertf(&W.view, 0, "%d", 5)); STOP("view: insert_before", vt_str_insert_before(&W.view, "ew", "more")); STOP("view: insert_after", vt_str_insert_after(&W.view, "ew", "more"));
    for (int k : {0, 1}) {
        str_t w = k ? "string without storage" : "NULL string";
#define Q (k ? &W.bad_s : (vt_str_t *)nullptr)
        N(vt_str_destroy, Q); N(vt_str_dup, Q); N(vt_str_z, Q); N(vt_str_len, Q); N(vt_str_capacity, Q); N(vt_str_has_space, Q); N(vt_str_is_empty, Q); N(vt_str_validate_len, Q); N(vt_str_shrink, Q); N(vt_str_clear, Q); N(vt_str_reserve, Q, 1); N(vt_str_resize, Q, 1); N(vt_str_set, Q, "a"); N(vt_str_set_at, Q, "a", 0); N(vt_str_set_c, Q, 'a', 0); N(vt_str_set_n, Q, "a", 1);
        N(vt_str_append, Q, "a"); N(vt_str_appendf, Q, "%d", 1); N(vt_str_append_n, Q, "a", 1); N(vt_str_insert, Q, "a", 0); N(vt_str_insertf, Q, 0, "%d", 1); N(vt_str_insert_n, Q, "a", 0, 1); N(vt_str_insert_before, Q, "a", "b"); N(vt_str_insert_after, Q, "a", "b"); N(vt_str_remove, Q, 0, 1); N(vt_str_remove_first, Q, "a"); N(vt_str_remove_last, Q, "a"); N(vt_str_remove_all, Q, "a"); N(vt_str_remove_c, Q, "a");
        N(vt_str_replace, Q, "a", "b"); N(vt_str_replace_first, Q, "a", "b"); N(vt_str_replace_last, Q, "a", "b"); N(vt_str_replace_c, Q, "a", "b"); N(vt_str_strip, Q); N(vt_str_strip_punct, Q); N(vt_str_strip_c, Q, "a"); N(vt_str_find, Q, "a"); N(vt_str_can_find, Q, "a"); N(vt_str_split, W.texts, Q, ","); N(vt_str_pop_get_first, W.s2, Q, ","); N(vt_str_pop_get_last, W.s2, Q, ",");
        N(vt_str_equals, Q, W.s2); N(vt_str_equals, W.s2, Q); N(vt_str_starts_with, Q, "a"); N(vt_str_ends_with, Q, "a"); N(vt_str_apply, Q, nopc); N(vt_str_is_numeric, Q); N(vt_str_to_uppercase, Q); N(vt_str_to_lowercase, Q); N(vt_str_index_of, Q, 'a'); N(vt_str_index_find, Q, "a"); N(vt_str_slide_front, Q); N(vt_str_slide_back, Q); N(vt_str_slide_reset, Q);
#undef Q
    }
}
void span_cases() {
    size_t n = cn; int32_t x = 3;
    if (n) for (size_t at : idx(n)) {
        bool bad = at >= n; str_t a = "(" + I(at) + ")"; CASE("span_get" + a, bad, vt_span_get(W.span, at)); CASE("span_set" + a, bad, vt_span_set(W.span, &x, at)); STOP("span_set NULL" + a, vt_span_set(W.span, nullptr, at));
#define T(T_, t) CASE("span_get" #t + a, bad, T_ *m = (T_ *)tracked_malloc(sizeof(T_) * n); memset(m, 0, sizeof(T_) * n); vt_span_t q = vt_span_from(m, n, sizeof(T_)); vt_span_get##t(q, at)); CASE("span_set" #t + a, bad, T_ *m = (T_ *)tracked_malloc(sizeof(T_) * n); memset(m, 0, sizeof(T_) * n); vt_span_t q = vt_span_from(m, n, sizeof(T_)); vt_span_set##t(q, (T_)2, at));
        T(int8_t, i8) T(uint8_t, u8) T(int16_t, i16) T(uint16_t, u16) T(int32_t, i32) T(uint32_t, u32) T(int64_t, i64) T(uint64_t, u64) T(float, f) T(double, d) T(real, r)
#undef T
        for (size_t f = 0; f < n; f++) for (size_t t = f + 1; t <= n; t++) CASE("span_from_to(" + I(f) + "," + I(t) + ") get" + a, at >= t - f, vt_span_t q = vt_span_from_to(W.arr, f, t, 4); vt_span_get(q, at));
    }
    STOP("span_from(NULL)", vt_span_from(nullptr, 1, 4)); STOP("span_from(0)", vt_span_from(W.arr, 0, 4)); STOP("span_from elsize 0", vt_span_from(W.arr, 1, 0)); STOP("span_from_to(NULL)", vt_span_from_to(nullptr, 0, 1, 4)); STOP("span_from_to elsize 0", vt_span_from_to(W.arr, 0, 1, 0)); OK("span_from(1)", vt_span_from(W.arr, 1, 1));
    for (size_t f = 0; f <= n; f++) for (size_t t = 0; t <= n; t++) CASE("span_from_to(" + I(f) + "," + I(t) + ")", t <= f, vt_span_from_to(W.arr, f, t, 4)); STOP("span_from_to(SIZE_MAX,0)", vt_span_from_to(W.arr, SM, 0, 4));
}
void rest_cases() { // core, conv, mallocator, index maps, files, paths, datetime, argopt, log
    cn = 2;
    for (int v : {0, 1}) { cv = v;
    size_t r, c, d; STOP("index_1d_to_2d row NULL", vt_index_1d_to_2d(nullptr, &c, 3, 2)); STOP("index_1d_to_2d col NULL", vt_index_1d_to_2d(&r, nullptr, 3, 2)); STOP("index_1d_to_3d row NULL", vt_index_1d_to_3d(nullptr, &c, &d, 3, 2, 2)); STOP("index_1d_to_3d col NULL", vt_index_1d_to_3d(&r, nullptr, &d, 3, 2, 2)); STOP("index_1d_to_3d depth NULL", vt_index_1d_to_3d(&r, &c, nullptr, 3, 2, 2)); OK("index_1d_to_3d", vt_index_1d_to_3d(&r, &c, &d, 3, 2, 2));
    STOP("vt_malloc(0)", vt_malloc(0, "", "", 0)); STOP("vt_calloc(0)", vt_calloc(0, "", "", 0)); STOP("vt_realloc(p,0)", vt_realloc(W.blk, 0, "", "", 0)); OK("vt_malloc(1)", vt_malloc(1, "", "", 0)); OK("vt_calloc(1)", vt_calloc(1, "", "", 0)); OK("vt_realloc(NULL,1)", vt_realloc(nullptr, 1, "", "", 0)); OK("vt_free(NULL)", vt_free(nullptr));
    char q[8] = "abc"; for (size_t k : {(size_t)0, (size_t)1, (size_t)4}) { STOP("memmove(NULL,)", vt_memmove(nullptr, q, k)); STOP("memmove(,NULL)", vt_memmove(W.buf, nullptr, k)); STOP("memcopy(NULL,)", vt_memcopy(nullptr, q, k)); STOP("memcopy(,NULL)", vt_memcopy(W.buf, nullptr, k)); STOP("memset(NULL)", vt_memset(nullptr, 0, k)); STOP("memcmp(NULL,)", vt_memcmp(nullptr, q, k)); STOP("memcmp(,NULL)", vt_memcmp(q, nullptr, k)); OK("memmove", vt_memmove(W.buf, q, k)); OK("memset", vt_memset(W.buf, 1, k)); }
    STOP("gswap(NULL,)", vt_gswap(nullptr, W.buf, 2)); STOP("gswap(,NULL)", vt_gswap(W.buf, nullptr, 2)); STOP("gswap elsize 0", vt_gswap(W.buf, W.blk, 0)); OK("gswap 1", vt_gswap(W.buf, W.blk, 1)); void *pp = q; STOP("pswap(NULL,)", vt_pswap(nullptr, &pp)); STOP("pswap(,NULL)", vt_pswap(&pp, nullptr));
    { vt_mallocator_t bad; memset(&bad, 0, sizeof bad);
      STOP("mallocator_destroy(NULL)", vt_mallocator_destroy(nullptr)); STOP("mallocator_alloc NULL", vt_mallocator_alloc(nullptr, 4, "", "", 0)); STOP("mallocator_realloc NULL allocator", vt_mallocator_realloc(nullptr, W.blk, 4, "", "", 0)); STOP("mallocator_free NULL allocator", vt_mallocator_free(nullptr, W.blk, "", "", 0));
      STOP("mallocator without list: destroy", vt_mallocator_destroy(&bad)); STOP("mallocator without list: alloc", vt_mallocator_alloc(&bad, 4, "", "", 0)); STOP("mallocator without list: realloc", vt_mallocator_realloc(&bad, W.blk, 4, "", "", 0)); STOP("mallocator without list: free", vt_mallocator_free(&bad, W.blk, "", "", 0));
      if (v & 1) { STOP("mallocator_alloc(0)", vt_mallocator_alloc(W.al, 0, "", "", 0)); STOP("mallocator_realloc(NULL ptr)", vt_mallocator_realloc(W.al, nullptr, 4, "", "", 0)); STOP("mallocator_realloc(p,0)", vt_mallocator_realloc(W.al, W.s, 0, "", "", 0)); STOP("mallocator_free(NULL ptr)", vt_mallocator_free(W.al, nullptr, "", "", 0)); OK("mallocator_alloc(1)", vt_mallocator_alloc(W.al, 1, "", "", 0)); } }
#define T(T_, t, val) { char ref[64]; OK("conv_" #t "_to_str reference", vt_conv_##t##_to_str(ref, sizeof ref, (T_)(val))); size_t need = strlen(ref) + 1; for (size_t k = 0; k <= need + 3 && k <= 31; k++) CASE("conv_" #t "_to_str(" #val ") into " + I(k), k < need, vt_conv_##t##_to_str(W.buf, k, (T_)(val))); STOP("conv_" #t "_to_str(NULL)", vt_conv_##t##_to_str(nullptr, 31, (T_)(val))); STOP("conv_str_to_" #t "(NULL)", vt_conv_str_to_##t(nullptr)); }
    T(int8_t, i8, -128) T(uint8_t, u8, 7) T(uint8_t, u8, 255) T(int16_t, i16, -32768) T(uint16_t, u16, 9999) T(int32_t, i32, INT32_MIN) T(uint32_t, u32, 10) T(int64_t, i64, INT64_MIN) T(uint64_t, u64, UINT64_MAX) T(float, f, 1.5) T(double, d, -123456.5) T(real, r, 0.25)
#undef T
    // files and paths: nothing is opened, created or removed before the stop
    STOP("file_read(NULL)", vt_file_read(nullptr, W.al)); STOP("file_readb(NULL)", vt_file_readb(nullptr, W.al)); STOP("file_read_to_buffer(NULL,)", vt_file_read_to_buffer(nullptr, W.buf, 8)); STOP("file_read_to_buffer(,NULL)", vt_file_read_to_buffer("present", nullptr, 8)); STOP("file_read_to_buffer(,,0)", vt_file_read_to_buffer("present", W.buf, 0)); OK("file_read_to_buffer(,,1)", vt_file_read_to_buffer("present", W.buf, 1));
    auto same = [&](const str_t &what) { FILE *f = fopen("present", "rb"); char b[32] = {0}; size_t k = f ? fread(b, 1, 31, f) : 0; if (f) fclose(f); CHECK(k == 7 && !memcmp(b, "content", 7), "%s changed the file before the program stopped", what.c_str()); CHECK(open_streams() == 0, "%s: a stream was left open", what.c_str()); };
    struct { const char *n; bool (*f)(const char *, const char *); } wf[] = {{"write", vt_file_write}, {"writeln", vt_file_writeln}, {"writeb", vt_file_writeb}, {"writebln", vt_file_writebln}, {"append", vt_file_append}, {"appendln", vt_file_appendln}, {"appendb", vt_file_appendb}, {"appendbln", vt_file_appendbln}};
    for (auto &w : wf) { STOP(str_t("file_") + w.n + "(NULL,)", w.f(nullptr, "x")); STOP(str_t("file_") + w.n + "(,NULL)", w.f("present", nullptr)); same(w.n); }
    STOP("file_writef(NULL,)", vt_file_writef(nullptr, "x")); STOP("file_writef(,NULL)", vt_file_writef("present", nullptr)); same("writef"); STOP("file_writefln(NULL,)", vt_file_writefln(nullptr, "x")); STOP("file_writefln(,NULL)", vt_file_writefln("present", nullptr)); same("writefln"); STOP("file_writefc(NULL,)", vt_file_writefc(nullptr, false, true, false, "x")); STOP("file_writefc(,NULL)", vt_file_writefc("present", false, false, false, nullptr)); same("writefc");
    STOP("path_exists(NULL)", vt_path_exists(nullptr)); STOP("path_is_dir(NULL)", vt_path_is_dir(nullptr)); STOP("path_is_file(NULL)", vt_path_is_file(nullptr)); STOP("path_get_file_size(NULL)", vt_path_get_file_size(nullptr)); STOP("path_dir_list(,NULL)", vt_path_dir_list(W.texts, nullptr, true)); STOP("path_dir_list_recurse(,NULL)", vt_path_dir_list_recurse(W.texts, nullptr, true)); STOP("path_basename(NULL)", vt_path_basename(W.s2, nullptr)); STOP("path_mkdir(NULL)", vt_path_mkdir(nullptr)); STOP("path_mkdir_parents(NULL)", vt_path_mkdir_parents(nullptr)); STOP("path_rmdir(NULL)", vt_path_rmdir(nullptr)); STOP("path_rmdir_recurse(NULL)", vt_path_rmdir_recurse(nullptr)); STOP("path_remove(NULL)", vt_path_remove(nullptr)); STOP("path_rename(NULL,)", vt_path_rename(nullptr, "b")); STOP("path_rename(,NULL)", vt_path_rename("present", nullptr)); same("rename"); STOP("path_expand_tilda(NULL)", vt_path_expand_tilda(nullptr, W.al)); STOP("path_pop(NULL)", vt_path_pop(nullptr)); STOP("path_validate(NULL)", vt_path_validate(nullptr));
    // datetime
    VitaDateTime dt = vt_datetime_create(2023, 5, 25, 18, 40, 1, -1, -1);
    for (size_t k : {(size_t)0, (size_t)1, (size_t)20, (size_t)VT_DATETIME_BUFFER_SIZE - 1, (size_t)VT_DATETIME_BUFFER_SIZE, (size_t)31}) { bool bad = k < VT_DATETIME_BUFFER_SIZE; str_t a = "(" + I(k) + ")"; CASE("datetime_to_text" + a, bad, vt_datetime_to_text(dt, W.buf, k)); CASE("datetime_to_text_iso" + a, bad, vt_datetime_to_text_iso(dt, W.buf, k)); CASE("datetime_to_text_iso_ext" + a, bad, vt_datetime_to_text_iso_ext(dt, W.buf, k)); CASE("datetime_to_text_pretty" + a, bad, vt_datetime_to_text_pretty(dt, W.buf, k)); CASE("datetime_get_now_as_text" + a, bad, vt_datetime_get_now_as_text(W.buf, k)); CASE("datetime_get_now_as_text_pretty" + a, bad, vt_datetime_get_now_as_text_pretty(W.buf, k)); }
    STOP("datetime_to_text(NULL)", vt_datetime_to_text(dt, nullptr, 31)); STOP("datetime_to_text_iso(NULL)", vt_datetime_to_text_iso(dt, nullptr, 31)); STOP("datetime_to_text_iso_ext(NULL)", vt_datetime_to_text_iso_ext(dt, nullptr, 31)); STOP("datetime_to_text_pretty(NULL)", vt_datetime_to_text_pretty(dt, nullptr, 31)); STOP("datetime_get_now_as_text(NULL)", vt_datetime_get_now_as_text(nullptr, 31)); STOP("datetime_get_now_as_text_pretty(NULL)", vt_datetime_get_now_as_text_pretty(nullptr, 31));
    STOP("datetime_from_text(NULL)", vt_datetime_from_text(nullptr)); STOP("datetime_from_text_iso(NULL)", vt_datetime_from_text_iso(nullptr)); STOP("datetime_from_text_iso_ext(NULL)", vt_datetime_from_text_iso_ext(nullptr)); STOP("is_valid_text(NULL)", vt_datetime_is_valid_text(nullptr)); STOP("is_valid_text_iso(NULL)", vt_datetime_is_valid_text_iso(nullptr)); STOP("is_valid_text_iso_ext(NULL)", vt_datetime_is_valid_text_iso_ext(nullptr));
    STOP("datetime_from_text(\"\")", vt_datetime_from_text("")); STOP("datetime_from_text_iso(garbage)", vt_datetime_from_text_iso("20230525X184001")); STOP("datetime_from_text_iso_ext(short)", vt_datetime_from_text_iso_ext("2023-05-25T18:40:0"));
    // command line
    { const char *argv[2] = {"prog", "--n=4"}; int32_t num = 0; vt_argopt_t ov[1] = {{"--n", "-n", "number", VT_ARGOPT(num), VT_TYPE_INT32}};
      OK("argopt_parse", vt_argopt_parse(2, argv, 1, ov, W.al)); CHECK(num == 4, "parsed %d", num); num = 9;
      STOP("argopt_parse argc 0", vt_argopt_parse(0, argv, 1, ov, W.al)); STOP("argopt_parse argv NULL", vt_argopt_parse(2, nullptr, 1, ov, W.al)); STOP("argopt_parse optc 0", vt_argopt_parse(2, argv, 0, ov, W.al)); STOP("argopt_parse optv NULL", vt_argopt_parse(2, argv, 1, nullptr, W.al)); CHECK(num == 9, "a destination was changed before the stop");
      STOP("argopt_print_help optc 0", vt_argopt_print_help("h", "f", 0, ov)); STOP("argopt_print_help optv NULL", vt_argopt_print_help("h", "f", 1, nullptr)); OK("argopt_print_help", vt_argopt_print_help("h", "f", 1, ov)); OK("argopt_print_help no header", vt_argopt_print_help(nullptr, nullptr, 1, ov)); }
    for (int l : {(int)vt_log_count, (int)vt_log_count + 1, 255, INT_MAX, -1}) { STOP("log level " + std::to_string(l), vt_log("present", (enum VitaLogLevel)l, true, "", "f.c", 1, "m")); same("log"); STOP("log_get_level_str " + std::to_string(l), vt_log_get_level_str((enum VitaLogLevel)l)); STOP("log_redirect_level_output " + std::to_string(l), vt_log_redirect_level_output((enum VitaLogLevel)l, "present")); same("redirect"); }
    STOP("socket_make_address(NULL)", vt_socket_make_address(80, nullptr)); STOP("debug_printf(NULL)", vt_debug_printf("s", nullptr)); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); size_t top = deep() ? 100 : thorough() ? 40 : 8;
    for (size_t n = 0; n <= top; n++) for (int v = 0; v < 4; v++) { std::string t = std::to_string(n) + "_" + std::to_string(v);
        add_job("vec_" + t, [=] { describe = desc; cn = n; cv = v; vec_cases(); }); add_job("plist_" + t, [=] { describe = desc; cn = n; cv = v; plist_cases(); }); add_job("str_" + t, [=] { describe = desc; cn = n; cv = v; str_cases(); }); if (v == 0 && n <= 12) add_job("span_" + t, [=] { describe = desc; cn = n; cv = v; span_cases(); }); }
    for (size_t n : {100, 127, 128, 255, 256, 257, 300, 1000}) add_job("vec_" + std::to_string(n), [=] { describe = desc; cn = n; cv = n % 4; vec_cases(); });
    for (size_t n : {100, 127, 128, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65800}) { add_job("plist_" + std::to_string(n), [=] { describe = desc; cn = n; cv = n % 4; plist_cases(); }); add_job("str_" + std::to_string(n), [=] { describe = desc; cn = n; cv = n % 4; str_cases(); }); }
    add_job("rest", [=] { describe = desc; enter_job_dir("rest"); write_raw("present", "content"); rest_cases(); });
    return run_main(argc, argv, "C10");
}
