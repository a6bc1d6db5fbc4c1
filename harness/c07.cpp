// C07: slide_front / slide_back / slide_reset / apply on vec, str, plist.
#include "strutil.hpp"
#include "space.hpp"
using namespace mc;
namespace {
enum CK { VEC1, VEC3, VEC8, STR, PLIST, NCK }; const char *ckn[] = {"vec(1)", "vec(3)", "vec(8)", "str", "plist"};
size_t els(CK k) { return k == VEC1 ? 1 : k == VEC3 ? 3 : 8; }
// element ids are unique per container, so a visited element identifies its index
struct Sys { CK k; void *h = nullptr; std::vector<unsigned> m; size_t c = 0; unsigned next = 0; std::vector<int> visits; };
void put(CK k, unsigned id, unsigned char *b) { memset(b, 0, 8); b[0] = (unsigned char)(id & 0xff); if (els(k) > 1) { b[1] = (unsigned char)(id >> 8); b[els(k) - 1] ^= 0x5a; } }
void push(Sys &s) {
    unsigned id = s.next++; unsigned char b[8];
    if (s.k == STR) { id = id % 250 + 1; char z[2] = {(char)id, 0}; vt_str_append((vt_str_t *)s.h, z); } else if (s.k == PLIST) { vt_plist_push_back((vt_plist_t *)s.h, (void *)(uintptr_t)(0x1000 + id)); } else { put(s.k, id, b); vt_vec_push_back((vt_vec_t *)s.h, b); }
    s.m.push_back(id);
}
void pop(Sys &s) { if (s.k == STR) vt_str_remove((vt_str_t *)s.h, s.m.size() - 1, 1); else if (s.k == PLIST) vt_plist_pop((vt_plist_t *)s.h); else vt_vec_pop((vt_vec_t *)s.h); s.m.pop_back(); }
void make(Sys &s, CK k, size_t n) { s.k = k; s.h = k == STR ? (void *)vt_str_create_capacity(2, nullptr) : k == PLIST ? (void *)vt_plist_create(2, nullptr) : (void *)vt_vec_create(2, els(k), nullptr); for (size_t i = 0; i < n; i++) push(s); }
void drop(Sys &s) { if (s.k == STR) vt_str_destroy((vt_str_t *)s.h); else if (s.k == PLIST) vt_plist_destroy((vt_plist_t *)s.h); else vt_vec_destroy((vt_vec_t *)s.h); CHECK(live_count() == 0, "leak"); }
void expect(Sys &s, void *got, long idx, const char *op) {
    if (idx < 0) { CHECK(got == nullptr, "%s after the end did not report the end", op); return; }
    CHECK(got != nullptr, "%s reported the end, expected element %ld of %zu", op, idx, s.m.size());
    if (s.k == PLIST) CHECK(got == (void *)(uintptr_t)(0x1000 + s.m[idx]), "%s visited pointer #%ld, expected element %ld of %zu", op, (long)((uintptr_t)got - 0x1000), idx, s.m.size());
    else { size_t e = s.k == STR ? 1 : els(s.k); char *base = (char *)vt_array_head((vt_vec_t *)s.h); CHECK(got == base + idx * e, "%s returned offset %td, expected element %ld (size %zu) of %zu", op, (char *)got - base, idx, e, s.m.size());
        unsigned char b[8]; if (s.k == STR) b[0] = (unsigned char)s.m[idx]; else put(s.k, s.m[idx], b); CHECK(!memcmp(got, b, e), "%s: element %ld has wrong bytes", op, idx); }
}
struct Op { int code; }; enum { FRONT, BACK, RESET, READ, PUSH, POP, APPLY, CLEAR, MUT, DUP };
const char *names[] = {"front", "back", "reset", "read", "push", "pop", "apply", "clear", "reserve+shrink", "iterate a duplicate"};
std::vector<std::pair<void *, size_t>> g_seen; void seen_v(void *p, size_t i) { g_seen.push_back({p, i}); } void seen_c(char *p, size_t i) { g_seen.push_back({p, i}); }
void apply(Sys &s, const Op &o) {
    vt_vec_t *v = (vt_vec_t *)s.h;
    switch (o.code) {
    case FRONT: case BACK: { bool f = o.code == FRONT; void *p = s.k == STR ? (void *)(f ? vt_str_slide_front(v) : vt_str_slide_back(v)) : s.k == PLIST ? (f ? vt_plist_slide_front(v) : vt_plist_slide_back(v)) : (f ? vt_vec_slide_front(v) : vt_vec_slide_back(v));
        long want = -1; if (s.c < s.m.size()) { want = f ? (long)s.c : (long)(s.m.size() - 1 - s.c); s.c++; } else s.c = 0; expect(s, p, want, f ? "slide_front" : "slide_back"); s.visits.push_back((int)want); break; }
    case RESET: if (s.k == STR) vt_str_slide_reset(v); else if (s.k == PLIST) vt_plist_slide_reset(v); else vt_vec_slide_reset(v); s.c = 0; break;
    case READ: (void)vt_array_len(v); (void)vt_array_capacity(v); (void)vt_array_has_space(v); if (!s.m.empty()) { if (s.k == PLIST) { vt_plist_get(v, 0); vt_plist_can_find(v, (void *)0x1000); } else if (s.k == STR) { vt_str_find(v, "x"); vt_str_z(v); } else { unsigned char b[8]; put(s.k, 0, b); vt_vec_get(v, s.m.size() - 1); vt_vec_can_find(v, b); } } break;
    case PUSH: push(s); break;
    case POP: pop(s); break;
    case CLEAR: if (s.k == STR) vt_str_clear(v); else if (s.k == PLIST) vt_plist_clear(v); else vt_vec_clear(v); s.m.clear(); break;
    case MUT: if (s.k == STR) { vt_str_reserve(v, 3); vt_str_shrink(v); } else if (s.k == PLIST) { vt_plist_reserve(v, 3); vt_plist_shrink(v); } else { vt_vec_reserve(v, 3); vt_vec_shrink(v); } break;
    case DUP: { Sys d; d.k = s.k; d.m = s.m; d.h = s.k == STR ? (void *)vt_str_dup(v) : s.k == PLIST ? (void *)vt_plist_dup(v, nullptr) : (void *)vt_vec_dup(v, nullptr); // a new object: its iteration starts at its beginning
        for (int dir : {FRONT, BACK}) for (size_t i = 0; i <= d.m.size(); i++) apply(d, {dir}); if (s.k == STR) vt_str_destroy((vt_str_t *)d.h); else if (s.k == PLIST) vt_plist_destroy((vt_plist_t *)d.h); else vt_vec_destroy((vt_vec_t *)d.h); break; }
    case APPLY: { g_seen.clear(); if (s.k == STR) vt_str_apply(v, seen_c); else if (s.k == PLIST) vt_plist_apply(v, seen_v); else vt_vec_apply(v, seen_v);
        CHECK(g_seen.size() == s.m.size(), "apply made %zu calls for %zu elements", g_seen.size(), s.m.size()); for (size_t i = 0; i < g_seen.size(); i++) { CHECK(g_seen[i].second == i, "apply call %zu has index %zu", i, g_seen[i].second); expect(s, g_seen[i].first, (long)i, "apply"); } break; }
    }
}
Explorer<Sys, Op> mk(CK k, size_t n0, size_t maxlen, const char *what) {
    Explorer<Sys, Op> ex; ex.init = [=](Sys &s) { make(s, k, n0); }; ex.fini = drop; ex.apply = apply; ex.verify = [](Sys &s) { CHECK(vt_array_len((vt_vec_t *)s.h) == s.m.size(), "length changed by iterating"); };
    ex.menu = [=](const Sys &s) { std::vector<Op> r{{FRONT}, {BACK}, {RESET}, {READ}, {APPLY}, {DUP}}; if (s.m.size() < maxlen) r.push_back({PUSH}); if (!s.m.empty()) { r.push_back({POP}); r.push_back({MUT}); } if (s.c == 0) r.push_back({CLEAR}); return r; };
    ex.key = [](const Sys &s) { std::string k = std::to_string(s.c) + "/" + std::to_string(s.m.size()) + "/" + std::to_string(vt_array_capacity((vt_vec_t *)s.h)); size_t n = s.visits.size(); for (size_t i = n > 2 ? n - 2 : 0; i < n; i++) k += "," + std::to_string(s.visits[i]); return k; };
    ex.opstr = [](const Op &o) { return std::string(names[o.code]); }; ex.label = std::string(ckn[k]) + " n=" + std::to_string(n0) + " " + what; return ex;
}
void passes(CK k, size_t lo, size_t hi) {
    size_t n = 0; std::string ph; describe = [&] { return std::string(ckn[k]) + " of length " + std::to_string(n) + ": " + ph; };
    for (n = lo; n < hi; n++) for (int dir : {FRONT, BACK}) { step(); live_reset(); Sys s; make(s, k, n); ph = dir == FRONT ? "three front passes" : "three back passes";
        for (int pass = 0; pass < 3; pass++) for (size_t i = 0; i <= n; i++) apply(s, {dir});
        ph = "reset mid-way"; for (size_t i = 0; i < n / 2 + 1; i++) apply(s, {dir}); apply(s, {RESET}); for (size_t i = 0; i <= n; i++) apply(s, {dir == FRONT ? BACK : FRONT}); ph = "apply"; apply(s, {APPLY});
        ph = "grown"; push(s); push(s); for (size_t i = 0; i <= n + 2; i++) apply(s, {dir}); ph = "shortened"; pop(s); for (size_t i = 0; i <= n + 1; i++) apply(s, {dir}); apply(s, {APPLY}); outcome(hash_bytes(s.visits.data(), s.visits.size() * sizeof(int), k * 7 + dir)); drop(s); count(C_TRANS, 8 * n + 12); count(C_TRACES); }
}
// every subset of elements that hold a zero value (a NULL slot, a NUL character, an all-zero element): iterating visits those too
void blanks(CK k, size_t maxn) {
    size_t n = 0; unsigned mask = 0; const char *ph = ""; describe = [&] { return std::string(ckn[k]) + " of length " + std::to_string(n) + ", zero-valued elements mask " + std::to_string(mask) + ": " + ph; };
    for (n = 1; n <= maxn; n++) for (mask = 0; mask < 1u << n; mask++) { step(); live_reset(); Sys s; make(s, k, n); vt_vec_t *v = (vt_vec_t *)s.h; const size_t e = k == STR ? 1 : els(k); unsigned char z[8] = {0}; 
        for (size_t i = 0; i < n; i++) if (mask >> i & 1) { if (k == PLIST) v->ptr2[i] = nullptr; else if (k == STR) vt_str_set_c(v, 0, i); else vt_vec_set(v, z, i); }
        auto same = [&](void *got, size_t i, const char *op) { bool blank = mask >> i & 1; if (k == PLIST) { CHECK(got == (blank ? nullptr : (void *)(uintptr_t)(0x1000 + s.m[i])), "%s: element %zu is %p", op, i, got); return; }
            char *base = (char *)vt_array_head(v); CHECK(got == base + i * e, "%s: expected element %zu", op, i); unsigned char b[8]; if (k == STR) b[0] = (unsigned char)s.m[i]; else put(k, s.m[i], b); CHECK(!memcmp(got, blank ? z : b, e), "%s: element %zu has wrong bytes", op, i); };
        ph = "apply"; g_seen.clear(); if (k == STR) vt_str_apply(v, seen_c); else if (k == PLIST) vt_plist_apply(v, seen_v); else vt_vec_apply(v, seen_v); CHECK(g_seen.size() == n, "apply made %zu calls for %zu elements", g_seen.size(), n);
        for (size_t i = 0; i < n; i++) { CHECK(g_seen[i].second == i, "apply call %zu has index %zu", i, g_seen[i].second); same(g_seen[i].first, i, "apply"); }
        for (int pass = 0; pass < 2; pass++) for (bool f : {true, false}) { ph = f ? "slide_front" : "slide_back"; for (size_t j = 0; j <= n; j++) { void *got = k == STR ? (void *)(f ? vt_str_slide_front(v) : vt_str_slide_back(v)) : k == PLIST ? (f ? vt_plist_slide_front(v) : vt_plist_slide_back(v)) : (f ? vt_vec_slide_front(v) : vt_vec_slide_back(v)); if (j == n) CHECK(!got, "the end is not reported"); else same(got, f ? j : n - 1 - j, ph); count(C_TRANS); } }
        CHECK(vt_array_len(v) == n, "length changed by iterating"); outcome(hash_bytes(&mask, sizeof mask, n * 8 + k)); count(C_TRACES); drop(s); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    for (int k = 0; k < NCK; k++) for (size_t n = 0; n <= 3; n++) {
        add_job("bfs_" + std::string(ckn[k]) + "_" + std::to_string(n), [=] { auto ex = mk((CK)k, n, T ? 5 : 4, "bfs"); ex.bfs(); });
        for (int sh = 0; sh < (T ? 8 : 1); sh++) add_job("seq_" + std::string(ckn[k]) + "_" + std::to_string(n) + "_" + std::to_string(sh), [=] { auto ex = mk((CK)k, n, 5, "all sequences"); ex.all_sequences(T ? 7 : 5, sh, T ? 8 : 1); }); }
    for (int k = 0; k < NCK; k++) for (size_t lo = 0; lo < (T ? 2100u : 300u); lo += 100) add_job("pass_" + std::to_string(k) + "_" + std::to_string(lo), [=] { passes((CK)k, lo, lo + 100); });
    for (int k = 0; k < NCK; k++) for (size_t n : {511, 1023, 2047, 4095, 8191, 16383, 32767, 65534, 70001}) add_job("large_" + std::to_string(k) + "_" + std::to_string(n), [=] { passes((CK)k, n, n + (T ? 4 : 3)); });
    for (int k = 0; k < NCK; k++) add_job("blanks_" + std::to_string(k), [=] { blanks((CK)k, T ? 12 : 8); });
    return run_main(argc, argv, "C07");
}
