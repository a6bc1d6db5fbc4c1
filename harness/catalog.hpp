// catalog.hpp - catalogue of every allocating library operation, shared by C08 (ownership, routing) and C12
// (allocation failure). An operation is in contract in every state the catalogue can reach: it looks at the
// object's length first and is skipped where its precondition does not hold.
#pragma once
#include "strutil.hpp"
namespace mc {
// ---------------------------------------------------------------- recording allocator
// A user-supplied allocator: same interface as the library's, its own memory, strict about what it is handed.
struct Recorder {
    struct VitaBaseAllocatorType base;   // first member: the library sees this
    std::unordered_map<void *, size_t> live;
    uint64_t allocs, reallocs, frees;
};
inline Recorder &rec() { static Recorder *r = new Recorder(); return *r; }
inline void *rec_alloc(struct VitaBaseAllocatorType *const b, const size_t n, const char *const, const char *const, const size_t) {
    CHECK((void *)b == (void *)&rec().base, "custom allocator called with a foreign handle"); CHECK(n > 0, "custom allocator asked for 0 bytes");
    void *p = calloc(1, n); rec().live[p] = n; rec().allocs++; return p;
}
inline void rec_free(struct VitaBaseAllocatorType *const b, void *p, const char *const, const char *const, const size_t) {
    CHECK((void *)b == (void *)&rec().base, "custom allocator called with a foreign handle");
    CHECK(rec().live.erase(p) == 1, "a block the custom allocator does not own was returned to it"); rec().frees++; free(p);
}
inline void *rec_realloc(struct VitaBaseAllocatorType *const b, void *q, const size_t n, const char *const, const char *const, const size_t) {
    CHECK((void *)b == (void *)&rec().base, "custom allocator called with a foreign handle"); CHECK(n > 0, "custom allocator asked for 0 bytes");
    auto it = rec().live.find(q); CHECK(it != rec().live.end(), "a block the custom allocator does not own was given to it for reallocation");
    size_t old = it->second; void *p = malloc(n); memset(p, 0xA5, n); memcpy(p, q, std::min(old, n)); rec().live.erase(it); free(q); rec().live[p] = n; rec().reallocs++; return p;
}
inline vt_mallocator_t *rec_reset() {
    Recorder &r = rec(); for (auto &e : r.live) free(e.first); r.live.clear(); memset(&r.base, 0, sizeof r.base); r.allocs = r.reallocs = r.frees = 0;
    r.base.alloc = rec_alloc; r.base.realloc = rec_realloc; r.base.free = rec_free; return &r.base;
}
enum AlKind { A_NONE, A_LIB, A_REC, A_KINDS };
inline const char *alname(int k) { return k == A_NONE ? "no allocator" : k == A_LIB ? "library allocator" : "recording allocator"; }

struct Cat {
    int kind = A_NONE; vt_mallocator_t *al = nullptr;
    vt_str_t *s = nullptr; vt_vec_t *v = nullptr; vt_plist_t *p = nullptr;
    size_t L() const { return vt_str_len(s); }
};
typedef void (*CatFn)(Cat &);
struct CatOp { const char *name; CatFn fn; bool libc_ok; };  // libc_ok: creates a result without a given destination
inline const char *LONG1500() { static std::string *s = new std::string(1500, 'q'); return s->c_str(); }
inline const char *LONG40() { return "0123456789abcdefghijklmnopqrstuvwxyzABCD"; }
inline void free_strs(vt_plist_t *p) { for (size_t i = 0, n = vt_plist_len(p); i < n; i++) vt_str_destroy((vt_str_t *)vt_plist_get(p, i)); vt_plist_destroy(p); }
inline bool has(const vt_str_t *s, const char *z) { return strstr(vt_str_z(s), z) != nullptr; }
inline void cat_noop(char *, size_t) {}
inline void cat_noopv(void *, size_t) {}

inline const std::vector<CatOp> &str_ops() {
    static const std::vector<CatOp> *ops = new std::vector<CatOp>{
        {"append(\"\")", [](Cat &c) { vt_str_append(c.s, ""); }, false},
        {"append(\"xy\")", [](Cat &c) { vt_str_append(c.s, "xy"); }, false},
        {"append(\",\")", [](Cat &c) { vt_str_append(c.s, ","); }, false},
        {"append(40 bytes)", [](Cat &c) { vt_str_append(c.s, LONG40()); }, false},
        {"append_n(2 of 3)", [](Cat &c) { vt_str_append_n(c.s, "zzz", 2); }, false},
        {"appendf(short)", [](Cat &c) { vt_str_appendf(c.s, "%d-%s", 42, "f"); }, false},
        {"appendf(1500)", [](Cat &c) { vt_str_appendf(c.s, "%s", LONG1500()); }, false},
        {"insert(0)", [](Cat &c) { if (c.L()) vt_str_insert(c.s, "ins", 0); }, false},
        {"insert_n(end)", [](Cat &c) { vt_str_insert_n(c.s, "nnn", c.L(), 3); }, false},
        {"insertf(short)", [](Cat &c) { if (c.L()) vt_str_insertf(c.s, 0, "%d", 7); }, false},
        {"insertf(1500)", [](Cat &c) { if (c.L()) vt_str_insertf(c.s, c.L() - 1, "%s", LONG1500()); }, false},
        {"insert_before", [](Cat &c) { if (c.L() >= 1) vt_str_insert_before(c.s, "x", "before"); }, false},
        {"insert_after", [](Cat &c) { if (c.L() >= 1) vt_str_insert_after(c.s, "x", "after"); }, false},
        {"set(1)", [](Cat &c) { if (c.L() >= 1) vt_str_set(c.s, "S"); }, false},
        {"set_at(0)", [](Cat &c) { if (c.L() >= 2) vt_str_set_at(c.s, "xx", 0); }, false},
        {"set_c", [](Cat &c) { if (c.L()) vt_str_set_c(c.s, ',', c.L() - 1); }, false},
        {"remove(0,2)", [](Cat &c) { if (c.L()) vt_str_remove(c.s, 0, 2); }, false},
        {"remove_first(x)", [](Cat &c) { vt_str_remove_first(c.s, "x"); }, false},
        {"remove_last(x)", [](Cat &c) { vt_str_remove_last(c.s, "x"); }, false},
        {"remove_all(x)", [](Cat &c) { vt_str_remove_all(c.s, "x"); }, false},
        {"remove_c(x,)", [](Cat &c) { vt_str_remove_c(c.s, "x,"); }, false},
        {"replace(x,longer)", [](Cat &c) { if (c.L()) vt_str_replace(c.s, "x", "XLONGER"); }, false},
        {"replace(xy,Y)", [](Cat &c) { if (c.L() >= 2) vt_str_replace(c.s, "xy", "Y"); }, false},
        {"replace_first(x,longer)", [](Cat &c) { if (c.L()) vt_str_replace_first(c.s, "x", "FIRSTX"); }, false},
        {"replace_last(x,longer)", [](Cat &c) { if (c.L()) vt_str_replace_last(c.s, "x", "LASTX"); }, false},
        {"strip", [](Cat &c) { vt_str_strip(c.s); }, false},
        {"strip_punct", [](Cat &c) { vt_str_strip_punct(c.s); }, false},
        {"strip_c(x)", [](Cat &c) { vt_str_strip_c(c.s, "xab"); }, false},
        {"shrink", [](Cat &c) { vt_str_shrink(c.s); }, false},
        {"reserve(5)", [](Cat &c) { vt_str_reserve(c.s, 5); }, false},
        {"resize(2)", [](Cat &c) { vt_str_resize(c.s, 2); vt_str_validate_len(c.s); }, false},
        {"resize(50)", [](Cat &c) { vt_str_resize(c.s, 50); }, false},
        {"clear", [](Cat &c) { vt_str_clear(c.s); }, false},
        {"dup", [](Cat &c) { vt_str_t *d = vt_str_dup(c.s); vt_str_append(d, "dupdup"); vt_str_destroy(c.s); c.s = d; }, false},
        {"split(NULL)", [](Cat &c) { vt_plist_t *l = c.L() ? vt_str_split(nullptr, c.s, ",") : nullptr; if (l) free_strs(l); }, true},
        {"split(list)", [](Cat &c) { if (!c.L()) return; vt_plist_t *l = vt_plist_create(1, c.al); vt_str_split(l, c.s, ","); free_strs(l); }, false},
        {"split_between(NULL)", [](Cat &c) { vt_str_t *r = vt_str_split_between(nullptr, vt_str_z(c.s), "b", "d"); if (r) vt_str_destroy(r); }, true},
        {"split_between(dest)", [](Cat &c) { vt_str_t *d = vt_str_create("d", c.al); vt_str_split_between(d, vt_str_z(c.s), "b", "d"); vt_str_append(d, "more"); vt_str_destroy(d); }, false},
        {"join(NULL)", [](Cat &c) { vt_plist_t *l = vt_plist_create(2, c.al); vt_plist_push_back(l, "one"); vt_plist_push_back(l, "two"); vt_str_t *r = vt_str_join(nullptr, "--", l); vt_str_destroy(r); vt_plist_destroy(l); }, true},
        {"join(self)", [](Cat &c) { vt_plist_t *l = vt_plist_create(2, c.al); vt_plist_push_back(l, "one"); vt_plist_push_back(l, "two"); vt_str_join(c.s, "--", l); vt_plist_destroy(l); }, false},
        {"join_n(self)", [](Cat &c) { vt_str_join_n(c.s, ",", 3, "p", "q", LONG40()); }, false},
        {"join_n(NULL)", [](Cat &) { vt_str_t *r = vt_str_join_n(nullptr, ",", 2, "p", LONG40()); vt_str_destroy(r); }, true},
        {"pop_get_first(NULL)", [](Cat &c) { vt_str_t *r = vt_str_pop_get_first(nullptr, c.s, ","); if (r) vt_str_destroy(r); }, true},
        {"pop_get_first(dest)", [](Cat &c) { vt_str_t *d = vt_str_create("d", c.al); vt_str_pop_get_first(d, c.s, ","); vt_str_destroy(d); }, false},
        {"pop_get_last(NULL)", [](Cat &c) { vt_str_t *r = vt_str_pop_get_last(nullptr, c.s, ","); if (r) vt_str_destroy(r); }, true},
        {"pop_get_last(dest)", [](Cat &c) { vt_str_t *d = vt_str_create("d", c.al); vt_str_pop_get_last(d, c.s, ","); vt_str_destroy(d); }, false},
        {"find/count/case/apply", [](Cat &c) { if (c.L()) { vt_str_find(c.s, "x"); vt_str_can_find(c.s, "x"); vt_str_index_find(c.s, "x"); vt_str_starts_with(c.s, "x"); vt_str_ends_with(c.s, "x"); } vt_str_to_uppercase(c.s); vt_str_to_lowercase(c.s); vt_str_index_of(c.s, 'x'); vt_str_apply(c.s, cat_noop); vt_str_is_numeric(c.s); vt_str_equals(c.s, c.s); }, false},
        {"slide", [](Cat &c) { vt_str_slide_front(c.s); vt_str_slide_back(c.s); vt_str_slide_reset(c.s); }, false},
        {"path_build_n(self)", [](Cat &c) { vt_path_build_n(c.s, 3, "dir", "sub", "f"); }, false},
        {"path_basename(self)", [](Cat &c) { vt_path_basename(c.s, "some/long/path/to/a/file.txt"); }, false},
    };
    return *ops;
}
inline const std::vector<CatOp> &vec_ops() {
    static const std::vector<CatOp> *ops = new std::vector<CatOp>{
        {"push_front", [](Cat &c) { vt_vec_push_fronti32(c.v, 1); }, false},
        {"push_back", [](Cat &c) { vt_vec_push_backi32(c.v, 2); }, false},
        {"push_back x20", [](Cat &c) { for (int i = 0; i < 20; i++) vt_vec_push_backi32(c.v, i); }, false},
        {"insert(0)", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_inserti32(c.v, 3, 0); }, false},
        {"insert(last)", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_inserti32(c.v, 3, vt_vec_len(c.v) - 1); }, false},
        {"set", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_seti32(c.v, 4, vt_vec_len(c.v) - 1); }, false},
        {"pop", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_pop(c.v); }, false},
        {"pop_get", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_pop_geti32(c.v); }, false},
        {"remove(0,stable)", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_remove(c.v, 0, VT_REMOVE_STRATEGY_STABLE); }, false},
        {"remove(0,fast)", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_remove(c.v, 0, VT_REMOVE_STRATEGY_FAST); }, true},
        {"remove(last,fast)", [](Cat &c) { if (vt_vec_len(c.v)) vt_vec_remove(c.v, vt_vec_len(c.v) - 1, VT_REMOVE_STRATEGY_FAST); }, true},
        {"shrink", [](Cat &c) { vt_vec_shrink(c.v); }, false},
        {"clear", [](Cat &c) { vt_vec_clear(c.v); }, false},
        {"reserve(3)", [](Cat &c) { vt_vec_reserve(c.v, 3); }, false},
        {"resize(2)", [](Cat &c) { vt_vec_resize(c.v, 2); }, false},
        {"resize(30)", [](Cat &c) { vt_vec_resize(c.v, 30); }, false},
        {"dup(same)", [](Cat &c) { vt_vec_t *d = vt_vec_dup(c.v, c.al); vt_vec_push_backi32(d, 9); vt_vec_destroy(c.v); c.v = d; }, false},
        {"dup(default)", [](Cat &c) { vt_vec_t *d = vt_vec_dup(c.v, nullptr); vt_vec_push_backi32(d, 9); vt_vec_push_backi32(d, 9); vt_vec_destroy(d); }, true},
        {"find/slide/apply", [](Cat &c) { vt_vec_can_findi32(c.v, 2); vt_vec_slide_front(c.v); vt_vec_slide_back(c.v); vt_vec_slide_reset(c.v); vt_vec_apply(c.v, cat_noopv); }, false},
    };
    return *ops;
}
inline const std::vector<CatOp> &plist_ops() {
    static int a[4];
    static const std::vector<CatOp> *ops = new std::vector<CatOp>{
        {"push_front", [](Cat &c) { vt_plist_push_front(c.p, &a[0]); }, false},
        {"push_back", [](Cat &c) { vt_plist_push_back(c.p, &a[1]); }, false},
        {"push_back x20", [](Cat &c) { for (int i = 0; i < 20; i++) vt_plist_push_back(c.p, &a[i % 4]); }, false},
        {"insert(0)", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_insert(c.p, &a[2], 0); }, false},
        {"insert(last)", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_insert(c.p, &a[2], vt_plist_len(c.p) - 1); }, false},
        {"set", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_set(c.p, &a[3], vt_plist_len(c.p) - 1); }, false},
        {"pop", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_pop(c.p); }, false},
        {"pop_get", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_pop_get(c.p); }, false},
        {"remove(0,stable)", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_remove(c.p, 0, VT_REMOVE_STRATEGY_STABLE); }, false},
        {"remove(0,fast)", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_remove(c.p, 0, VT_REMOVE_STRATEGY_FAST); }, false},
        {"remove_element", [](Cat &c) { vt_plist_remove_element(c.p, &a[1], VT_REMOVE_STRATEGY_STABLE); }, false},
        {"shrink", [](Cat &c) { vt_plist_shrink(c.p); }, false},
        {"clear", [](Cat &c) { vt_plist_clear(c.p); }, false},
        {"reserve(3)", [](Cat &c) { vt_plist_reserve(c.p, 3); }, false},
        {"resize(30)", [](Cat &c) { size_t n = vt_plist_len(c.p); if (n) { vt_plist_resize(c.p, n + 30); } }, false},
        {"resize(1)", [](Cat &c) { if (vt_plist_len(c.p)) vt_plist_resize(c.p, 1); }, false},
        {"dup(same)", [](Cat &c) { vt_plist_t *d = vt_plist_dup(c.p, c.al); vt_plist_push_back(d, &a[2]); vt_plist_destroy(c.p); c.p = d; }, false},
        {"dup(default)", [](Cat &c) { vt_plist_t *d = vt_plist_dup(c.p, nullptr); vt_plist_push_back(d, &a[2]); vt_plist_push_back(d, &a[2]); vt_plist_destroy(d); }, true},
        {"find/slide", [](Cat &c) { vt_plist_can_find(c.p, &a[1]); vt_plist_slide_front(c.p); vt_plist_slide_back(c.p); vt_plist_slide_reset(c.p); }, false},
    };
    return *ops;
}
inline void write_raw(const std::string &p, const std::string &t) { FILE *f = fopen(p.c_str(), "wb"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } }
// every job that uses misc_ops works in its own directory, which it enters first
inline void enter_job_dir(const std::string &name) {
    std::string d = std::string(scratch_dir()) + "/" + name; mkdir(d.c_str(), 0755); if (chdir(d.c_str())) failf("chdir");
    mkdir("tree", 0755); mkdir("tree/sub", 0755); mkdir("tree/sub/deep", 0755); write_raw("tree/f1", "one"); write_raw("tree/.hid", "h"); write_raw("tree/sub/f2", "two"); write_raw("tree/sub/deep/f3", "three"); symlink("sub", "tree/lnk"); symlink("nowhere", "tree/dang");
    write_raw("empty", ""); write_raw("small", "hello world\n"); write_raw("big", std::string(5000, 'b'));
}
inline void cat_clean() { for (const char *d : {"new/a/b/c", "new/a/b", "new/a", "new", "new2"}) ::rmdir(d); ::unlink("w"); }  // leftovers of an interrupted scenario
template <int N, int M> inline int8_t parse_fixed(Cat &c, const char *const (&av)[N], vt_argopt_t (&ov)[M]) { return vt_argopt_parse(N, (const char **)av, M, ov, c.al); }
inline void al_free(Cat &c, void *p) { if (!p) return; if (c.al) c.al->free(c.al, p, "h", "h", 0); else vt_free(p); }
inline char *al_dup(Cat &c, const char *z) { if (c.al) { char *p = (char *)c.al->alloc(c.al, strlen(z) + 1, "h", "h", 0); strcpy(p, z); return p; } char *p = (char *)vt_calloc(strlen(z) + 1, "h", "h", 0); strcpy(p, z); return p; }

// whole-lifecycle scenarios of every other allocating operation; each cleans up what it made
inline const std::vector<CatOp> &misc_ops() {
    static const std::vector<CatOp> *ops = new std::vector<CatOp>{
        {"str create/capacity/len/empty", [](Cat &c) { vt_str_t *a = vt_str_create("abc", c.al), *b = vt_str_create_capacity(9, c.al), *d = vt_str_create_len(4, c.al), *e = vt_str_create("", c.al); vt_str_destroy(b); vt_str_destroy(a); vt_str_destroy(e); vt_str_destroy(d); }, false},
        {"take_ownership", [](Cat &c) { char *z = al_dup(c, "owned text"); vt_str_t *s = vt_str_take_ownership(z, c.al); vt_str_append(s, LONG40()); vt_str_shrink(s); vt_str_destroy(s); }, false},
        {"take_ownership(empty)", [](Cat &c) { char *z = al_dup(c, ""); vt_str_t *s = vt_str_take_ownership(z, c.al); vt_str_append(s, "x"); vt_str_destroy(s); }, false},
        {"static view", [](Cat &) { vt_str_t v = vt_str_create_static("some text, x"); vt_str_find(&v, "x"); vt_str_can_find(&v, "x"); vt_str_len(&v); vt_str_destroy(&v); }, false},
        {"view dup", [](Cat &) { vt_str_t v = vt_str_create_static("some text"); vt_str_t *d = vt_str_dup(&v); vt_str_append(d, LONG40()); vt_str_destroy(d); vt_str_destroy(&v); }, true},
        {"vec create elsizes", [](Cat &c) { for (size_t e : {1, 2, 3, 4, 8, 16, 24}) { vt_vec_t *v = vt_vec_create(3, e, c.al); char b[32] = {0}; for (int i = 0; i < 9; i++) vt_vec_push_back(v, b); vt_vec_destroy(v); } }, false},
        {"plist create", [](Cat &c) { vt_plist_t *p = vt_plist_create(1, c.al); for (int i = 0; i < 40; i++) vt_plist_push_back(p, p); vt_plist_shrink(p); vt_plist_destroy(p); }, false},
        {"empty vec/plist dup", [](Cat &c) { vt_vec_t *v = vt_vec_create(3, 4, c.al), *d = vt_vec_dup(v, c.al); vt_plist_t *p = vt_plist_create(3, c.al), *q = vt_plist_dup(p, c.al); vt_vec_destroy(d); vt_vec_destroy(v); vt_plist_destroy(p); vt_plist_destroy(q); }, false},
        {"split shapes", [](Cat &c) { for (const char *t : {"a,b,c", ",a,,b,", ",,,", "abc", "a::b"}) for (const char *sep : {",", "::", "x"}) { vt_str_t *s = vt_str_create(t, c.al); vt_plist_t *l = vt_plist_create(1, c.al); vt_plist_t *r = vt_str_split(l, s, sep); (void)r; free_strs(l); vt_str_destroy(s); } }, false},
        {"split shapes (NULL)", [](Cat &c) { for (const char *t : {"a,b,c", ",a,,b,", ",,,", "abc", "a::b"}) for (const char *sep : {",", "::", "x"}) { vt_str_t *s = vt_str_create(t, c.al); vt_plist_t *r = vt_str_split(nullptr, s, sep); if (r) free_strs(r); vt_str_destroy(s); } }, true},
        {"split_between shapes", [](Cat &c) { for (const char *t : {"a[b]c", "[]", "abc", "[abc", "abc]", "][", "[[x]]"}) { vt_str_t *d = vt_str_create_capacity(1, c.al); vt_str_split_between(d, t, "[", "]"); vt_str_destroy(d); } }, false},
        {"split_between shapes (NULL)", [](Cat &) { for (const char *t : {"a[b]c", "[]", "abc", "[abc", "abc]", "][", "[[x]]"}) { vt_str_t *r = vt_str_split_between(nullptr, t, "[", "]"); if (r) vt_str_destroy(r); } }, true},
        {"path_build", [](Cat &c) { vt_plist_t *l = vt_plist_create(1, c.al); for (const char *z : {"a", "bb", "ccc"}) vt_plist_push_back(l, z); vt_str_t *s = vt_str_create_capacity(1, c.al); vt_path_build(s, l); vt_str_destroy(s); vt_plist_destroy(l); }, false},
        {"path_build(NULL)", [](Cat &c) { vt_plist_t *l = vt_plist_create(1, c.al); for (const char *z : {"a", "bb", "ccc"}) vt_plist_push_back(l, z); vt_str_t *s = vt_path_build(nullptr, l); vt_str_destroy(s); vt_plist_destroy(l); }, true},
        {"path_build_n(NULL)", [](Cat &) { vt_str_t *s = vt_path_build_n(nullptr, 3, "a", "bb", LONG40()); vt_str_destroy(s); }, true},
        {"path_get_cwd", [](Cat &c) { vt_str_t *s = vt_path_get_cwd(c.al); CHECK(s != nullptr, "no cwd"); vt_str_append(s, "/x"); vt_str_destroy(s); }, false},
        {"path_basename(NULL)", [](Cat &) { for (const char *z : {"a/b/c.txt", "/x", "plain", "a/", "/"}) { vt_str_t *s = vt_path_basename(nullptr, z); if (s) vt_str_destroy(s); } }, true},
        {"path_expand_tilda", [](Cat &c) { setenv("HOME", "/home/somebody/with/a/long/name", 1); for (const char *z : {"~/x", "~", "a~b", "plain", ""}) { vt_str_t *s = vt_path_expand_tilda(z, c.al); CHECK(s != nullptr, "no result"); vt_str_destroy(s); } unsetenv("HOME"); vt_str_t *s = vt_path_expand_tilda("~/x", c.al); vt_str_destroy(s); }, false},
        {"path_exe_location", [](Cat &c) { vt_str_t *s = vt_path_get_this_exe_location(c.al); CHECK(s != nullptr, "no exe"); vt_str_destroy(s); }, false},
        {"dir_list(dest)", [](Cat &c) { for (bool b : {false, true}) { vt_plist_t *l = vt_plist_create(1, c.al); CHECK(vt_path_dir_list(l, "tree", b) == l, "dir_list did not use its destination"); vt_path_dir_free(l); } }, false},
        {"dir_list(NULL)", [](Cat &) { for (const char *d : {"tree", "missing", "small", "tree/sub/deep"}) { vt_plist_t *l = vt_path_dir_list(nullptr, d, false); if (l) vt_path_dir_free(l); } }, true},
        {"dir_list_recurse(dest)", [](Cat &c) { for (bool b : {false, true}) { vt_plist_t *l = vt_plist_create(1, c.al); CHECK(vt_path_dir_list_recurse(l, "tree", b) == l, "dir_list_recurse did not use its destination"); vt_path_dir_free(l); } }, false},
        {"dir_list_recurse(NULL)", [](Cat &) { for (const char *d : {"tree", "missing", "small", "tree/sub/deep"}) { vt_plist_t *l = vt_path_dir_list_recurse(nullptr, d, false); if (l) vt_path_dir_free(l); } }, true},
        {"mkdir_parents+rmdir_recurse", [](Cat &) { vt_path_mkdir_parents("new/a/b/c"); vt_path_mkdir_parents("new/a/b/c"); vt_path_mkdir_parents("small/x/y"); vt_path_mkdir_parents("new2"); vt_path_rmdir_recurse("new2"); vt_path_rmdir_recurse("new"); vt_path_rmdir_recurse("missing"); vt_path_rmdir_recurse("small"); }, true},
        {"file_read", [](Cat &c) { for (const char *f : {"small", "empty", "big", "missing", "tree"}) { vt_str_t *s = vt_file_read(f, c.al); if (s) { vt_str_append(s, "x"); vt_str_destroy(s); } } }, false},
        {"file_readb", [](Cat &c) { for (const char *f : {"small", "empty", "big", "missing", "tree"}) { vt_str_t *s = vt_file_readb(f, c.al); if (s) { vt_str_append(s, "x"); vt_str_destroy(s); } } }, false},
        {"file writes", [](Cat &) { vt_file_write("w", "x"); vt_file_appendln("w", "y"); vt_file_writefln("w", "%d", 4); vt_file_writefc("w", true, true, true, "%s", "z"); char b[8]; vt_file_read_to_buffer("w", b, 8); vt_file_read_to_buffer("missing", b, 8); }, false},
        {"argopt STR", [](Cat &c) { vt_str_t *n = nullptr, *o = vt_str_create("old", c.al); vt_argopt_t ov[] = {{"--new", "-n", "d", VT_ARGOPT(n), VT_TYPE_STR}, {"--old", "-o", "d", VT_ARGOPT(o), VT_TYPE_STR}};
            const char *av[] = {"prog", "--new=value", "-o", "0123456789abcdefghijklmnopqrstuvwxyz", "--new", "second", "--old="}; parse_fixed(c, av, ov); if (n) vt_str_destroy(n); if (o) vt_str_destroy(o); }, false},
        {"argopt CSTR", [](Cat &c) { char *n = nullptr, *o = al_dup(c, "old"); vt_argopt_t ov[] = {{"--new", "-n", "d", VT_ARGOPT(n), VT_TYPE_CSTR}, {"--old", "-o", "d", VT_ARGOPT(o), VT_TYPE_CSTR}};
            const char *av[] = {"prog", "--new=value", "-o", "0123456789abcdefghijklmnopqrstuvwxyz", "--new", "s", "--old=x", "-n", "longer than before"}; parse_fixed(c, av, ov); al_free(c, n); al_free(c, o); }, false},
        {"argopt unrecognized", [](Cat &c) { int32_t i = 0; vt_argopt_t ov[] = {{"--num", "-n", "d", VT_ARGOPT(i), VT_TYPE_INT32}}; const char *av[] = {"prog", "-n=4", "--bogus=1"}; parse_fixed(c, av, ov); const char *aw[] = {"prog", "bogus"}; parse_fixed(c, aw, ov); }, false},
        {"argopt help/invalid", [](Cat &c) { int32_t i = 0; vt_argopt_t ov[] = {{"--num", "-n", "d", VT_ARGOPT(i), VT_TYPE_INT32}}; const char *av[] = {"prog", "-h"}; parse_fixed(c, av, ov); vt_argopt_t bad[] = {{nullptr, "-n", "d", VT_ARGOPT(i), VT_TYPE_INT32}}; parse_fixed(c, av, bad); }, false},
        {"gswap", [](Cat &) { char a[9] = "12345678", b[9] = "abcdefgh"; vt_gswap(a, b, 8); }, true},
        {"gswap sizes", [](Cat &) { static char a[70001], b[70001]; for (size_t n : {1, 3, 16, 64, 65, 255, 256, 257, 300, 1024, 4096, 4097, 65536, 70001}) vt_gswap(a, b, n); }, true},
        {"long strings", [](Cat &c) { for (size_t n : {255, 256, 1024, 4096, 8192, 65535, 65536, 70001}) { std::string w(n, 'w'); vt_str_t *s = vt_str_create(w.c_str(), c.al); vt_str_append(s, w.c_str()); vt_str_insert(s, "head", 0); vt_str_appendf(s, "%s", w.c_str()); vt_str_insertf(s, 3, "%s", w.c_str()); vt_str_t *d = vt_str_dup(s); vt_str_replace_first(d, "head", w.c_str()); vt_str_remove(d, 0, n); vt_str_shrink(d); vt_str_reserve(d, n); vt_str_destroy(d); vt_str_destroy(s); } }, false},
        {"long pieces", [](Cat &c) { for (size_t n : {255, 256, 513, 1025, 4097, 65536}) { std::string w(n, 'w'); vt_str_t *s = vt_str_create((w + "," + w + ",x").c_str(), c.al); vt_plist_t *l = vt_plist_create(1, c.al); vt_str_split(l, s, ","); free_strs(l); vt_str_t *d = vt_str_create("d", c.al); vt_str_pop_get_first(d, s, ","); vt_str_pop_get_last(d, s, ","); vt_str_destroy(d); vt_str_destroy(s); } }, false},
        {"large elements", [](Cat &c) { static char buf[70001]; for (size_t e : {255, 256, 257, 1024, 4096, 65536, 70001}) { vt_vec_t *v = vt_vec_create(2, e, c.al); for (int i = 0; i < 4; i++) { buf[0] = (char)i; vt_vec_push_back(v, buf); } vt_vec_insert(v, buf, 1); vt_vec_push_front(v, buf); vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_STABLE); vt_vec_t *d = vt_vec_dup(v, c.al); vt_vec_push_back(d, buf); vt_vec_shrink(d); vt_vec_destroy(d); vt_vec_destroy(v); } }, false},
        {"large elements, fast removal", [](Cat &c) { static char buf[70001]; for (size_t e : {8, 64, 255, 256, 257, 1024, 4096, 65536, 70001}) { vt_vec_t *v = vt_vec_create(4, e, c.al); for (int i = 0; i < 4; i++) vt_vec_push_back(v, buf); vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_FAST); vt_vec_remove(v, 1, VT_REMOVE_STRATEGY_FAST); vt_vec_destroy(v); } }, true},
        {"long containers", [](Cat &c) { vt_vec_t *v = vt_vec_create(1, 4, c.al); vt_plist_t *p = vt_plist_create(1, c.al); for (int i = 0; i < 3000; i++) { vt_vec_push_backi32(v, i); vt_plist_push_back(p, p); } vt_vec_shrink(v); vt_plist_shrink(p); vt_vec_inserti32(v, 1, 5); vt_plist_insert(p, v, 7); vt_vec_destroy(v); vt_plist_destroy(p); }, false},
        {"long file texts", [](Cat &c) { for (size_t n : {4095, 4096, 4097, 70001}) { write_raw("w", std::string(n, 'x')); vt_str_t *s = vt_file_read("w", c.al), *b = vt_file_readb("w", c.al); vt_str_append(s, "y"); vt_str_append(b, "y"); vt_str_destroy(s); vt_str_destroy(b); } ::unlink("w"); }, false},
        {"mallocator lifecycle", [](Cat &) { vt_mallocator_t *m = vt_mallocator_create(); void *x = m->alloc(m, 5, "", "", 0), *y = m->alloc(m, 6, "", "", 0); x = m->realloc(m, x, 50, "", "", 0); m->free(m, y, "", "", 0); for (int i = 0; i < 40; i++) m->alloc(m, 1 + i, "", "", 0); vt_mallocator_destroy(m); (void)x; }, true},
        {"mallocator with objects", [](Cat &) { vt_mallocator_t *m = vt_mallocator_create(); vt_str_t *s = vt_str_create("abc", m); vt_str_append(s, LONG40()); vt_vec_t *v = vt_vec_create(1, 4, m); vt_vec_push_backi32(v, 1); vt_vec_push_backi32(v, 1); vt_mallocator_destroy(m); }, true},
        {"core malloc", [](Cat &) { for (size_t n : {1, 7, 16, 255, 4096, 70001}) { char *p = (char *)vt_malloc(n, "f", "g", 1); CHECK(p != nullptr, "vt_malloc returned no block"); memset(p, 1, n); vt_free(p); } }, true},
        {"core calloc", [](Cat &) { for (size_t n : {1, 7, 16, 255, 4096, 70001}) { char *p = (char *)vt_calloc(n, "f", "g", 1); CHECK(p != nullptr, "vt_calloc returned no block"); for (size_t i = 0; i < n; i++) CHECK(p[i] == 0, "vt_calloc left byte %zu of %zu not cleared", i, n); memset(p, 1, n); vt_free(p); } }, true},
        {"core realloc", [](Cat &) { for (size_t n : {1, 7, 16, 255, 4096, 70001}) for (size_t m : {1, 8, 300, 5000, 80000}) { char *p = (char *)vt_realloc(nullptr, n, "f", "g", 1); CHECK(p != nullptr, "vt_realloc returned no block"); memset(p, 5, n); p = (char *)vt_realloc(p, m, "f", "g", 1); CHECK(p != nullptr, "vt_realloc returned no block"); for (size_t i = 0; i < (n < m ? n : m); i++) CHECK(p[i] == 5, "vt_realloc lost byte %zu going from %zu to %zu", i, n, m); memset(p, 6, m); vt_free(p); } }, true},
        {"conv/datetime text", [](Cat &) { char b[64]; vt_datetime_get_now_as_text(b, 64); }, false},
    };
    return *ops;
}
} // namespace mc
