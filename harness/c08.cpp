// C08: every allocation has exactly one owner, and goes through the allocator of the object it belongs to.
#include "catalog.hpp"
using namespace mc;
namespace {
enum What { W_STR, W_VEC, W_PLIST, W_MISC };
const std::vector<CatOp> &ops_of(int w) { return w == W_STR ? str_ops() : w == W_VEC ? vec_ops() : w == W_PLIST ? plist_ops() : misc_ops(); }
const char *inits[] = {"\"xa,bxc,d\"", "empty", "exact-capacity"};
int g_w, g_k, g_i; std::vector<int> g_h;
std::string hist() { std::string r = std::string(g_w == W_STR ? "str " : g_w == W_VEC ? "vec " : g_w == W_PLIST ? "plist " : "misc ") + (g_w == W_MISC ? "" : inits[g_i]) + ", " + alname(g_k) + ": "; for (int o : g_h) r += std::string(ops_of(g_w)[o].name) + " ; "; return r; }
void run(int w, int k, int init, const std::vector<int> &h) {
    g_w = w; g_k = k; g_i = init; g_h = h; step(); live_reset();
    Cat c; c.kind = k; uint64_t ev0 = alloc_events();
    c.al = k == A_NONE ? nullptr : k == A_LIB ? vt_mallocator_create() : rec_reset();
    set_fail_alloc(-1);
    auto quiet = [&](const char *what, bool libc_ok) { if (k == A_REC && !libc_ok) CHECK(allocs_seen() == 0, "%s: memory was requested outside the object's allocator", what); set_fail_alloc(-1); };
    if (w == W_STR) { c.s = init == 1 ? vt_str_create_capacity(3, c.al) : vt_str_create("xa,bxc,d", c.al); if (init == 2) { vt_str_reserve(c.s, 1); vt_str_shrink(c.s); } }
    if (w == W_VEC) { c.v = vt_vec_create(init == 1 ? 1 : 3, 4, c.al); if (init != 1) for (int i = 0; i < 3; i++) vt_vec_push_backi32(c.v, i); }
    if (w == W_PLIST) { c.p = vt_plist_create(init == 1 ? 1 : 3, c.al); static int x[3]; if (init != 1) for (int i = 0; i < 3; i++) vt_plist_push_back(c.p, &x[i]); }
    quiet("create", false);
    for (int o : h) {
        const CatOp &op = ops_of(w)[o]; size_t live0 = live_count(); uint64_t r0 = rec().allocs;
        op.fn(c); quiet(op.name, true); // what is kept is judged below; scratch memory may come from anywhere
        if (k == A_REC) CHECK(live_count() == live0, "%s: %zd block(s) obtained outside the allocator and kept", op.name, (ssize_t)(live_count() - live0));
        (void)r0;
        CHECK(open_streams() == 0 && open_dirs() == 0, "%s: a file or directory handle stayed open", op.name);
    }
    if (c.s) vt_str_destroy(c.s); if (c.v) vt_vec_destroy(c.v); if (c.p) vt_plist_destroy(c.p);
    quiet("destroy", false);
    if (k == A_REC) CHECK(rec().live.empty(), "%zu block(s) never returned to the custom allocator", rec().live.size());
    if (k == A_LIB) { CHECK(c.al->obj_list_len == 0, "%zu block(s) never returned to the library allocator", c.al->obj_list_len); CHECK(c.al->stats.count_bytes_allocated == 0, "allocator still counts %zu bytes", c.al->stats.count_bytes_allocated); vt_mallocator_destroy(c.al); }
    CHECK(live_count() == 0, "%zu block(s), %zu bytes leaked", live_count(), live_bytes());
    count(C_TRANS, h.size() + 2); count(C_TRACES);
    uint64_t tr[5] = {(uint64_t)w * 16 + k * 4 + init, alloc_events() - ev0, k == A_REC ? rec().allocs : 0, k == A_REC ? rec().reallocs : 0, h.empty() ? 0u : (uint64_t)h.back()};
    outcome(hash_bytes(tr, sizeof tr));
}
void all(int w, int k, int init, int first, int depth, int sh = 0, int nsh = 1) {
    describe = hist; int n = (int)ops_of(w).size(); std::vector<int> h{first}; run(w, k, init, h);
    std::function<void(int)> rec_ = [&](int d) { if (!d) return; for (int o = 0; o < n; o++) { if (h.size() == 1 && o % nsh != sh) continue; h.push_back(o); run(w, k, init, h); rec_(d - 1); h.pop_back(); } };
    rec_(depth - 1);
}
// ---------------------------------------------------------------- objects with different allocators meet
// Every operation that takes objects or results with an owner each, over every assignment of owners
// {none, R1, R2}: what is kept afterwards must belong to the owner the object was given.
struct Rec2 { struct VitaBaseAllocatorType base; std::unordered_map<void *, size_t> live; };
Rec2 *R2(int i) { static Rec2 *r = new Rec2[2](); return &r[i]; }
Rec2 *of(struct VitaBaseAllocatorType *b) { for (int i = 0; i < 2; i++) if ((void *)b == (void *)&R2(i)->base) return R2(i); failf("custom allocator called with a foreign handle"); }
void *r2a(struct VitaBaseAllocatorType *const b, const size_t n, const char *const, const char *const, const size_t) { void *p = calloc(1, n); of(b)->live[p] = n; return p; }
void r2f(struct VitaBaseAllocatorType *const b, void *p, const char *const, const char *const, const size_t) { CHECK(of(b)->live.erase(p) == 1, "a block was returned to an allocator it did not come from"); free(p); }
void *r2r(struct VitaBaseAllocatorType *const b, void *q, const size_t n, const char *const, const char *const, const size_t) { Rec2 *r = of(b); auto it = r->live.find(q); CHECK(it != r->live.end(), "a block was given for reallocation to an allocator it did not come from"); size_t o = it->second; void *p = malloc(n); memset(p, 0xA5, n); memcpy(p, q, std::min(o, n)); r->live.erase(it); free(q); r->live[p] = n; return p; }
std::string g_mix; std::string mixd() { return g_mix; }
const char *own_name(int o) { return o == 0 ? "no allocator" : o == 1 ? "allocator 1" : "allocator 2"; }
vt_mallocator_t *alc(int o) { return o == 0 ? nullptr : &R2(o - 1)->base; }
void owned(const char *what, const void *p, int o) {
    CHECK(p != nullptr, "%s: no result", what);
    bool in1 = R2(0)->live.count((void *)p), in2 = R2(1)->live.count((void *)p), lib = is_live(p);
    CHECK((o == 0 && lib && !in1 && !in2) || (o == 1 && in1) || (o == 2 && in2), "%s: belongs to %s instead of %s", what, in1 ? "allocator 1" : in2 ? "allocator 2" : lib ? "no allocator" : "nobody", own_name(o));
}
void owned_s(const char *what, vt_str_t *s, int o) { owned(what, s, o); owned(what, s->ptr, o); CHECK(s->alloctr == alc(o), "%s: remembers another allocator", what); }
void owned_l(const char *what, vt_plist_t *l, int o) { owned(what, l, o); owned(what, l->ptr2, o); CHECK(l->alloctr == alc(o), "%s: remembers another allocator", what); }
void owned_pieces(const char *what, vt_plist_t *l, int o) { for (size_t i = 0; i < vt_plist_len(l); i++) owned_s(what, (vt_str_t *)vt_plist_get(l, i), o); }
void mixed() {
    describe = mixd;
    auto begin = [&](const std::string &d) { g_mix = d; step(); live_reset(); for (int i = 0; i < 2; i++) { Rec2 *r = R2(i); r->live.clear(); memset(&r->base, 0, sizeof r->base); r->base.alloc = r2a; r->base.realloc = r2r; r->base.free = r2f; } };
    auto end = [&] { for (int i = 0; i < 2; i++) CHECK(R2(i)->live.empty(), "%zu block(s) never returned to allocator %d", R2(i)->live.size(), i + 1); CHECK(live_count() == 0, "%zu block(s) leaked", live_count()); count(C_TRACES); count(C_TRANS, 3); outcome(hash_str(g_mix)); };
    // source object a, destination object b (3 = NULL destination: the result has no allocator)
    for (int a = 0; a < 3; a++) for (int b = 0; b < 4; b++) for (int pre = 0; pre < 3; pre++) {
        auto name = [&](const char *op) { return std::string(op) + ": source with " + own_name(a) + ", destination " + (b == 3 ? "NULL" : own_name(b)) + ", size " + std::to_string(pre); };
        int o = b == 3 ? 0 : b; size_t cap = pre == 0 ? 1 : pre == 1 ? 4 : 64;
        auto src = [&](const char *z) { return vt_str_create(z, alc(a)); };
        auto dst = [&]() -> vt_str_t * { if (b == 3) return nullptr; vt_str_t *d = vt_str_create_capacity(cap, alc(o)); if (pre) vt_str_append(d, "old"); return d; };
        auto dstl = [&]() -> vt_plist_t * { return b == 3 ? nullptr : vt_plist_create(cap, alc(o)); };
        for (const char *z : {"a,b", "a,bb,ccc,dddd,e,f,g,h", ",x,,y,"}) {
            begin(name("split")); { vt_str_t *s = src(z); vt_plist_t *l = vt_str_split(dstl(), s, ","); owned_l("list", l, o); owned_pieces("piece", l, o); owned_s("source", s, a); free_strs(l); vt_str_destroy(s); } end();
            begin(name("pop_get_first")); { vt_str_t *s = src(z), *d = dst(); vt_str_t *r = vt_str_pop_get_first(d, s, ","); if (r) { owned_s("result", r, o); vt_str_append(r, LONG40()); owned_s("grown result", r, o); vt_str_destroy(r); } else CHECK(!d, "destination lost"); vt_str_append(s, LONG40()); owned_s("source", s, a); vt_str_destroy(s); } end();
            begin(name("pop_get_last")); { vt_str_t *s = src(z), *d = dst(); vt_str_t *r = vt_str_pop_get_last(d, s, ","); if (r) { owned_s("result", r, o); vt_str_append(r, LONG40()); owned_s("grown result", r, o); vt_str_destroy(r); } else CHECK(!d, "destination lost"); vt_str_append(s, LONG40()); owned_s("source", s, a); vt_str_destroy(s); } end();
            begin(name("split_between")); { vt_str_t *s = src(z), *d = dst(); vt_str_t *r = vt_str_split_between(d, vt_str_z(s), ",", ","); if (r) { owned_s("result", r, o); vt_str_append(r, LONG40()); owned_s("grown result", r, o); vt_str_destroy(r); } else if (d) vt_str_destroy(d); owned_s("source", s, a); vt_str_destroy(s); } end();
        }
        begin(name("join")); { vt_plist_t *l = vt_plist_create(1, alc(a)); for (const char *z : {"one", LONG40(), "", "three"}) vt_plist_push_back(l, z); vt_str_t *r = vt_str_join(dst(), "--", l); owned_s("result", r, o); owned_l("source list", l, a); vt_str_destroy(r); vt_plist_destroy(l); } end();
        begin(name("path_build")); { vt_plist_t *l = vt_plist_create(1, alc(a)); for (const char *z : {"one", LONG40(), "three"}) vt_plist_push_back(l, z); vt_str_t *r = vt_path_build(dst(), l); owned_s("result", r, o); owned_l("source list", l, a); vt_str_destroy(r); vt_plist_destroy(l); } end();
        begin(name("path_basename")); { vt_str_t *s = src("some/long/path/0123456789012345678901234567890123456789"); vt_str_t *r = vt_path_basename(dst(), vt_str_z(s)); owned_s("result", r, o); owned_s("source", s, a); vt_str_destroy(r); vt_str_destroy(s); } end();
        if (a == 0) {
            begin(name("join_n")); { vt_str_t *r = vt_str_join_n(dst(), ",", 3, "p", LONG40(), "q"); owned_s("result", r, o); vt_str_destroy(r); } end();
            begin(name("path_build_n")); { vt_str_t *r = vt_path_build_n(dst(), 3, "p", LONG40(), "q"); owned_s("result", r, o); vt_str_destroy(r); } end();
            { static std::vector<std::string> ps; ps.clear(); for (size_t i = 0; i < 40; i++) ps.push_back("part" + std::to_string(i) + std::string(i % 5, 'x')); auto q = [&](size_t i) { return ps[i].c_str(); };
              for (size_t np = 1; np <= 36; np++) { const std::string nn = " of " + std::to_string(np) + " parts";
#define P4(i) q(i), q(i + 1), q(i + 2), q(i + 3)
#define P36 P4(0), P4(4), P4(8), P4(12), P4(16), P4(20), P4(24), P4(28), P4(32)
                begin(name("join_n") + nn); { vt_str_t *d = dst(); vt_str_t *r = vt_str_join_n(d, ",", np, P36); owned_s("result", r, o); vt_str_destroy(r); } end();
                begin(name("path_build_n") + nn); { vt_str_t *d = dst(); vt_str_t *r = vt_path_build_n(d, np, P36); owned_s("result", r, o); vt_str_destroy(r); } end();
                for (int fn = 0; fn < 2; fn++) { begin(name(fn ? "join" : "path_build") + nn); { vt_plist_t *l = vt_plist_create(1, alc(o)); for (size_t i = 0; i < np; i++) vt_plist_push_back(l, q(i)); vt_str_t *d = dst(); vt_str_t *r = fn ? vt_str_join(d, "--", l) : vt_path_build(d, l); owned_s("result", r, o); vt_str_destroy(r); vt_plist_destroy(l); } end(); }
                if (np > 1) { begin(name("split") + nn); { std::string t; for (size_t i = 0; i < np; i++) t += (i ? "," : "") + ps[i]; vt_str_t *s = vt_str_create(t.c_str(), alc(o)); vt_plist_t *d = dstl(); vt_plist_t *l = vt_str_split(d, s, ","); owned_l("list", l, o); CHECK(vt_plist_len(l) == np, "%zu pieces", vt_plist_len(l)); owned_pieces("piece", l, o); free_strs(l); vt_str_destroy(s); } end(); }
              } }
            begin(name("dir_list")); { vt_plist_t *l = vt_path_dir_list(dstl(), "tree", false); owned_l("list", l, o); CHECK(vt_plist_len(l) > 0, "empty listing"); owned_pieces("entry", l, o); vt_path_dir_free(l); } end();
            // the cursor may stand anywhere (walked forwards or backwards) when the listing is freed
            for (int rec = 0; rec < 2; rec++) for (int back = 0; back < 2; back++) for (size_t k = 1;; k++) { begin(name(rec ? "dir_list_recurse" : "dir_list") + ", freed after " + std::to_string(k) + " slide(s) " + (back ? "backwards" : "forwards")); vt_plist_t *l = rec ? vt_path_dir_list_recurse(dstl(), "tree", false) : vt_path_dir_list(dstl(), "tree", false); size_t n = vt_plist_len(l); for (size_t i = 0; i < k; i++) back ? vt_plist_slide_back(l) : vt_plist_slide_front(l); vt_path_dir_free(l); end(); if (k > n + 1) break; }
            begin(name("dir_list_recurse")); { vt_plist_t *l = vt_path_dir_list_recurse(dstl(), "tree", false); owned_l("list", l, o); CHECK(vt_plist_len(l) > 0, "empty listing"); owned_pieces("entry", l, o); vt_path_dir_free(l); } end();
        }
        if (b == 0 && pre == 0) {   // what is created with owner a belongs to a, however it grows
            auto grow_s = [&](const char *what, vt_str_t *s) { owned_s(what, s, a); vt_str_append(s, LONG40()); owned_s(what, s, a); vt_str_append(s, LONG1500()); owned_s(what, s, a); vt_str_insert_n(s, LONG1500(), 1, 1000); owned_s(what, s, a); vt_str_shrink(s); owned_s(what, s, a); vt_str_destroy(s); };
            auto mk = [&](const std::string &d, std::function<vt_str_t *()> f) { begin(d + " with " + own_name(a)); grow_s(d.c_str(), f()); end(); };
            for (const char *z : {"", "a", "abc", LONG40(), LONG1500()}) { mk("str_create", [&] { return vt_str_create(z, alc(a)); }); for (const char *pfx : {"", "~", "~/", "x~"}) for (const char *home : {(const char *)nullptr, "", "/h", LONG40()}) { std::string p = std::string(pfx) + z; mk("expand_tilda(" + p.substr(0, 9) + ")", [&] { home ? setenv("HOME", home, 1) : unsetenv("HOME"); return vt_path_expand_tilda(p.c_str(), alc(a)); }); } setenv("HOME", "/", 1); }
            for (size_t n : {1, 2, 7, 100, 5000}) { mk("str_create_len", [&] { return vt_str_create_len(n, alc(a)); }); mk("str_create_capacity", [&] { return vt_str_create_capacity(n, alc(a)); }); }
            mk("get_cwd", [&] { return vt_path_get_cwd(alc(a)); }); mk("exe_location", [&] { return vt_path_get_this_exe_location(alc(a)); });
            for (const char *f : {"empty", "small", "big"}) { mk("file_read", [&] { return vt_file_read(f, alc(a)); }); mk("file_readb", [&] { return vt_file_readb(f, alc(a)); }); }
            for (size_t e : {1, 2, 3, 4, 8, 24, 4096}) for (size_t n : {1, 2, 3, 17, 300}) { begin("vec of elements of " + std::to_string(e) + " with " + own_name(a)); vt_vec_t *v = vt_vec_create(n, e, alc(a)); std::string x(e, 'x'); for (size_t i = 0; i < n + 3; i++) { vt_vec_push_back(v, x.data()); owned("vec", v, a); owned("vec data", v->ptr, a); } vt_vec_reserve(v, 9); owned("vec data", v->ptr, a); vt_vec_shrink(v); owned("vec data", v->ptr, a); vt_vec_resize(v, 2 * n); owned("vec data", v->ptr, a); vt_vec_destroy(v); end(); }
            for (size_t n : {1, 2, 3, 17, 300, 5000}) { begin("plist with " + std::string(own_name(a))); vt_plist_t *l = vt_plist_create(n, alc(a)); for (size_t i = 0; i < n + 3; i++) { vt_plist_push_back(l, "x"); owned_l("plist", l, a); } vt_plist_reserve(l, 9); owned_l("plist", l, a); vt_plist_shrink(l); owned_l("plist", l, a); vt_plist_resize(l, 2 * n); owned_l("plist", l, a); vt_plist_destroy(l); end(); }
        }
        // duplicates: of an object with owner a, given owner o
        if (b == 3) {
            begin(name("str_dup")); { vt_str_t *s = src(pre == 0 ? "" : pre == 1 ? "abc" : LONG40()), *d = vt_str_dup(s); owned_s("duplicate", d, a); vt_str_append(d, LONG40()); owned_s("grown duplicate", d, a); owned_s("original", s, a); vt_str_destroy(s); owned_s("duplicate", d, a); vt_str_destroy(d); } end();
        } else {
            begin(name("vec_dup")); { vt_vec_t *v = vt_vec_create(cap, 4, alc(a)); for (int i = 0; i < pre * 3; i++) vt_vec_push_backi32(v, i); vt_vec_t *d = vt_vec_dup(v, alc(o)); for (int i = 0; i < 9; i++) vt_vec_push_backi32(d, i); owned("duplicate", d, o); owned("duplicate data", d->ptr, o); owned("original", v, a); owned("original data", v->ptr, a); vt_vec_destroy(v); vt_vec_destroy(d); } end();
            begin(name("plist_dup")); { vt_plist_t *v = vt_plist_create(cap, alc(a)); for (int i = 0; i < pre * 3; i++) vt_plist_push_back(v, "x"); vt_plist_t *d = vt_plist_dup(v, alc(o)); for (int i = 0; i < 9; i++) vt_plist_push_back(d, "y"); owned_l("duplicate", d, o); owned_l("original", v, a); vt_plist_destroy(v); vt_plist_destroy(d); } end();
            // parsing with allocator a into a string destination that exists already and has owner o, and a fresh one
            begin(name("argopt STR")); { vt_str_t *old = vt_str_create_capacity(cap, alc(o)), *fresh = nullptr; vt_argopt_t ov[] = {{"--old", "-o", "d", VT_ARGOPT(old), VT_TYPE_STR}, {"--new", "-n", "d", VT_ARGOPT(fresh), VT_TYPE_STR}};
                const char *av[] = {"prog", "--old", LONG40(), "-n", "v", "--new", LONG40()}; CHECK(vt_argopt_parse(7, av, 2, ov, alc(a)) == VT_ARGOPT_PARSE_SUCCESS, "not parsed"); owned_s("existing destination", old, o); owned_s("fresh destination", fresh, a); vt_str_destroy(old); vt_str_destroy(fresh); } end();
        }
    }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    for (int w : {W_STR, W_VEC, W_PLIST}) for (int k = 0; k < A_KINDS; k++) for (int i = 0; i < 3; i++) {
        int n = (int)ops_of(w).size();
        for (int f = 0; f < n; f++) { int ns = T && w == W_STR ? 4 : 1; (void)ns;
            int d = w == W_STR ? (i == 0 ? (T ? 4 : 3) : T ? 3 : 2) : (T ? 5 : 4);
            if (w == W_STR && d == 4) { for (int sh = 0; sh < 2; sh++) add_job("str_" + std::to_string(k) + std::to_string(i) + "_" + std::to_string(f) + "_" + std::to_string(sh), [=] { all(w, k, i, f, d, sh, 2); }); }
            else add_job((w == W_STR ? "str_" : w == W_VEC ? "vec_" : "plist_") + std::to_string(k) + std::to_string(i) + "_" + std::to_string(f), [=] { all(w, k, i, f, d); }); } }
    for (int k = 0; k < A_KINDS; k++) add_job("misc_" + std::to_string(k), [=] { enter_job_dir("m" + std::to_string(k)); int n = (int)misc_ops().size(); for (int f = 0; f < n; f++) all(W_MISC, k, 0, f, 2); });
    add_job("mixed_owners", [] { enter_job_dir("mixed"); mixed(); });
    return run_main(argc, argv, "C08");
}
