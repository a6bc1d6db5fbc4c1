// C12: every allocation request of every catalogue operation fails in turn; the program must end with a failure
// status, without returning from the operation, without touching invalid memory or other objects.
#include "catalog.hpp"
using namespace mc;
namespace {
enum What { W_STR, W_VEC, W_PLIST, W_MISC };
const std::vector<CatOp> &ops_of(int w) { return w == W_STR ? str_ops() : w == W_VEC ? vec_ops() : w == W_PLIST ? plist_ops() : misc_ops(); }
int g_w, g_k; std::vector<int> g_h; long g_req; int g_in;
std::string hist() { std::string r = std::string(g_w == W_STR ? "str, " : g_w == W_VEC ? "vec, " : g_w == W_PLIST ? "plist, " : "") + alname(g_k) + (g_in ? ", initially empty" : "") + ": "; for (int o : g_h) r += std::string(ops_of(g_w)[o].name) + " ; "; return r + (g_req < 0 ? "" : "request #" + std::to_string(g_req) + " of the last operation fails"); }
void make(Cat &c, int w, int k, int init) {
    if (w == W_MISC) cat_clean();
    c.kind = k; c.al = k == A_LIB ? vt_mallocator_create() : nullptr;
    if (w == W_STR) c.s = init ? vt_str_create_capacity(1, c.al) : vt_str_create("xa,bxc,d", c.al);
    if (w == W_VEC) { c.v = vt_vec_create(3, 4, c.al); if (!init) for (int i = 0; i < 3; i++) vt_vec_push_backi32(c.v, i); }
    if (w == W_PLIST) { static int x[3]; c.p = vt_plist_create(3, c.al); if (!init) for (int i = 0; i < 3; i++) vt_plist_push_back(c.p, &x[i]); }
}
// objects that have nothing to do with the failing operation: their bytes must survive it
struct Bystander { vt_str_t *s; vt_vec_t *v; vt_mallocator_t *m; void *blk; };
void bystander_make(Bystander &b) { b.s = vt_str_create("bystander text", nullptr); b.v = vt_vec_create(2, 8, nullptr); vt_vec_push_backi64(b.v, 0x1122334455667788); b.m = vt_mallocator_create(); b.blk = b.m->alloc(b.m, 32, "", "", 0); memset(b.blk, 0x5c, 32); }
void bystander_check(const Bystander &b, const char *when) {
    CHECK(vt_str_len(b.s) == 14 && !strcmp(vt_str_z(b.s), "bystander text"), "%s: an unrelated string was damaged", when);
    CHECK(vt_vec_len(b.v) == 1 && vt_vec_geti64(b.v, 0) == 0x1122334455667788, "%s: an unrelated vector was damaged", when);
    CHECK(b.m->obj_list_len == 1 && b.m->obj_list[0].ptr == b.blk && b.m->stats.count_bytes_allocated == 32, "%s: an unrelated allocator was damaged", when);
    for (int i = 0; i < 32; i++) CHECK(((unsigned char *)b.blk)[i] == 0x5c, "%s: an unrelated block was damaged", when);
}
void one(int w, int k, int init, const std::vector<int> &h) {
    g_w = w; g_k = k; g_h = h; g_in = init; g_req = -1;
    // dry run: how many requests does the last operation make?
    long nreq; { release_leaked(); Cat c; make(c, w, k, init); for (size_t i = 0; i + 1 < h.size(); i++) ops_of(w)[h[i]].fn(c); set_fail_alloc(-1); if (!h.empty()) ops_of(w)[h.back()].fn(c); nreq = allocs_seen(); release_leaked(); }
    for (long r = 0; r < nreq; r++) {
        g_req = r; step(); Bystander b; bystander_make(b); Cat c; make(c, w, k, init); for (size_t i = 0; i + 1 < h.size(); i++) ops_of(w)[h[i]].fn(c);
        set_fail_alloc(r);
        GuardResult g = guard([&] { ops_of(w)[h.back()].fn(c); });
        bool fired = alloc_fault_fired(); set_fail_alloc(-1);
        CHECK(fired, "request #%ld was not reached again (the operation is not deterministic)", r);
        CHECK(g.how != RETURNED, "the operation returned although memory request #%ld of %ld failed", r, nreq);
        CHECK(stopped_with_failure(g), "the program ended with status %d (success) although a memory request failed", g.code);
        bystander_check(b, "after the failed request"); count(C_FAULTS); count(C_EVALS); count(C_STOPS);
        uint64_t o[3] = {(uint64_t)w * 4 + k, (uint64_t)h.back(), (uint64_t)r}; outcome(hash_bytes(o, sizeof o)); release_leaked();
    }
    count(C_EVALS);
}
void creation(int k) { // failure of each request while objects are being created
    for (int w : {W_STR, W_VEC, W_PLIST}) for (int init : {0, 1}) { g_w = w; g_k = k; g_in = init; g_h.clear(); set_fail_alloc(-1); { Cat c; make(c, w, k, init); } long n = allocs_seen(); release_leaked();
        for (long r = 0; r < n; r++) { g_req = r; step(); Bystander b; bystander_make(b); set_fail_alloc(r); Cat c; GuardResult g = guard([&] { make(c, w, k, init); }); set_fail_alloc(-1); CHECK(g.how != RETURNED, "creation returned although memory request #%ld failed", r); CHECK(stopped_with_failure(g), "status %d", g.code); bystander_check(b, "after the failed creation"); count(C_FAULTS); count(C_EVALS); release_leaked(); } }
}
void constructors(int k) { // every constructor on its own: it may not come back with a block missing
    typedef void (*F)(VitaBaseAllocatorType *);
    static const struct { const char *n; F f; } list[] = {
        {"mallocator_create", [](VitaBaseAllocatorType *) { vt_mallocator_create(); }},
        {"str_create", [](VitaBaseAllocatorType *a) { vt_str_create("abc", a); }}, {"str_create_len", [](VitaBaseAllocatorType *a) { vt_str_create_len(40, a); }}, {"str_create_capacity", [](VitaBaseAllocatorType *a) { vt_str_create_capacity(40, a); }},
        {"vec_create 1", [](VitaBaseAllocatorType *a) { vt_vec_create(1, 1, a); }}, {"vec_create 64x24", [](VitaBaseAllocatorType *a) { vt_vec_create(64, 24, a); }}, {"plist_create 1", [](VitaBaseAllocatorType *a) { vt_plist_create(1, a); }}, {"plist_create 64", [](VitaBaseAllocatorType *a) { vt_plist_create(64, a); }},
        {"allocator alloc", [](VitaBaseAllocatorType *a) { if (a) a->alloc(a, 24, "f", "g", 1); }},
        {"allocator fill", [](VitaBaseAllocatorType *a) { if (a) for (int i = 0; i < 70; i++) a->alloc(a, 8 + i, "f", "g", 1); }},
        {"allocator realloc", [](VitaBaseAllocatorType *a) { if (a) { void *q = a->alloc(a, 24, "f", "g", 1); a->realloc(a, q, 400, "f", "g", 1); } }},
    };
    static std::string what; describe = [] { return what; };
    for (auto &e : list) for (int used : {0, 1}) {
        auto setup = [&]() -> vt_mallocator_t * { vt_mallocator_t *m = k == A_LIB ? vt_mallocator_create() : nullptr; if (m && used) for (int i = 0; i < 20; i++) m->alloc(m, 5 + i, "f", "g", 1); return m; };
        what = std::string(e.n) + ", " + alname(k); step(); vt_mallocator_t *m = setup(); set_fail_alloc(-1); e.f(m); long n = allocs_seen(); release_leaked();
        for (long r = 0; r < n; r++) {
            what = std::string(e.n) + ", " + alname(k) + ", request #" + std::to_string(r) + " fails"; step(); Bystander b; bystander_make(b); m = setup(); set_fail_alloc(r); GuardResult g = guard([&] { e.f(m); }); set_fail_alloc(-1);
            CHECK(g.how != RETURNED, "it returned although memory request #%ld of %ld failed", r, n); CHECK(stopped_with_failure(g), "the program ended with status %d", g.code); bystander_check(b, "after the failed request");
            count(C_FAULTS); count(C_EVALS); count(C_STOPS); outcome(hash_str(what, used)); release_leaked();
        }
    }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    for (int k : {A_NONE, A_LIB}) {
        add_job("create_" + std::to_string(k), [=] { describe = hist; creation(k); });
        add_job("constructors_" + std::to_string(k), [=] { constructors(k); });
        for (int w : {W_STR, W_VEC, W_PLIST}) for (int init : {0, 1}) for (int f = 0; f < (int)ops_of(w).size(); f++) add_job((w == W_STR ? "str_" : w == W_VEC ? "vec_" : "plist_") + std::to_string(k) + std::to_string(init) + "_" + std::to_string(f), [=] { describe = hist; int n = (int)ops_of(w).size(); one(w, k, init, {f}); for (int g = 0; g < n; g++) { one(w, k, init, {f, g}); if (T || w != W_STR) for (int q = 0; q < n; q++) one(w, k, init, {f, g, q}); } });
        add_job("misc_" + std::to_string(k), [=] { describe = hist; enter_job_dir("m" + std::to_string(k)); for (int f = 0; f < (int)misc_ops().size(); f++) { if (T) for (int e = 0; e < (int)misc_ops().size(); e++) one(W_MISC, k, 0, {e, f}); one(W_MISC, k, 0, {f}); } });
    }
    return run_main(argc, argv, "C12");
}
