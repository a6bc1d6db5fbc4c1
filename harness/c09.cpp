// C09: accounting allocator vs an ideal ledger.
#include "mc.hpp"
#include "space.hpp"
using namespace mc;
namespace {
struct Blk { unsigned char *p; size_t n; unsigned char fill; };
struct Sys { vt_mallocator_t *a = nullptr; std::vector<Blk> live; uint64_t allocs = 0, reallocs = 0, frees = 0, bytes = 0, freed = 0; unsigned char next = 1; std::vector<void *> foreign; };
struct Op { int code; size_t i, n; }; enum { ALLOC, REALLOC, FREE, FREE_FOREIGN };
std::string opstr(const Op &o) { char b[80]; const char *nm[] = {"alloc", "realloc", "free", "free_foreign"}; snprintf(b, sizeof b, "%s(#%zu,%zu)", nm[o.code], o.i, o.n); return b; }
void paint(Blk &b, unsigned char f) { b.fill = f; for (size_t i = 0; i < b.n; i++) b.p[i] = (unsigned char)(f + i * 7); }
void intact(const Blk &b, size_t n, const char *when) { for (size_t i = 0; i < n; i++) CHECK(b.p[i] == (unsigned char)(b.fill + i * 7), "%s: byte %zu of a %zu-byte block changed", when, i, b.n); }
bool via_fn = true;
void *al(Sys &s, size_t n) { return via_fn ? s.a->alloc(s.a, n, "file", "func", 1) : vt_mallocator_alloc(s.a, n, "file", "func", 1); }
void apply(Sys &s, const Op &o) {
    switch (o.code) {
    case ALLOC: { Blk b; b.n = o.n; b.p = (unsigned char *)al(s, o.n); CHECK(b.p != nullptr, "alloc returned nothing"); CHECK(mem_ok(b.p, o.n), "alloc(%zu): block is not usable for its size", o.n);
        for (size_t i = 0; i < o.n; i++) CHECK(b.p[i] == 0, "alloc(%zu): byte %zu is not zero", o.n, i);
        for (auto &x : s.live) CHECK(b.p + b.n <= x.p || x.p + x.n <= b.p, "alloc returned a block that overlaps a live one");
        paint(b, s.next += 37); s.live.push_back(b); s.allocs++; s.bytes += o.n; break; }
    case REALLOC: { Blk &b = s.live[o.i]; size_t old = b.n; b.p = (unsigned char *)(via_fn ? s.a->realloc(s.a, b.p, o.n, "file", "func", 2) : vt_mallocator_realloc(s.a, b.p, o.n, "file", "func", 2)); CHECK(b.p != nullptr, "realloc returned nothing"); CHECK(mem_ok(b.p, o.n), "realloc(%zu): block is not usable for its size", o.n);
        b.n = o.n; intact(b, std::min(old, o.n), "realloc"); paint(b, s.next += 37); s.reallocs++; s.bytes += o.n; s.bytes -= old; if (o.n < old) s.freed += old - o.n; break; }
    case FREE: { Blk b = s.live[o.i]; intact(b, b.n, "free"); if (via_fn) s.a->free(s.a, b.p, "file", "func", 3); else vt_mallocator_free(s.a, b.p, "file", "func", 3); CHECK(!is_live(b.p), "free did not release the block"); s.live.erase(s.live.begin() + o.i); s.frees++; s.bytes -= b.n; s.freed += b.n; break; }
    case FREE_FOREIGN: { void *p = tracked_malloc(o.n); s.a->free(s.a, p, "file", "func", 4); CHECK(!is_live(p), "a block the allocator does not track was not released"); break; }
    }
}
void verify(Sys &s) {
    CHECK(s.a->obj_list_len == s.live.size(), "%zu live blocks listed, %zu are live", s.a->obj_list_len, s.live.size());
    CHECK(s.a->obj_list_capacity >= s.a->obj_list_len, "list capacity below its length"); CHECK(mem_ok(s.a->obj_list, s.a->obj_list_len * sizeof(struct VitaAllocatedObject)), "live-block list is not backed by memory");
    for (auto &b : s.live) { size_t k = 0; for (size_t i = 0; i < s.a->obj_list_len; i++) if (s.a->obj_list[i].ptr == b.p) { k++; CHECK(s.a->obj_list[i].bytes == b.n, "a %zu-byte block is listed with %zu bytes", b.n, s.a->obj_list[i].bytes); } CHECK(k == 1, "a live block is listed %zu times", k); intact(b, b.n, "live block"); size_t sz; CHECK(is_live(b.p, &sz) && sz == b.n, "a live block was released"); }
    auto &t = s.a->stats; CHECK(t.count_allocs == s.allocs, "count_allocs %zu, expected %llu", t.count_allocs, (unsigned long long)s.allocs); CHECK(t.count_reallocs == s.reallocs, "count_reallocs %zu, expected %llu", t.count_reallocs, (unsigned long long)s.reallocs); CHECK(t.count_frees == s.frees, "count_frees %zu, expected %llu", t.count_frees, (unsigned long long)s.frees);
    CHECK(t.count_bytes_allocated == s.bytes, "count_bytes_allocated %zu, expected %llu", t.count_bytes_allocated, (unsigned long long)s.bytes); CHECK(t.count_bytes_freed == s.freed, "count_bytes_freed %zu, expected %llu", t.count_bytes_freed, (unsigned long long)s.freed);
    CHECK(live_count() > s.live.size() && live_count() <= s.live.size() + 6, "%zu blocks alive, of which the user holds %zu", live_count(), s.live.size()); // the allocator's own records are a handful of blocks
}
void init(Sys &s) { s.a = vt_mallocator_create(); CHECK(s.a && s.a->obj_list_len == 0 && s.a->stats.count_allocs == 0 && s.a->stats.count_reallocs == 0 && s.a->stats.count_frees == 0 && s.a->stats.count_bytes_allocated == 0 && s.a->stats.count_bytes_freed == 0, "a new allocator is not empty"); }
void fini(Sys &s) { vt_mallocator_destroy(s.a); CHECK(live_count() == 0, "destroy left %zu block(s), %zu bytes", live_count(), live_bytes()); }
std::string key(const Sys &s) { std::string k; for (auto &b : s.live) k += std::to_string(b.n) + ","; k += "|" + std::to_string(s.allocs) + "/" + std::to_string(s.reallocs) + "/" + std::to_string(s.frees) + "/" + std::to_string(s.bytes) + "/" + std::to_string(s.freed); 
    for (size_t i = 0; i < s.a->obj_list_len; i++) for (size_t j = 0; j < s.live.size(); j++) if (s.live[j].p == s.a->obj_list[i].ptr) k += "." + std::to_string(j); return k; }
Explorer<Sys, Op> mk(size_t maxlive, std::vector<size_t> sizes, const char *what) {
    Explorer<Sys, Op> ex; ex.init = init; ex.fini = fini; ex.apply = apply; ex.verify = verify; ex.key = key; ex.opstr = opstr; ex.label = what;
    ex.menu = [=](const Sys &s) { std::vector<Op> r; if (s.live.size() < maxlive) for (size_t n : sizes) r.push_back({ALLOC, 0, n}); for (size_t i = 0; i < s.live.size(); i++) { r.push_back({FREE, i, 0}); for (size_t n : sizes) r.push_back({REALLOC, i, n}); } r.push_back({FREE_FOREIGN, 0, 5}); return r; };
    return ex;
}
// n live blocks (list growth), then a free or realloc at every position, then everything freed in an order
void many(size_t lo, size_t hi) {
    std::string d; describe = [&] { return d; };
    for (size_t n = lo; n < hi; n++) for (size_t pos = 0; pos < (n ? n : 1); pos += (n > 100 ? n / 50 : 1)) for (int mode = 0; mode < 6; mode++) {
        d = std::to_string(n) + " blocks, position " + std::to_string(pos) + ", mode " + std::to_string(mode); step(); live_reset(); Sys s; init(s); via_fn = mode & 1;
        for (size_t i = 0; i < n; i++) apply(s, {ALLOC, 0, 1 + (i * 5) % 23});
        verify(s);
        if (n) { if (mode == 0) apply(s, {FREE, pos, 0}); if (mode == 1) apply(s, {REALLOC, pos, 40}); if (mode == 2) apply(s, {REALLOC, pos, 1}); verify(s);
            if (mode == 3) while (!s.live.empty()) { apply(s, {FREE, 0, 0}); } if (mode == 4) while (!s.live.empty()) apply(s, {FREE, s.live.size() - 1, 0}); if (mode == 5) { apply(s, {FREE, pos, 0}); while (!s.live.empty()) apply(s, {FREE, pos % s.live.size(), 0}); for (size_t i = 0; i < n; i++) apply(s, {ALLOC, 0, 3}); } verify(s); }
        outcome(hash_str(key(s))); count(C_TRANS, s.allocs + s.reallocs + s.frees); count(C_TRACES); fini(s); via_fn = true;
        if ((mode >= 3 && mode <= 4) && pos) break;
    }
}
void sizes(size_t lo, size_t hi) { std::string d; describe = [&] { return d; };
    for (size_t n = lo; n < hi; n++) for (size_t m : {(size_t)1, n > 1 ? n - 1 : 1, n, n + 1, 2 * n, (size_t)4096}) { d = "alloc " + std::to_string(n) + ", realloc " + std::to_string(m) + ", free"; step(); live_reset(); Sys s; init(s); apply(s, {ALLOC, 0, n}); verify(s); apply(s, {REALLOC, 0, m}); verify(s); apply(s, {ALLOC, 0, n}); apply(s, {FREE, 0, 0}); verify(s); outcome(hash_str(key(s))); count(C_TRANS, 4); count(C_TRACES); fini(s); } }
void pairs(size_t n) { std::string d; describe = [&] { return d; }; live_reset(); Sys s; init(s); for (size_t m = 1; m <= 320; m++) { d = "alloc " + std::to_string(n) + ", realloc " + std::to_string(m) + ", free"; step(); apply(s, {ALLOC, 0, n}); verify(s); apply(s, {REALLOC, 0, m}); verify(s); apply(s, {FREE, 0, 0}); verify(s); outcome(hash_str(key(s))); count(C_TRANS, 3); count(C_TRACES); } fini(s); }
// large blocks: every ordered pair of sizes around the usual counter widths
const std::vector<size_t> BIG{1, 255, 256, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131072, 1048576, 3000000};
void big_sizes(size_t n) { std::string d; describe = [&] { return d; };
    for (size_t m : BIG) for (bool f : {true, false}) { d = "alloc " + std::to_string(n) + ", realloc " + std::to_string(m) + ", free"; step(); live_reset(); Sys s; init(s); via_fn = f; apply(s, {ALLOC, 0, n}); verify(s); apply(s, {REALLOC, 0, m}); verify(s); apply(s, {ALLOC, 0, n}); verify(s); apply(s, {REALLOC, 1, m}); verify(s); apply(s, {FREE, 0, 0}); verify(s); apply(s, {REALLOC, 0, n}); verify(s); outcome(hash_str(key(s))); count(C_TRANS, 6); count(C_TRACES); fini(s); via_fn = true; } }
// blocks and totals beyond 2^32 bytes: the books are not kept in 32 bits
void huge_books() { std::string d; describe = [&] { return d; }; live_reset(); Sys s; init(s); const size_t G = (size_t)1 << 32; std::map<void *, size_t> m; size_t allocs = 0, re = 0, frees = 0, bytes = 0, freed = 0;
    auto ver = [&] { step(); auto &t = s.a->stats; CHECK(t.count_allocs == allocs && t.count_reallocs == re && t.count_frees == frees, "counts %zu %zu %zu, expected %zu %zu %zu", t.count_allocs, t.count_reallocs, t.count_frees, allocs, re, frees); CHECK(t.count_bytes_allocated == bytes && t.count_bytes_freed == freed, "bytes %zu/%zu, expected %zu/%zu", t.count_bytes_allocated, t.count_bytes_freed, bytes, freed);
        CHECK(s.a->obj_list_len == m.size(), "%zu listed", s.a->obj_list_len); for (size_t i = 0; i < m.size(); i++) { auto it = m.find(s.a->obj_list[i].ptr); CHECK(it != m.end() && it->second == s.a->obj_list[i].bytes, "block %zu is listed with %zu bytes", i, s.a->obj_list[i].bytes); } for (auto &q : m) CHECK(mem_ok(q.first, q.second), "a block of %zu bytes is shorter than that", q.second); count(C_TRANS); count(C_EVALS); };
    auto al_ = [&](size_t n) { d = "alloc " + std::to_string(n); char *p = (char *)s.a->alloc(s.a, n, "file", "func", 1); CHECK(p && !p[0] && !p[n - 1], "block is not zeroed"); p[0] = 11; p[n - 1] = 12; m[p] = n; allocs++; bytes += n; ver(); return p; };
    auto re_ = [&](char *q, size_t n) { size_t o = m[q]; d = "realloc " + std::to_string(o) + " to " + std::to_string(n); m.erase(q); char *p = (char *)s.a->realloc(s.a, q, n, "file", "func", 2); CHECK(p && p[0] == 11, "the first byte is lost"); if (n >= o) CHECK(p[o - 1] == 12, "the last byte is lost"); p[n - 1] = 12; m[p] = n; re++; bytes += n; bytes -= o; if (n < o) freed += o - n; ver(); return p; };
    auto fr_ = [&](char *q) { size_t o = m[q]; d = "free " + std::to_string(o); m.erase(q); s.a->free(s.a, q, "file", "func", 3); frees++; bytes -= o; freed += o; ver(); };
    char *a = al_(7), *b = al_(G - 1); b = re_(b, G + 5); a = re_(a, 9); char *c = al_((size_t)3000000000u); c = re_(c, (size_t)1 << 31); fr_(b); c = re_(c, G + 1); c = re_(c, 3); b = al_(G); b = re_(b, 5); b = re_(b, 2 * G + 1); fr_(c); b = re_(b, G + 2); fr_(a); fr_(b); c = al_(G + 7); (void)c;
    d = "destroy"; fini(s); count(C_TRACES); outcome(77); }
// more live blocks than 8-, 12- and 16-bit counters hold
void crowd(size_t n) { std::string d; describe = [&] { return d; }; d = std::to_string(n) + " live blocks"; step(); live_reset(); Sys s; init(s); std::vector<unsigned char *> ps; uint64_t bytes = 0, freed = 0; auto sz = [](size_t i) { return 1 + i % 5; };
    for (size_t i = 0; i < n; i++) { step(); unsigned char *p = (unsigned char *)al(s, sz(i)); CHECK(p && mem_ok(p, sz(i)), "block %zu is not usable", i); for (size_t k = 0; k < sz(i); k++) { CHECK(!p[k], "block %zu is not zeroed", i); p[k] = (unsigned char)(i * 3 + k); } ps.push_back(p); bytes += sz(i); }
    auto books = [&](size_t frees, size_t re) { auto &t = s.a->stats; std::map<void *, size_t> lst; CHECK(s.a->obj_list_len == ps.size(), "%zu blocks listed, %zu are live", s.a->obj_list_len, ps.size()); for (size_t i = 0; i < s.a->obj_list_len; i++) lst[s.a->obj_list[i].ptr] = s.a->obj_list[i].bytes; CHECK(lst.size() == ps.size(), "the list names %zu different blocks of %zu", lst.size(), ps.size()); uint64_t sum = 0; for (auto p : ps) { size_t z; CHECK(is_live(p, &z), "a live block was released"); auto it = lst.find(p); CHECK(it != lst.end() && it->second == z, "a live block is not listed with its size"); sum += z; }
        CHECK(t.count_allocs == n && t.count_frees == frees && t.count_reallocs == re, "counts %zu/%zu/%zu, expected %zu/%zu/%zu", t.count_allocs, t.count_reallocs, t.count_frees, n, re, frees); CHECK(t.count_bytes_allocated == bytes && sum == bytes && t.count_bytes_freed == freed, "bytes %zu/%zu, expected %llu/%llu", t.count_bytes_allocated, t.count_bytes_freed, (unsigned long long)bytes, (unsigned long long)freed); };
    books(0, 0); size_t fr = 0; for (size_t at : {n - 1, n - 3, (size_t)0, n - 6, n / 2, n / 3, (size_t)7, (size_t)65540, (size_t)66000}) { if (at >= ps.size()) continue; size_t z; is_live(ps[at], &z); s.a->free(s.a, ps[at], "f", "f", 1); bytes -= z; freed += z; ps.erase(ps.begin() + at); fr++; books(fr, 0); } size_t re = 0; for (size_t at : {(size_t)0, ps.size() - 1, ps.size() - 5, ps.size() / 2}) { size_t z; is_live(ps[at], &z); unsigned char b0 = ps[at][0]; ps[at] = (unsigned char *)s.a->realloc(s.a, ps[at], z + 9, "f", "f", 1); CHECK(ps[at][0] == b0, "realloc lost the contents"); bytes += 9; re++; books(fr, re); }
    outcome(n); count(C_TRANS, n + 8); count(C_TRACES); fini(s); }
// realloc of a block it never handed out: taken over, counted in full
void foreign() { std::string d; describe = [&] { return d; };
    for (size_t n = 1; n <= 64; n++) for (size_t m = 1; m <= 64; m++) { d = "realloc of a foreign " + std::to_string(n) + "-byte block to " + std::to_string(m); step(); live_reset(); Sys s; init(s); apply(s, {ALLOC, 0, 9}); unsigned char *p = (unsigned char *)tracked_malloc(n); for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(i + 1);
        unsigned char *q = (unsigned char *)s.a->realloc(s.a, p, m, "f", "f", 1); for (size_t i = 0; i < std::min(n, m); i++) CHECK(q[i] == (unsigned char)(i + 1), "contents lost");
        Blk b{q, m, 0}; paint(b, 99); s.live.push_back(b); s.reallocs++; s.bytes += m; verify(s); apply(s, {FREE, 1, 0}); verify(s); count(C_TRANS, 3); count(C_TRACES); outcome(hash_str(key(s))); fini(s); } }
// the statistics report prints exactly the books
void report() { std::string d; describe = [&] { return d; }; std::string f = std::string(scratch_dir()) + "/stats.txt";
    for (uint64_t v : {0ull, 1ull, 9ull, 10ull, 999ull, 1234567890ull, 12345678901ull}) { d = "print_stats " + std::to_string(v); step(); struct VitaAllocatorStats st = {v, v + 1, v + 2, v + 3, v + 4}; fflush(stdout); int old = dup(1); int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); close(fd); vt_mallocator_print_stats(st); fflush(stdout); dup2(old, 1); close(old);
        FILE *fp = fopen(f.c_str(), "r"); std::string t; char b[512]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) t.append(b, n); fclose(fp); std::vector<uint64_t> nums; for (size_t i = 0; i < t.size();) if (isdigit((unsigned char)t[i])) { nums.push_back(strtoull(&t[i], nullptr, 10)); while (i < t.size() && isdigit((unsigned char)t[i])) i++; } else i++;
        std::vector<uint64_t> want{v, v + 1, v + 2, v + 3 + v + 4, v + 3, v + 4}; CHECK(nums == want, "report does not show the statistics: %s", show(t).c_str()); count(C_TRANS); count(C_TRACES); outcome(v + 5); } }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    for (int sh = 0; sh < 8; sh++) add_job("seq_" + std::to_string(sh), [=] { auto ex = mk(3, {1, 8, 24}, "all sequences"); ex.all_sequences(T ? 7 : 5, sh, 8); });
    for (int d = 0; d < 2; d++) add_job("bfs_" + std::to_string(d), [=] { auto ex = mk(d ? 2 : 3, d ? std::vector<size_t>{1, 16} : std::vector<size_t>{1, 8, 24}, "bfs"); auto m = ex.menu; size_t lim = T ? 7 : 6; if (d) lim += 2; ex.menu = [=](const Sys &s) { if (s.allocs + s.reallocs >= lim) { std::vector<Op> r; for (size_t i = 0; i < s.live.size(); i++) r.push_back({FREE, i, 0}); return r; } return m(s); }; ex.bfs(); });
    for (size_t lo = 0; lo < (T ? 600u : 80u); lo += 10) add_job("many_" + std::to_string(lo), [=] { many(lo, lo + 10); });
    for (size_t lo = 1; lo < (T ? 3000u : 600u); lo += 100) add_job("sizes_" + std::to_string(lo), [=] { sizes(lo, lo + 100); });
    for (size_t lo = 1; lo <= 320; lo += 20) add_job("pairs_" + std::to_string(lo), [=] { for (size_t n = lo; n < lo + 20; n++) pairs(n); });
    for (size_t n : BIG) add_job("big_" + std::to_string(n), [=] { big_sizes(n); });
    for (size_t n : {255, 256, 257, 1023, 1024, 1025, 4096, 8193, 32768, 65535, 65536, 65537, 70001}) add_job("crowd_" + std::to_string(n), [=] { crowd(n); });
    if (roomy(16)) add_job("huge_books", huge_books); add_job("foreign", foreign); add_job("report", report);
    return run_main(argc, argv, "C09");
}
