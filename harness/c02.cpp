// C02: vt_plist behaves as a sequence of pointers under every operation history.
#include "mc.hpp"
#include "space.hpp"
using namespace mc;
namespace {
struct Cfg { bool alloc; size_t n0; };
struct Sys { vt_plist_t *p = nullptr; vt_mallocator_t *al = nullptr; std::vector<void *> m; };
// pointers that must never be dereferenced (non-canonical / unmapped); k-th differs from its neighbours in one bit
void *val(int k) { return (void *)(uintptr_t)(k == 0 ? 0x10 : k == 1 ? 0x11 : k == 2 ? 0xffff000000000010ull : 0x100000000ull + (uint64_t)k * 0x100000001ull); }
void verify(Sys &s, const char *when) {
    vt_plist_t *p = s.p;
    CHECK(vt_plist_len(p) == s.m.size(), "%s: len %zu, model %zu", when, vt_plist_len(p), s.m.size());
    CHECK(vt_plist_capacity(p) >= s.m.size(), "%s: capacity %zu < len %zu", when, vt_plist_capacity(p), s.m.size());
    CHECK(vt_plist_has_space(p) == vt_plist_capacity(p) - s.m.size(), "%s: has_space", when);
    CHECK(vt_plist_is_empty(p) == s.m.empty(), "%s: is_empty", when);
    CHECK(vt_array_has_alloctr(p) == (s.al != nullptr), "%s: has_alloctr", when);
    CHECK(mem_ok(p->ptr2, vt_plist_capacity(p) * sizeof(void *)), "%s: capacity %zu promises more memory than the list owns", when, vt_plist_capacity(p));
    for (size_t i = 0; i < s.m.size(); i++) CHECK(vt_plist_get(p, i) == s.m[i], "%s: element %zu of %zu differs from the model", when, i, s.m.size());
}
void verify_find(Sys &s, int nvals, const char *when) {
    for (int k = 0; k < nvals; k++) {
        int64_t want = -1; for (size_t i = 0; i < s.m.size(); i++) if (s.m[i] == val(k)) { want = (int64_t)i; break; }
        int64_t got = vt_plist_can_find(s.p, val(k));
        CHECK(got == want, "%s: can_find(#%d) = %lld, expected %lld", when, k, (long long)got, (long long)want);
    }
}
struct Op { int code; size_t a; int k; };
enum { PUSHB, PUSHF, INS, SET, REMS, REMF, RELS, RELF, POP, POPG, CLEAR, SHRINK, RES, RESIZE, DUP, DUPX, DUPKEEP };
const char *names[] = {"push_back", "push_front", "insert", "set", "remove_stable", "remove_fast", "remove_element_stable", "remove_element_fast", "pop", "pop_get", "clear", "shrink", "reserve", "resize", "dup", "dup_other_allocator", "dup_mutate_copy"};
std::string opstr(const Op &o) { char b[80]; snprintf(b, sizeof b, "%s(at/n=%zu,ptr=#%d)", names[o.code], o.a, o.k); return b; }
void init(Sys &s, const Cfg &c) {
    s.al = c.alloc ? vt_mallocator_create() : nullptr; s.p = vt_plist_create(c.n0, s.al);
    CHECK(vt_plist_capacity(s.p) >= c.n0, "create: capacity %zu < %zu", vt_plist_capacity(s.p), c.n0);
}
void fini(Sys &s) {
    vt_plist_destroy(s.p); if (s.al) vt_mallocator_destroy(s.al);
    CHECK(live_count() == 0, "after destroy %zu allocation(s) are still live", live_count());
}
void rem(std::vector<void *> &m, size_t at, bool stable) { if (stable) m.erase(m.begin() + at); else { m[at] = m.back(); m.pop_back(); } }
void apply(Sys &s, const Op &o) {
    vt_plist_t *p = s.p; void *e = val(o.k); size_t cap = vt_plist_capacity(p);
    switch (o.code) {
    case PUSHB: vt_plist_push_back(p, e); s.m.push_back(e); break;
    case PUSHF: vt_plist_push_front(p, e); s.m.insert(s.m.begin(), e); break;
    case INS: vt_plist_insert(p, e, o.a); s.m.insert(s.m.begin() + o.a, e); break;
    case SET: vt_plist_set(p, e, o.a); s.m[o.a] = e; break;
    case REMS: vt_plist_remove(p, o.a, VT_REMOVE_STRATEGY_STABLE); rem(s.m, o.a, true); break;
    case REMF: vt_plist_remove(p, o.a, VT_REMOVE_STRATEGY_FAST); rem(s.m, o.a, false); break;
    case RELS: case RELF: { vt_plist_remove_element(p, e, o.code == RELS ? VT_REMOVE_STRATEGY_STABLE : VT_REMOVE_STRATEGY_FAST);
        for (size_t i = 0; i < s.m.size(); i++) if (s.m[i] == e) { rem(s.m, i, o.code == RELS); break; } break; }
    case POP: vt_plist_pop(p); if (!s.m.empty()) s.m.pop_back(); break;
    case POPG: { void *q = vt_plist_pop_get(p); if (s.m.empty()) CHECK(q == nullptr, "pop_get on an empty list returned non-NULL"); else { CHECK(q == s.m.back(), "pop_get returned a wrong pointer"); s.m.pop_back(); } break; }
    case CLEAR: vt_plist_clear(p); s.m.clear(); break;
    case SHRINK: vt_plist_shrink(p); if (!s.m.empty()) CHECK(vt_plist_capacity(p) == s.m.size(), "shrink: capacity %zu != len %zu", vt_plist_capacity(p), s.m.size()); break;
    case RES: vt_plist_reserve(p, o.a); CHECK(vt_plist_capacity(p) == cap + o.a, "reserve(%zu): capacity %zu -> %zu", o.a, cap, vt_plist_capacity(p)); break;
    case RESIZE: { size_t old = s.m.size(); vt_plist_resize(p, o.a);
        CHECK(vt_plist_len(p) == o.a, "resize(%zu): len %zu", o.a, vt_plist_len(p));
        for (size_t i = 0; i < std::min(old, o.a); i++) CHECK(vt_plist_get(p, i) == s.m[i], "resize(%zu) changed surviving element %zu", o.a, i);
        s.m.resize(o.a, e); for (size_t i = old; i < o.a; i++) vt_plist_set(p, e, i); break; }
    case DUP: case DUPKEEP: case DUPX: {
        vt_mallocator_t *al2 = o.code == DUPX ? (s.al ? nullptr : vt_mallocator_create()) : s.al;
        vt_plist_t *d = vt_plist_dup(p, al2); Sys t; t.p = d; t.al = al2; t.m = s.m; verify(t, "dup");
        CHECK(d != p && d->ptr2 != p->ptr2, "dup shares storage with the original");
        if (o.code == DUP) { vt_plist_destroy(p); s.p = d; }
        else { vt_plist_push_back(d, e); vt_plist_set(d, val(1), 0); vt_plist_clear(d); vt_plist_destroy(d); if (o.code == DUPX && al2) vt_mallocator_destroy(al2); }
        break; }
    }
}
std::vector<Op> menu(const Sys &s, int nvals, size_t maxlen, size_t maxcap) {
    std::vector<Op> r; size_t n = s.m.size(), cap = vt_plist_capacity(s.p);
    for (int k = 0; k < nvals; k++) {
        if (n < maxlen) { r.push_back({PUSHB, 0, k}); r.push_back({PUSHF, 0, k}); for (size_t i = 0; i < n; i++) r.push_back({INS, i, k}); }
        for (size_t i = 0; i < n; i++) r.push_back({SET, i, k});
        r.push_back({RELS, 0, k}); r.push_back({RELF, 0, k});
    }
    for (size_t i = 0; i < n; i++) { r.push_back({REMS, i, 0}); r.push_back({REMF, i, 0}); }
    for (int c : {POP, POPG, CLEAR, SHRINK, DUP, DUPX, DUPKEEP}) r.push_back({c, 0, 0});
    if (cap + 1 <= maxcap) r.push_back({RES, 1, 0});
    if (cap + 3 <= maxcap) r.push_back({RES, 3, 0});
    for (size_t z = 1; z <= maxlen; z++) r.push_back({RESIZE, z, 1});
    return r;
}
std::string key(const Sys &s) { std::string k; uint64_t c = vt_plist_capacity(s.p); k.append((char *)&c, 8); for (auto e : s.m) k.append((char *)&e, 8); return k; }
Explorer<Sys, Op> mk(Cfg c, int nvals, size_t maxlen, size_t maxcap, bool find, const char *what) {
    Explorer<Sys, Op> ex;
    ex.init = [=](Sys &s) { init(s, c); }; ex.fini = fini; ex.apply = apply; ex.key = key; ex.opstr = opstr;
    ex.menu = [=](const Sys &s) { return menu(s, nvals, maxlen, maxcap); };
    ex.verify = [=](Sys &s) { verify(s, "after op"); if (find) verify_find(s, nvals + 1, "after op"); };
    char b[96]; snprintf(b, sizeof b, "plist %s alloc=%d n0=%zu", what, (int)c.alloc, c.n0); ex.label = b; return ex;
}
void sweep_job(Cfg c, size_t lo, size_t hi) {
    size_t cn = 0, cat = 0; int cop = 0;
    describe = [&] { char b[160]; snprintf(b, sizeof b, "sweep alloc=%d n0=%zu: %zu distinct pointers, op %s at %zu", (int)c.alloc, c.n0, cn, names[cop], cat); return std::string(b); };
    for (size_t n = lo; n < hi; n++) for (int op : {INS, SET, REMS, REMF, RELS, RELF}) for (size_t at = 0; at < n; at++) {
        if (n > 70 && at > 6 && at + 6 < n && at != n / 2 && (at & (at - 1)) && (at % 37)) continue;
        cn = n; cat = at; cop = op; step(); live_reset(); Sys s; init(s, c);
        for (size_t i = 0; i < n; i++) apply(s, {PUSHB, 0, (int)i + 10});
        apply(s, {op, at, op == RELS || op == RELF ? (int)at + 10 : 7}); verify(s, "sweep");
        int64_t want = -1; for (size_t i = 0; i < s.m.size(); i++) if (s.m[i] == val(7)) { want = i; break; }
        CHECK(vt_plist_can_find(s.p, val(7)) == want, "can_find in %zu elements", s.m.size());
        if (op == INS) { apply(s, {PUSHF, 0, 8}); apply(s, {SHRINK, 0, 0}); apply(s, {PUSHB, 0, 9}); verify(s, "sweep2"); }
        if (op == REMS) { apply(s, {RESIZE, n + 3, 2}); apply(s, {DUP, 0, 0}); verify(s, "sweep3"); }
        if (op == REMF) { while (!s.m.empty()) apply(s, {POPG, 0, 0}); apply(s, {SHRINK, 0, 0}); apply(s, {PUSHB, 0, 9}); apply(s, {PUSHF, 0, 8}); verify(s, "sweep4"); }
        fini(s); count(C_TRANS, n + 5); count(C_TRACES); count(C_EVALS);
    }
}
void grow_job(Cfg c, size_t n) {
    size_t i = 0; describe = [&] { char b[120]; snprintf(b, sizeof b, "grow alloc=%d: element %zu", (int)c.alloc, i); return std::string(b); };
    live_reset(); Sys s; init(s, c);
    for (i = 0; i < n; i++) { step(); apply(s, {(i % 3 == 2) ? PUSHF : PUSHB, 0, (int)i + 3}); if ((i & 63) == 0) verify(s, "grow"); count(C_TRANS); }
    verify(s, "grown");
    for (i = 0; i < n; i++) { step(); if (i % 5 == 4) apply(s, {REMS, s.m.size() / 2, 0}); else if (i % 5 == 2) apply(s, {REMF, 0, 0}); else apply(s, {POPG, 0, 0}); if ((i & 63) == 0) verify(s, "drain"); count(C_TRANS); }
    verify(s, "drained"); fini(s); count(C_TRACES);
}
void large_job(bool alloc, size_t n) { // lengths around the widths of narrower types
    std::string ph; describe = [&] { return "large list of " + std::to_string(n) + " pointers alloc=" + std::to_string(alloc) + ": " + ph; };
    live_reset(); Sys s; init(s, {alloc, 3}); auto ver = [&] { step(); verify(s, "large"); count(C_TRANS); count(C_EVALS); };
    auto ff = [&](void *q) { auto it = std::find(s.m.begin(), s.m.end(), q); int64_t w = it == s.m.end() ? -1 : it - s.m.begin(); CHECK(vt_plist_can_find(s.p, q) == w, "can_find = %lld, expected %lld", (long long)vt_plist_can_find(s.p, q), (long long)w); };
    ph = "push_back"; for (size_t i = 0; i < n; i++) { if (!(i & 1023)) step(); apply(s, {PUSHB, 0, (int)i + 10}); } ver(); ph = "can_find"; ff(val(10)); ff(val((int)n / 2 + 10)); ff(val((int)n + 9)); ff(val(1));
    ph = "dup"; apply(s, {DUPKEEP, 0, 1}); apply(s, {DUPX, 0, 1}); ver(); apply(s, {DUP, 0, 1}); ver();
    std::vector<size_t> at{0, 1, n / 2, n - 1}; for (size_t a : {255, 256, 257, 4095, 4096, 8191, 8192, 32767, 32768, 65534, 65535, 65536, 65537}) if (a < n) at.push_back(a);
    for (size_t a : at) { int k = (int)(n + a) + 20; ph = "operations at " + std::to_string(a); apply(s, {INS, a, k}); ver(); ff(val(k)); apply(s, {RELS, 0, k}); ver(); apply(s, {INS, a, k}); apply(s, {RELF, 0, k}); ver(); apply(s, {SET, a, k + 1}); ver(); apply(s, {REMS, a, 0}); ver(); apply(s, {REMF, std::min(a, s.m.size() - 1), 0}); ver(); apply(s, {PUSHB, 0, k + 2}); apply(s, {PUSHB, 0, k + 3}); ver(); apply(s, {RELS, 0, 1}); ver(); }
    ph = "push_front"; apply(s, {PUSHF, 0, 5}); ver(); for (size_t k : {(size_t)1, (size_t)2, (size_t)5, n / 64 + 1, n / 2 + 1}) { ph = "shrink and reserve " + std::to_string(k); apply(s, {SHRINK, 0, 0}); ver(); apply(s, {RES, k, 0}); ver(); }
    ph = "resize"; apply(s, {RESIZE, s.m.size() + 7, 2}); ver(); apply(s, {RESIZE, n > 2 ? n - 2 : 1, 2}); ver(); ph = "pop"; for (int i = 0; i < 3; i++) { apply(s, {POPG, 0, 0}); apply(s, {POP, 0, 0}); ver(); } ph = "clear"; apply(s, {CLEAR, 0, 0}); apply(s, {SHRINK, 0, 0}); for (int i = 0; i < 5; i++) apply(s, {PUSHB, 0, i}); ver(); outcome(n * 2 + alloc); fini(s); count(C_TRACES);
}
void slack_job(bool alloc, size_t hi) {
    size_t n = 0, k = 0; describe = [&] { return "shrink/reserve/dup of " + std::to_string(n) + " pointers with slack " + std::to_string(k); };
    for (n = 1; n <= hi; n++) { std::set<size_t> ks{n / 2, n - 1, n, n + 1, 2 * n, n / 64 + 1, n / 8 + 1}; for (size_t i = 0; i < 10; i++) ks.insert(i); for (size_t kk : ks) { k = kk; step(); live_reset(); Sys s; init(s, {alloc, n}); for (size_t i = 0; i < n; i++) apply(s, {PUSHB, 0, (int)i + 3}); if (k) apply(s, {RES, k, 0}); apply(s, {DUPKEEP, 0, 2}); apply(s, {SHRINK, 0, 0}); verify(s, "shrunk"); if (k) { apply(s, {RES, k, 0}); apply(s, {PUSHB, 0, 1}); verify(s, "pushed"); apply(s, {RESIZE, n + k, 1}); verify(s, "resized to capacity"); } fini(s); count(C_TRANS, 6); count(C_TRACES); } }
}
void room_job(size_t n, size_t hi) { // every pair of created size and reserved room
    size_t k = 0; describe = [&] { return "reserving room for " + std::to_string(k) + " in a list created for " + std::to_string(n); };
    for (bool al : {false, true}) for (k = 1; k <= hi; k++) for (size_t l : {(size_t)0, (size_t)1, n}) { step(); live_reset(); Sys s; init(s, {al, n}); for (size_t i = 0; i < l; i++) apply(s, {PUSHB, 0, (int)i + 3}); apply(s, {RES, k, 0}); verify(s, "reserved"); apply(s, {RES, k, 0}); verify(s, "reserved again"); apply(s, {PUSHB, 0, 1}); verify(s, "pushed"); fini(s); count(C_TRANS, 3); count(C_TRACES); count(C_EVALS, 3); }
}
// more than 2^32 bytes of pointers: nothing is counted or addressed in 32 bits. Sparse model: only written positions are compared.
void huge_job(size_t n, bool alloc) {
    std::string ph; describe = [&] { return "huge list of " + std::to_string(n) + " pointers alloc=" + std::to_string(alloc) + ": " + ph; };
    live_reset(); Sys s; init(s, {alloc, 3}); std::map<size_t, void *> m; size_t len = 0; int k = 3;
    auto ver = [&] { step(); vt_plist_t *p = s.p; CHECK(vt_plist_len(p) == len, "len %zu, model %zu", vt_plist_len(p), len); CHECK(vt_plist_capacity(p) >= len && vt_plist_has_space(p) == vt_plist_capacity(p) - len, "capacity %zu, len %zu, space %zu", vt_plist_capacity(p), len, vt_plist_has_space(p)); CHECK(mem_ok(p->ptr2, vt_plist_capacity(p) * sizeof(void *)), "capacity %zu promises more memory than the list owns", vt_plist_capacity(p)); CHECK(vt_plist_is_empty(p) == !len, "is_empty");
        for (auto &q : m) CHECK(vt_plist_get(p, q.first) == q.second, "element %zu differs from the model", q.first); count(C_EVALS); count(C_TRANS); };
    auto set = [&](size_t a) { vt_plist_set(s.p, val(++k), a); m[a] = val(k); }; auto push = [&] { vt_plist_push_back(s.p, val(++k)); m[len++] = val(k); };
    auto ins = [&](size_t a) { vt_plist_insert(s.p, val(++k), a); std::map<size_t, void *> r; for (auto &q : m) r[q.first + (q.first >= a)] = q.second; r[a] = val(k); m = r; len++; };
    auto rem_ = [&](size_t a) { vt_plist_remove(s.p, a, VT_REMOVE_STRATEGY_STABLE); std::map<size_t, void *> r; for (auto &q : m) if (q.first != a) r[q.first - (q.first > a)] = q.second; m = r; len--; };
    auto fast = [&](size_t a) { vt_plist_remove(s.p, a, VT_REMOVE_STRATEGY_FAST); len--; m[a] = m.at(len); m.erase(len); };
    ph = "push three"; push(); push(); push(); ver(); ph = "resize up"; vt_plist_resize(s.p, n); len = n; ver();
    ph = "set"; for (size_t b : {(size_t)1 << 8, (size_t)1 << 16, (size_t)1 << 28, (size_t)1 << 29, (size_t)1 << 31, (size_t)1 << 32}) for (size_t d : {0, 1, 2, 3, 4}) if (b + d - 2 < n) set(b + d - 2); for (size_t a = n - 6; a < n; a++) set(a); ver();
    ph = "insert near the end"; ins(n - 2); ver(); ins(len - 1); ver(); ph = "push_back"; for (int i = 0; i < 6; i++) { push(); ver(); }
    ph = "remove near the end"; rem_(len - 5); ver(); rem_(len - 1); ver(); ph = "remove (fast)"; fast(1); ver(); fast(len - 3); ver(); fast((size_t)1 << 28); ver();
    ph = "pop_get"; { void *q = vt_plist_pop_get(s.p); len--; CHECK(q == m[len], "pop_get"); m.erase(len); ver(); } ph = "pop"; vt_plist_pop(s.p); m.erase(--len); ver();
    for (size_t q : {(size_t)1, (size_t)9, (size_t)70000}) { ph = "shrink, reserve " + std::to_string(q); vt_plist_shrink(s.p); CHECK(vt_plist_capacity(s.p) == len, "shrink: capacity %zu, len %zu", vt_plist_capacity(s.p), len); ver(); vt_plist_reserve(s.p, q); CHECK(vt_plist_has_space(s.p) >= q, "reserve %zu: space %zu", q, vt_plist_has_space(s.p)); ver(); push(); ver(); }
    ph = "resize down"; while (m.size() && m.rbegin()->first >= n - 2) m.erase(std::prev(m.end())); vt_plist_resize(s.p, n - 2); len = n - 2; ver();
    ph = "clear"; vt_plist_clear(s.p); m.clear(); len = 0; ver(); push(); ver(); vt_plist_shrink(s.p); CHECK(vt_plist_capacity(s.p) == 1, "capacity %zu", vt_plist_capacity(s.p)); ver();
    outcome(hash_bytes(&n, sizeof n, alloc)); fini(s); count(C_TRACES);
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    for (bool al : {false, true}) for (size_t n0 : {(size_t)1, (size_t)2, (size_t)4}) for (int nv : {2, 3})
        add_job("bfs" + std::string(al ? "_alloc" : "_libc") + "_n" + std::to_string(n0) + "_v" + std::to_string(nv), [=] { auto ex = mk({al, n0}, nv, nv == 3 ? (T ? 6 : 4) : (T ? 7 : 5), T ? 14 : 10, true, "bfs"); ex.bfs(); });
    int depth = T ? 5 : 4; size_t shards = T ? 32 : 4;
    for (bool al : {false, true}) for (size_t n0 : {(size_t)1, (size_t)3}) for (size_t sh = 0; sh < shards; sh++)
        add_job("seq" + std::string(al ? "_alloc" : "_libc") + "_n" + std::to_string(n0) + "_s" + std::to_string(sh), [=] { auto ex = mk({al, n0}, 2, 3, 1000, false, "all sequences"); ex.all_sequences(depth, sh, shards); });
    size_t maxn = T ? 520 : 140;
    for (bool al : {false, true}) for (size_t lo = 1; lo < maxn; lo += 20) add_job("sweep" + std::string(al ? "_alloc" : "_libc") + "_" + std::to_string(lo), [=] { sweep_job({al, 1 + lo % 5}, lo, std::min(maxn, lo + 20)); });
    for (bool al : {false, true}) add_job("grow" + std::string(al ? "_alloc" : "_libc"), [=] { grow_job({al, 1}, T ? 20000 : 3000); });
    if (roomy(8)) { add_job("huge_bytes", [=] { huge_job(((size_t)1 << 29) + 7, false); }); add_job("huge_count", [=] { huge_job(((size_t)1 << 32) + 7, true); }); }
    for (size_t n = 1; n <= (T ? 130 : 48); n++) add_job("room_" + std::to_string(n), [=] { room_job(n, T ? 130 : 48); });
    for (bool al : {false, true}) { add_job("slack" + std::string(al ? "_alloc" : "_libc"), [=] { slack_job(al, T ? 700 : 200); }); for (size_t n : {255, 256, 257, 8191, 8192, 8193, 32769, 65535, 65536, 65537, 70001}) add_job("large_" + std::to_string(n) + (al ? "_alloc" : "_libc"), [=] { large_job(al, n); }); }
    return run_main(argc, argv, "C02");
}
