// C01: vt_vec behaves as a sequence under every operation history.
#include "mc.hpp"
#include "space.hpp"
using namespace mc;

namespace {
typedef std::string El;                       // one element, elsize bytes
struct Cfg { size_t elsize; bool alloc; size_t n0; };

struct Sys {                                  // real object + reference model
    vt_vec_t *v = nullptr; vt_mallocator_t *al = nullptr;
    std::vector<El> m; size_t elsize;
};

El val(size_t elsize, int k) {                // k-th value of the alphabet; values differ only in the LAST byte for k 0/1
    El e(elsize, (char)0x41);
    if (k == 1) e[elsize - 1] = 0x42;
    else if (k == 2) e[0] = 0;                // differs in the first byte, contains a NUL
    else if (k > 2) for (size_t i = 0; i < elsize; i++) e[i] = (char)(k * 131 + i * 17 + (k >> 7));
    return e;
}
void verify(Sys &s, const char *when) {
    vt_vec_t *v = s.v;
    CHECK(vt_vec_len(v) == s.m.size(), "%s: len %zu, model %zu", when, vt_vec_len(v), s.m.size());
    CHECK(v->len == s.m.size(), "%s: len field", when);
    CHECK(vt_vec_capacity(v) >= s.m.size(), "%s: capacity %zu < len %zu", when, vt_vec_capacity(v), s.m.size());
    CHECK(vt_vec_has_space(v) == vt_vec_capacity(v) - s.m.size(), "%s: has_space %zu", when, vt_vec_has_space(v));
    CHECK(vt_vec_is_empty(v) == s.m.empty(), "%s: is_empty", when);
    CHECK(vt_array_elsize(v) == s.elsize, "%s: elsize", when);
    CHECK(vt_array_has_alloctr(v) == (s.al != nullptr), "%s: has_alloctr", when);
    CHECK(mem_ok(v->ptr, vt_vec_capacity(v) * s.elsize), "%s: capacity %zu promises more memory than the vector owns", when, vt_vec_capacity(v));
    for (size_t i = 0; i < s.m.size(); i++) {
        CHECK(memcmp(vt_vec_get(v, i), s.m[i].data(), s.elsize) == 0, "%s: element %zu of %zu differs from the model", when, i, s.m.size());
        CHECK(vt_array_get(v, i) == vt_vec_get(v, i), "%s: array_get/vec_get disagree at %zu", when, i);
    }
}
void verify_find(Sys &s, int nvals, const char *when) {
    for (int k = 0; k < nvals; k++) {
        El e = val(s.elsize, k); int64_t want = -1;
        for (size_t i = 0; i < s.m.size(); i++) if (s.m[i] == e) { want = (int64_t)i; break; }
        int64_t got = vt_vec_can_find(s.v, e.data());
        CHECK(got == want, "%s: can_find(value %d) = %lld, expected %lld", when, k, (long long)got, (long long)want);
    }
}
struct Op { int code; size_t a; int k; };
enum { PUSHB, PUSHF, INS, SET, REMS, REMF, POP, POPG, CLEAR, SHRINK, RES, RESIZE, DUP, DUPKEEP, ASET };
const char *names[] = {"push_back", "push_front", "insert", "set", "remove_stable", "remove_fast", "pop", "pop_get", "clear", "shrink", "reserve", "resize", "dup", "dup_mutate_copy", "array_set"};
std::string opstr(const Op &o) { char b[80]; snprintf(b, sizeof b, "%s(at/n=%zu,val=%d)", names[o.code], o.a, o.k); return b; }

void init(Sys &s, const Cfg &c) {
    s.elsize = c.elsize; s.al = c.alloc ? vt_mallocator_create() : nullptr;
    s.v = vt_vec_create(c.n0, c.elsize, s.al);
    CHECK(vt_vec_capacity(s.v) >= c.n0, "create: capacity %zu < %zu", vt_vec_capacity(s.v), c.n0);
}
void fini(Sys &s) {
    vt_vec_destroy(s.v);
    if (s.al) vt_mallocator_destroy(s.al);
    CHECK(live_count() == 0, "after destroy %zu allocation(s) are still live", live_count());
}
void apply(Sys &s, const Op &o) {
    vt_vec_t *v = s.v; El e = val(s.elsize, o.k); size_t cap = vt_vec_capacity(v);
    switch (o.code) {
    case PUSHB: vt_vec_push_back(v, e.data()); s.m.push_back(e); break;
    case PUSHF: vt_vec_push_front(v, e.data()); s.m.insert(s.m.begin(), e); break;
    case INS: vt_vec_insert(v, e.data(), o.a); s.m.insert(s.m.begin() + o.a, e); break;
    case SET: vt_vec_set(v, e.data(), o.a); s.m[o.a] = e; break;
    case ASET: vt_array_set(v, e.data(), o.a); s.m[o.a] = e; break;
    case REMS: vt_vec_remove(v, o.a, VT_REMOVE_STRATEGY_STABLE); s.m.erase(s.m.begin() + o.a); break;
    case REMF: vt_vec_remove(v, o.a, VT_REMOVE_STRATEGY_FAST); s.m[o.a] = s.m.back(); s.m.pop_back(); break;
    case POP: vt_vec_pop(v); if (!s.m.empty()) s.m.pop_back(); break;
    case POPG: { void *p = vt_vec_pop_get(v);
        if (s.m.empty()) CHECK(p == nullptr, "pop_get on an empty vector returned non-NULL");
        else { CHECK(p != nullptr, "pop_get returned NULL on a non-empty vector"); CHECK(!memcmp(p, s.m.back().data(), s.elsize), "pop_get returned a wrong value"); s.m.pop_back(); } break; }
    case CLEAR: vt_vec_clear(v); s.m.clear(); break;
    case SHRINK: vt_vec_shrink(v); if (!s.m.empty()) CHECK(vt_vec_capacity(v) == s.m.size(), "shrink: capacity %zu != len %zu", vt_vec_capacity(v), s.m.size()); break;
    case RES: vt_vec_reserve(v, o.a); CHECK(vt_vec_capacity(v) == cap + o.a, "reserve(%zu): capacity %zu -> %zu", o.a, cap, vt_vec_capacity(v)); break;
    case RESIZE: { size_t old = s.m.size(); vt_vec_resize(v, o.a);
        CHECK(vt_vec_len(v) == o.a, "resize(%zu): len %zu", o.a, vt_vec_len(v));
        for (size_t i = 0; i < std::min(old, o.a); i++) CHECK(!memcmp(vt_vec_get(v, i), s.m[i].data(), s.elsize), "resize(%zu) changed surviving element %zu", o.a, i);
        s.m.resize(o.a, e); for (size_t i = old; i < o.a; i++) vt_vec_set(v, e.data(), i); break; }
    case DUP: case DUPKEEP: {
        vt_vec_t *d = vt_vec_dup(v, s.al); Sys t; t.v = d; t.al = s.al; t.elsize = s.elsize; t.m = s.m; verify(t, "dup");
        CHECK(d != v && d->ptr != v->ptr, "dup shares storage with the original");
        if (o.code == DUP) { vt_vec_destroy(v); s.v = d; }
        else { vt_vec_push_back(d, e.data()); vt_vec_set(d, val(s.elsize, 1).data(), 0); vt_vec_clear(d); vt_vec_destroy(d); }
        break; }
    }
}
std::vector<Op> menu(const Sys &s, int nvals, size_t maxlen, size_t maxcap) {
    std::vector<Op> r; size_t n = s.m.size(), cap = vt_vec_capacity(s.v);
    for (int k = 0; k < nvals; k++) {
        if (n < maxlen) { r.push_back({PUSHB, 0, k}); r.push_back({PUSHF, 0, k}); for (size_t i = 0; i < n; i++) r.push_back({INS, i, k}); }
        for (size_t i = 0; i < n; i++) r.push_back({k ? SET : ASET, i, k});
    }
    for (size_t i = 0; i < n; i++) { r.push_back({REMS, i, 0}); r.push_back({REMF, i, 0}); }
    r.push_back({POP, 0, 0}); r.push_back({POPG, 0, 0}); r.push_back({CLEAR, 0, 0}); r.push_back({SHRINK, 0, 0});
    r.push_back({DUP, 0, 0}); r.push_back({DUPKEEP, 0, 0});
    if (cap + 1 <= maxcap) r.push_back({RES, 1, 0});
    if (cap + 3 <= maxcap) r.push_back({RES, 3, 0});
    for (size_t z = 1; z <= maxlen; z++) r.push_back({RESIZE, z, 1});
    return r;
}
std::string key(const Sys &s) { std::string k; uint64_t c = vt_vec_capacity(s.v); k.append((char *)&c, 8); for (auto &e : s.m) k += e; return k; }

void bfs_job(Cfg c, int nvals, size_t maxlen, size_t maxcap) {
    Explorer<Sys, Op> ex;
    ex.init = [=](Sys &s) { init(s, c); };
    ex.fini = fini; ex.apply = apply; ex.key = key; ex.opstr = opstr;
    ex.menu = [=](const Sys &s) { return menu(s, nvals, maxlen, maxcap); };
    ex.verify = [=](Sys &s) { verify(s, "after op"); verify_find(s, nvals + 1, "after op"); };
    char b[96]; snprintf(b, sizeof b, "vec elsize=%zu alloc=%d n0=%zu", c.elsize, (int)c.alloc, c.n0); ex.label = b;
    ex.bfs();
}
void dfs_job(Cfg c, int nvals, int depth, size_t shard, size_t nshards) {
    Explorer<Sys, Op> ex;
    ex.init = [=](Sys &s) { init(s, c); };
    ex.fini = fini; ex.apply = apply; ex.key = key; ex.opstr = opstr;
    ex.menu = [=](const Sys &s) { return menu(s, nvals, 3, 1000); };
    ex.verify = [=](Sys &s) { verify(s, "after op"); };
    char b[96]; snprintf(b, sizeof b, "vec(all sequences) elsize=%zu alloc=%d n0=%zu", c.elsize, (int)c.alloc, c.n0); ex.label = b;
    ex.all_sequences(depth, shard, nshards);
}
// size sweep: every length, every position, distinct elements
void sweep_job(Cfg c, size_t lo, size_t hi) {
    size_t cn = 0, cat = 0; int cop = 0;
    describe = [&] { char b[160]; snprintf(b, sizeof b, "sweep elsize=%zu alloc=%d n0=%zu: %zu distinct elements, op %s at %zu", c.elsize, (int)c.alloc, c.n0, cn, names[cop], cat); return std::string(b); };
    for (size_t n = lo; n < hi; n++) {
        for (int op : {INS, SET, REMS, REMF}) for (size_t at = 0; at < n; at++) {
            if (n > 70 && at > 6 && at + 6 < n && at != n / 2 && (at & (at - 1)) && (at % 37)) continue;
            cn = n; cat = at; cop = op; step();
            live_reset(); Sys s; init(s, c);
            for (size_t i = 0; i < n; i++) apply(s, {PUSHB, 0, (int)i + 10});
            apply(s, {op, at, 7}); verify(s, "sweep");
            El e7 = val(c.elsize, 7); int64_t want = -1; for (size_t i = 0; i < s.m.size(); i++) if (s.m[i] == e7) { want = i; break; }
            CHECK(vt_vec_can_find(s.v, e7.data()) == want, "can_find in %zu elements", s.m.size());
            if (op == INS) { apply(s, {PUSHF, 0, 8}); apply(s, {SHRINK, 0, 0}); apply(s, {PUSHB, 0, 9}); verify(s, "sweep2"); }
            if (op == REMS) { apply(s, {RESIZE, n + 3, 2}); apply(s, {DUP, 0, 0}); verify(s, "sweep3"); }
            if (op == REMF) { while (!s.m.empty()) apply(s, {POPG, 0, 0}); apply(s, {SHRINK, 0, 0}); apply(s, {PUSHB, 0, 9}); apply(s, {PUSHB, 0, 8}); verify(s, "sweep4"); }
            fini(s); count(C_TRANS, n + 5); count(C_TRACES); count(C_EVALS);
        }
    }
}
void grow_job(Cfg c, size_t n) {     // long monotone histories across many reallocations
    size_t i = 0;
    describe = [&] { char b[120]; snprintf(b, sizeof b, "grow elsize=%zu alloc=%d: element %zu", c.elsize, (int)c.alloc, i); return std::string(b); };
    live_reset(); Sys s; init(s, c);
    for (i = 0; i < n; i++) { step(); size_t before = s.m.size(); apply(s, {(i % 3 == 2) ? PUSHF : PUSHB, 0, (int)i + 3}); (void)before; if ((i & 63) == 0) verify(s, "grow"); count(C_TRANS); }
    verify(s, "grown");
    for (i = 0; i < n; i++) { step(); if (i % 5 == 4) apply(s, {REMS, s.m.size() / 2, 0}); else if (i % 5 == 2) apply(s, {REMF, 0, 0}); else apply(s, {POPG, 0, 0}); if ((i & 63) == 0) verify(s, "drain"); count(C_TRANS); }
    verify(s, "drained"); fini(s); count(C_TRACES);
}

// sizes around the widths of narrower types and pages: one large vector, every operation once
void large_job(size_t e, size_t n, bool alloc) {
    std::string ph; describe = [&] { return "large vector: " + std::to_string(n) + " elements of " + std::to_string(e) + " bytes alloc=" + std::to_string(alloc) + ": " + ph; };
    live_reset(); Cfg c{e, alloc, 3}; Sys s; init(s, c); std::string m; auto el = [&](size_t k) { El x(e, 0); uint64_t h = k * 0x9e3779b97f4a7c15ull + 77; for (size_t i = 0; i < e; i++) x[i] = (char)(h >> (8 * (i % 8))) ^ (char)(i / 8); return x; };
    auto ver = [&](vt_vec_t *v) { step(); CHECK(vt_vec_len(v) * e == m.size(), "len %zu, model %zu", vt_vec_len(v), m.size() / e); CHECK(vt_vec_capacity(v) >= vt_vec_len(v), "capacity below length"); CHECK(mem_ok(v->ptr, vt_vec_capacity(v) * e), "capacity %zu is not backed by memory", vt_vec_capacity(v)); const char *h = (const char *)vt_array_head(v); if (memcmp(h, m.data(), m.size())) { size_t i = 0; while (h[i] == m[i]) i++; failf("element %zu differs", i / e); } for (size_t i : {(size_t)0, n / 2, vt_vec_len(v) - 1}) if (i < vt_vec_len(v)) CHECK(vt_vec_get(v, i) == h + i * e, "get(%zu)", i); count(C_TRANS); count(C_EVALS); };
    ph = "push_back"; for (size_t k = 0; k < n; k++) { if (!(k & 1023)) step(); El x = el(k); vt_vec_push_back(s.v, x.data()); m += x; } ver(s.v);
    ph = "can_find"; auto ff = [&](const El &x) { int64_t w = -1; for (size_t i = 0; i < m.size() / e; i++) if (!memcmp(&m[i * e], x.data(), e)) { w = (int64_t)i; break; } CHECK(vt_vec_can_find(s.v, x.data()) == w, "can_find = %lld, expected %lld", (long long)vt_vec_can_find(s.v, x.data()), (long long)w); }; ff(el(0)); ff(el(n / 2)); ff(el(n - 1)); ff(El(e, (char)0xee));
    ph = "dup"; { vt_vec_t *d = vt_vec_dup(s.v, s.al); ver(d); CHECK(vt_vec_capacity(d) >= n, "dup capacity"); vt_vec_destroy(d); }
    std::vector<size_t> at{0, 1, n / 2, n - 1}; for (size_t a : {255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537}) if (a < n) at.push_back(a);
    for (size_t a : at) { ph = "insert at " + std::to_string(a); El x = el(n + a + 9); vt_vec_insert(s.v, x.data(), a); m.insert(a * e, x); ver(s.v); ff(x);
        ph = "set at " + std::to_string(a); x = el(n + a + 99); vt_vec_set(s.v, x.data(), a); m.replace(a * e, e, x); ver(s.v);
        ph = "remove (stable) at " + std::to_string(a); vt_vec_remove(s.v, a, VT_REMOVE_STRATEGY_STABLE); m.erase(a * e, e); ver(s.v);
        ph = "remove (fast) at " + std::to_string(a); { El last = m.substr(m.size() - e); vt_vec_remove(s.v, a, VT_REMOVE_STRATEGY_FAST); m.replace(a * e, e, last); m.resize(m.size() - e); ver(s.v); } 
        ph = "push_back after removals"; vt_vec_push_back(s.v, x.data()); m += x; ver(s.v); }
    ph = "push_front"; { El x = el(5); vt_vec_push_front(s.v, x.data()); m.insert(0, x); ver(s.v); }
    for (size_t k : {(size_t)1, (size_t)2, (size_t)5, n / 64 + 1, n / 2 + 1, n}) { ph = "shrink and reserve " + std::to_string(k); vt_vec_shrink(s.v); CHECK(vt_vec_capacity(s.v) == m.size() / e, "shrink: capacity %zu, len %zu", vt_vec_capacity(s.v), m.size() / e); ver(s.v); vt_vec_reserve(s.v, k); CHECK(vt_vec_capacity(s.v) == m.size() / e + k, "reserve: capacity %zu", vt_vec_capacity(s.v)); ver(s.v); }
    ph = "resize up"; { size_t o = m.size() / e, w = o + 7; vt_vec_resize(s.v, w); CHECK(vt_vec_len(s.v) == w, "len"); El x = el(3); for (size_t i = o; i < w; i++) { vt_vec_set(s.v, x.data(), i); m += x; } ver(s.v); }
    ph = "resize down"; { size_t w = n - 2 ? n - 2 : 1; vt_vec_resize(s.v, w); m.resize(w * e); ver(s.v); }
    ph = "pop"; for (int i = 0; i < 3 && !m.empty(); i++) { El x = m.substr(m.size() - e); void *q = vt_vec_pop_get(s.v); CHECK(q && !memcmp(q, x.data(), e), "pop_get"); m.resize(m.size() - e); ver(s.v); } vt_vec_pop(s.v); if (!m.empty()) m.resize(m.size() - e); ver(s.v);
    ph = "clear"; vt_vec_clear(s.v); m.clear(); CHECK(vt_vec_len(s.v) == 0 && vt_vec_is_empty(s.v), "clear"); vt_vec_shrink(s.v); { El x = el(8); for (int i = 0; i < 5; i++) { vt_vec_push_back(s.v, x.data()); m += x; } ver(s.v); }
    outcome(hash_bytes(&n, sizeof n, e * 2 + alloc)); fini(s); count(C_TRACES);
}
// more than 2^32 elements (or bytes): nothing is counted or addressed in 32 bits. Sparse model: only written positions are compared.
void huge_job(size_t e, size_t n, bool alloc, bool copies) {
    std::string ph; describe = [&] { return "huge vector: " + std::to_string(n) + " elements of " + std::to_string(e) + " bytes alloc=" + std::to_string(alloc) + ": " + ph; };
    live_reset(); Sys s; init(s, {e, alloc, 3}); typedef std::shared_ptr<const El> P; std::map<size_t, P> m; size_t len = 0; int k = 3; auto el = [&] { k++; El x(e, 0); for (size_t i = 0; i < e; i += i < 8 ? 1 : 4093) x[i] = (char)(k * 31 + i * 7 + 1); x[e - 1] = (char)(k * 5 + 1); return std::make_shared<const El>(std::move(x)); };
    auto ver = [&](vt_vec_t *v, bool all = true) { step(); CHECK(vt_vec_len(v) == len, "len %zu, model %zu", vt_vec_len(v), len); CHECK(vt_vec_capacity(v) >= len, "capacity %zu, len %zu", vt_vec_capacity(v), len); CHECK(vt_vec_has_space(v) == vt_vec_capacity(v) - len, "has_space"); CHECK(vt_vec_is_empty(v) == !len, "is_empty"); CHECK(mem_ok(v->ptr, vt_vec_capacity(v) * e), "capacity %zu promises more memory than the vector owns", vt_vec_capacity(v));
        for (auto &q : m) { CHECK((char *)vt_vec_get(v, q.first) == (char *)v->ptr + q.first * e, "element %zu is not at its place", q.first); CHECK(!memcmp(vt_vec_get(v, q.first), q.second->data(), e), "element %zu differs from the model", q.first); } count(C_EVALS); count(C_TRANS); };
    auto set = [&](size_t a) { P x = el(); vt_vec_set(s.v, x->data(), a); m[a] = x; };
    auto push = [&] { P x = el(); vt_vec_push_back(s.v, x->data()); m[len++] = x; };
    auto ins = [&](size_t a) { P x = el(); vt_vec_insert(s.v, x->data(), a); std::map<size_t, P> r; for (auto &q : m) r[q.first + (q.first >= a)] = q.second; r[a] = x; m = r; len++; };
    auto rem = [&](size_t a) { vt_vec_remove(s.v, a, VT_REMOVE_STRATEGY_STABLE); std::map<size_t, P> r; for (auto &q : m) if (q.first != a) r[q.first - (q.first > a)] = q.second; m = r; len--; };
    auto fast = [&](size_t a) { vt_vec_remove(s.v, a, VT_REMOVE_STRATEGY_FAST); len--; m[a] = m.at(len); m.erase(len); };
    ph = "push three"; push(); push(); push(); ver(s.v);
    ph = "resize up"; vt_vec_resize(s.v, n); len = n; ver(s.v);
    ph = "set"; for (size_t b : {(size_t)1 << 8, (size_t)1 << 16, (size_t)1 << 31, (size_t)1 << 32}) for (size_t d : {0, 1, 2, 3}) for (size_t a : {b / e + d, b + d - 2}) if (a < n) { set(a); } for (size_t a = n - 6; a < n; a++) set(a); ver(s.v);
    ph = "insert near the end"; ins(n - 2); ver(s.v); ins(len - 1); ver(s.v);
    ph = "push_back"; for (int i = 0; i < 6; i++) { push(); ver(s.v); }
    ph = "remove near the end"; rem(len - 5); ver(s.v); rem(len - 1); ver(s.v);
    ph = "remove (fast)"; fast(1); ver(s.v); fast(len - 3); ver(s.v); if (n > ((size_t)1 << 31)) { fast((size_t)1 << 31); ver(s.v); }
    ph = "pop_get"; { void *q = vt_vec_pop_get(s.v); len--; CHECK(q && !memcmp(q, m[len]->data(), e), "pop_get"); m.erase(len); ver(s.v); } ph = "pop"; vt_vec_pop(s.v); m.erase(--len); ver(s.v);
    for (size_t q : {(size_t)1, (size_t)9, (size_t)70000}) if (q * e < ((size_t)1 << 33)) { ph = "shrink, reserve " + std::to_string(q); vt_vec_shrink(s.v); CHECK(vt_vec_capacity(s.v) == len, "shrink: capacity %zu, len %zu", vt_vec_capacity(s.v), len); ver(s.v); vt_vec_reserve(s.v, q); CHECK(vt_vec_has_space(s.v) >= q, "reserve %zu: space %zu", q, vt_vec_has_space(s.v)); ver(s.v); push(); ver(s.v); }
    if (e > 4096) { ph = "can_find"; int nf = 0; for (auto it = m.rbegin(); it != m.rend() && nf < 3; ++it, nf++) { auto &q = *it; size_t w = q.first; for (auto &o : m) if (*o.second == *q.second) { w = o.first; break; } int64_t g = vt_vec_can_find(s.v, q.second->data()); CHECK(g == (int64_t)w, "can_find = %lld, expected %zu", (long long)g, w); step(); } P x = el(); CHECK(vt_vec_can_find(s.v, x->data()) == -1, "found an absent element"); }
    if (copies) { ph = "dup"; vt_vec_t *d = vt_vec_dup(s.v, s.al); ver(d); vt_vec_destroy(d); }
    ph = "resize down"; while (m.size() && m.rbegin()->first >= n - 2) m.erase(std::prev(m.end())); vt_vec_resize(s.v, n - 2); len = n - 2; ver(s.v);
    ph = "clear"; vt_vec_clear(s.v); m.clear(); len = 0; ver(s.v); push(); ver(s.v); ph = "shrink to one"; vt_vec_shrink(s.v); CHECK(vt_vec_capacity(s.v) == 1, "capacity %zu", vt_vec_capacity(s.v)); ver(s.v);
    outcome(hash_bytes(&n, sizeof n, e * 2 + alloc)); fini(s); count(C_TRACES);
}
// every pair of length and slack
void slack_job(size_t e, size_t hi) {
    size_t n = 0, k = 0; describe = [&] { return "shrink/reserve/dup of " + std::to_string(n) + " elements with slack " + std::to_string(k) + " elsize " + std::to_string(e); };
    for (n = 1; n <= hi; n++) for (k = 0; k <= hi + 8; k = k < 8 || k + 1 >= n ? k + 1 : std::max(k + 1, std::min(n - 1, k * 2))) { step(); live_reset(); Sys s; init(s, {e, (n & 1) != 0, n}); for (size_t i = 0; i < n; i++) apply(s, {PUSHB, 0, (int)i + 3}); if (k) apply(s, {RES, k, 0}); apply(s, {DUPKEEP, 0, 2}); apply(s, {SHRINK, 0, 0}); verify(s, "shrunk"); if (k) { apply(s, {RES, k, 0}); apply(s, {PUSHB, 0, 1}); verify(s, "pushed"); apply(s, {RESIZE, n + k, 1}); verify(s, "resized to capacity"); } fini(s); count(C_TRANS, 6); count(C_TRACES); if (k > n + 3 && k < hi) k = hi; }
}
// every pair of element size and length, and every pair of length and reserved room
void pairs_job(size_t e, size_t nmax) {
    size_t n = 0, k = 0; describe = [&] { return std::to_string(n) + " elements of " + std::to_string(e) + " bytes, step " + std::to_string(k); };
    for (bool al : {false, true}) for (n = 1; n <= nmax; n++) { step(); live_reset(); Sys s; init(s, {e, al, 1 + n % 3}); k = 0; for (size_t i = 0; i < n; i++) apply(s, {PUSHB, 0, (int)i + 3}); verify(s, "pushed"); k = 1; apply(s, {DUPKEEP, 0, 2}); verify(s, "dup"); k = 2; apply(s, {INS, n / 3, 2}); verify(s, "insert"); k = 3; apply(s, {REMS, n / 2, 0}); verify(s, "remove"); k = 4; apply(s, {REMF, n / 4, 0}); verify(s, "remove fast"); k = 5; apply(s, {PUSHF, 0, 1}); verify(s, "push_front"); k = 6; apply(s, {SET, n - 1, 2}); verify(s, "set"); k = 7; apply(s, {RESIZE, n + 1 + n % 4, 1}); verify(s, "resize"); fini(s); count(C_TRANS, n + 7); count(C_TRACES); count(C_EVALS, 8); }
}
void room_job(size_t n, size_t hi) {
    size_t k = 0; describe = [&] { return "reserving room for " + std::to_string(k) + " in a vector created for " + std::to_string(n); };
    for (size_t e : {(size_t)1, (size_t)8}) for (k = 1; k <= hi; k++) for (size_t l : {(size_t)0, (size_t)1, n}) { step(); live_reset(); Sys s; init(s, {e, (k & 1) != 0, n}); for (size_t i = 0; i < l; i++) apply(s, {PUSHB, 0, (int)i + 3}); apply(s, {RES, k, 0}); verify(s, "reserved"); apply(s, {RES, k, 0}); verify(s, "reserved again"); apply(s, {PUSHB, 0, 1}); verify(s, "pushed"); fini(s); count(C_TRANS, 3); count(C_TRACES); count(C_EVALS, 3); }
}
// typed wrappers: each must equal the generic operation on that type's bytes
template <class T> struct Api { void (*pb)(vt_vec_t *, T); void (*pf)(vt_vec_t *, T); T (*pg)(vt_vec_t *); void (*set)(vt_vec_t *, T, size_t); T (*get)(const vt_vec_t *, size_t); void (*ins)(vt_vec_t *, T, size_t); int64_t (*find)(const vt_vec_t *, T); };
// scribble over the stack below us so that padding bytes of by-value arguments differ from call to call
__attribute__((noinline)) void dirty_stack(int b) { volatile char buf[1024]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)(b * 37 + i); }
template <class T> void typed_job(const char *name, Api<T> a, std::vector<T> vals, bool alloc) {
    size_t phase = 0, idx = 0; T cur{}, cur2{};
    describe = [&] { char b[200]; snprintf(b, sizeof b, "typed %s alloc=%d phase %zu value #%zu (%.20Lg / %.20Lg)", name, (int)alloc, phase, idx, (long double)cur, (long double)cur2); return std::string(b); };
    auto mk = [&](vt_mallocator_t *&al) { live_reset(); al = alloc ? vt_mallocator_create() : nullptr; return vt_vec_create(2, sizeof(T), al); };
    for (idx = 0; idx < vals.size(); idx++) {
        T x = vals[idx]; cur = x;
        for (size_t j = 0; j < 3; j++) {
            T y = vals[(idx + 1 + j * 7) % vals.size()], z = vals[(idx + 2 + j * 5) % vals.size()]; cur2 = y; step();
            vt_mallocator_t *al; vt_vec_t *v = mk(al); std::vector<T> m;
            phase = 0; CHECK(a.pg(v) == 0, "%s: typed pop_get on an empty vector is not 0", name);
            auto cmp = [&](const char *w) { CHECK(vt_vec_len(v) == m.size(), "%s %s: len", name, w); for (size_t i = 0; i < m.size(); i++) CHECK(a.get(v, i) == m[i], "%s %s: element %zu", name, w, i); };
            phase = 1; dirty_stack(1); a.pb(v, x); m.push_back(x); cmp("push_back");
            phase = 2; dirty_stack(2); a.pf(v, y); m.insert(m.begin(), y); cmp("push_front");
            phase = 3; dirty_stack(3); a.ins(v, z, 1); m.insert(m.begin() + 1, z); cmp("insert");
            phase = 4; a.pb(v, z); m.push_back(z); a.set(v, x, 0); m[0] = x; cmp("set");
            phase = 5; a.ins(v, y, 3); m.insert(m.begin() + 3, y); cmp("insert2");
            phase = 6;
            for (T q : {x, y, z}) { int64_t w = -1; for (size_t i = 0; i < m.size(); i++) if (m[i] == q) { w = i; break; } dirty_stack(4 + (int)j); CHECK(a.find(v, q) == w, "%s: typed can_find = %lld expected %lld", name, (long long)a.find(v, q), (long long)w); }
            T absent = vals[(idx + 3) % vals.size()]; bool in = false; for (T q : m) in |= q == absent; if (!in) CHECK(a.find(v, absent) == -1, "%s: can_find finds an absent value", name);
            phase = 7; while (!m.empty()) { CHECK(a.pg(v) == m.back(), "%s: typed pop_get", name); m.pop_back(); }
            CHECK(a.pg(v) == 0, "%s: pop_get when emptied", name);
            vt_vec_destroy(v); if (al) vt_mallocator_destroy(al);
            CHECK(live_count() == 0, "%s: leak", name);
            count(C_TRANS, 12); count(C_TRACES); count(C_EVALS); outcome(hash_bytes(&idx, sizeof idx, hash_str(name) + j));
        }
    }
}
#define API(T, t) Api<T>{(void (*)(vt_vec_t *, T))vt_vec_push_back##t, (void (*)(vt_vec_t *, T))vt_vec_push_front##t, (T (*)(vt_vec_t *))vt_vec_pop_get##t, (void (*)(vt_vec_t *, T, size_t))vt_vec_set##t, (T (*)(const vt_vec_t *, size_t))vt_vec_get##t, (void (*)(vt_vec_t *, T, size_t))vt_vec_insert##t, (int64_t (*)(const vt_vec_t *, T))vt_vec_can_find##t}
template <class T> std::vector<T> ints(bool all) {
    std::vector<T> r; typedef std::numeric_limits<T> L;
    if (all) { for (long i = (long)L::min(); i <= (long)L::max(); i++) r.push_back((T)i); return r; }
    std::set<T> s{0, 1, 2, 3, L::max(), (T)(L::max() - 1), L::min(), (T)(L::min() + 1), (T)(L::max() / 2)};
    for (size_t b = 0; b < sizeof(T) * 8; b++) { T p = (T)((uint64_t)1 << b); s.insert(p); s.insert((T)(p - 1)); s.insert((T)(p + 1)); s.insert((T)(0 - p)); s.insert((T)~p); }
    return std::vector<T>(s.begin(), s.end());
}
template <class T> std::vector<T> floats() {
    std::vector<T> r; typedef std::numeric_limits<T> L;
    for (T x : {(T)0, (T)1, (T)-1, (T)0.5, (T)0.1, (T)-0.1, (T)3.14159265358979323846L, L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity(), (T)1e10L, (T)-2.5e-7L, (T)16777217.0L}) r.push_back(x);
    return r;
}
} // namespace

int main(int argc, char **argv) {
    parse_args(argc, argv);
    bool T = thorough();
    std::vector<size_t> els = {1, 2, 3, 4, 8, 12, 16, 24, 40};
    for (bool al : {false, true}) for (size_t e : els) for (size_t n0 : {(size_t)1, (size_t)2, (size_t)4})
        add_job("bfs_e" + std::to_string(e) + (al ? "_alloc" : "_libc") + "_n" + std::to_string(n0), [=] {
            bool wide = e == 4 || e == 12;
            bfs_job({e, al, n0}, wide ? 3 : 2, T ? (wide ? 6 : 7) : (wide ? 4 : 5), T ? 14 : 10); });
    int depth = T ? 5 : 4; size_t shards = T ? 32 : 4;
    for (bool al : {false, true}) for (size_t e : {(size_t)1, (size_t)8}) for (size_t n0 : {(size_t)1, (size_t)3}) for (size_t sh = 0; sh < shards; sh++)
        add_job("seq_e" + std::to_string(e) + (al ? "_alloc" : "_libc") + "_n" + std::to_string(n0) + "_s" + std::to_string(sh), [=] { dfs_job({e, al, n0}, 2, depth, sh, shards); });
    size_t maxn = T ? 520 : 140;
    for (bool al : {false, true}) for (size_t e : {(size_t)1, (size_t)3, (size_t)4, (size_t)8, (size_t)16}) for (size_t lo = 1; lo < maxn; lo += 20)
        add_job("sweep_e" + std::to_string(e) + (al ? "_alloc" : "_libc") + "_" + std::to_string(lo), [=] { sweep_job({e, al, 1 + lo % 5}, lo, std::min(maxn, lo + 20)); });
    for (bool al : {false, true}) for (size_t e : {(size_t)1, (size_t)4, (size_t)24, (size_t)100, (size_t)300})
        add_job("grow_e" + std::to_string(e) + (al ? "_alloc" : "_libc"), [=] { grow_job({e, al, 1}, T ? 20000 : 3000); });
    if (roomy(12)) { add_job("huge_count", [=] { huge_job(1, ((size_t)1 << 32) + 7, false, false); }); add_job("huge_bytes", [=] { huge_job(((size_t)1 << 22) + 1, 1031, true, false); }); add_job("huge_dup", [=] { huge_job(((size_t)1 << 18) + 1, 16391, false, true); }); if (T) add_job("huge_words", [=] { huge_job(4, ((size_t)1 << 31) + 7, true, false); }); }
    for (size_t e = 1; e <= (T ? 130 : 40); e++) add_job("pairs_e" + std::to_string(e), [=] { pairs_job(e, T ? 130 : 48); }); for (size_t n = 1; n <= (T ? 130 : 48); n++) add_job("room_" + std::to_string(n), [=] { room_job(n, T ? 130 : 48); });
    for (size_t e : {(size_t)1, (size_t)8}) add_job("slack_e" + std::to_string(e), [=] { slack_job(e, T ? 700 : 200); });
    for (bool al : {false, true}) { std::vector<std::pair<size_t, size_t>> L{{1, 255}, {1, 256}, {1, 257}, {1, 32769}, {1, 65535}, {1, 65536}, {1, 65537}, {1, 70001}, {2, 33000}, {4, 16385}, {8, 8193}, {8, 9000}, {12, 6000}, {16, 4097}, {40, 2000}, {256, 300}, {257, 260}, {1024, 70}, {4096, 20}, {4097, 17}, {65535, 4}, {65536, 5}, {70000, 6}}; if (T) { L.push_back({8, 70000}); L.push_back({4, 140000}); L.push_back({1, 300000}); }
        for (auto &q : L) { size_t e = q.first, n = q.second; add_job("large_e" + std::to_string(e) + "_n" + std::to_string(n) + (al ? "_alloc" : "_libc"), [=] { large_job(e, n, al); }); } }
    for (bool al : {false, true}) {
        std::string sfx = al ? "_alloc" : "_libc";
        add_job("typed_i8" + sfx, [=] { typed_job<int8_t>("i8", API(int8_t, i8), ints<int8_t>(true), al); });
        add_job("typed_u8" + sfx, [=] { typed_job<uint8_t>("u8", API(uint8_t, u8), ints<uint8_t>(true), al); });
        add_job("typed_i16" + sfx, [=] { typed_job<int16_t>("i16", API(int16_t, i16), ints<int16_t>(true), al); });
        add_job("typed_u16" + sfx, [=] { typed_job<uint16_t>("u16", API(uint16_t, u16), ints<uint16_t>(true), al); });
        add_job("typed_i32" + sfx, [=] { typed_job<int32_t>("i32", API(int32_t, i32), ints<int32_t>(false), al); });
        add_job("typed_u32" + sfx, [=] { typed_job<uint32_t>("u32", API(uint32_t, u32), ints<uint32_t>(false), al); });
        add_job("typed_i64" + sfx, [=] { typed_job<int64_t>("i64", API(int64_t, i64), ints<int64_t>(false), al); });
        add_job("typed_u64" + sfx, [=] { typed_job<uint64_t>("u64", API(uint64_t, u64), ints<uint64_t>(false), al); });
        add_job("typed_f" + sfx, [=] { typed_job<float>("f", API(float, f), floats<float>(), al); });
        add_job("typed_d" + sfx, [=] { typed_job<double>("d", API(double, d), floats<double>(), al); });
        add_job("typed_r" + sfx, [=] { typed_job<real>("r", API(real, r), floats<real>(), al); });
    }
    return run_main(argc, argv, "C01");
}
