// C03: vt_str editing operations against std::string, in lock-step.
#include "strutil.hpp"
#include "space.hpp"
using namespace mc;
namespace {
enum Kind { K_CREATE, K_LEN, K_CAP, K_TAKE };
struct Cfg { bool alloc; Kind kind; size_t n0; };
struct Sys { vt_str_t *s = nullptr; vt_mallocator_t *al = nullptr; std::string m; };
struct Op { int code; size_t a, b; std::string z; };
enum { SET, SETN, SETAT, SETC, SETNUL, APP, APPN, APPF, INS, INSF, INSN, REM, RESERVE, RESIZE, SHRINK, CLEAR, DUP, DUPKEEP, VALID, RAW };
const char *names[] = {"set", "set_n", "set_at", "set_c", "set_c_nul+validate_len", "append", "append_n", "appendf", "insert", "insertf", "insert_n", "remove", "reserve", "resize", "shrink", "clear", "dup", "dup_mutate_copy", "validate_len", "write_through_head+validate_len"};
std::string opstr(const Op &o) { char b[160]; snprintf(b, sizeof b, "%s(at/n=%zu,%zu z[%zu]=%s)", names[o.code], o.a, o.b, o.z.size(), show(o.z.substr(0, 16)).c_str()); return b; }
void verify(Sys &s, const char *when) {
    check_str(s.s, s.m, when);
    CHECK(vt_array_has_alloctr(s.s) == (s.al != nullptr), "%s: allocator lost or invented", when);
}
void init(Sys &s, const Cfg &c) {
    s.al = c.alloc ? vt_mallocator_create() : nullptr;
    switch (c.kind) {
    case K_CREATE: { std::string w; for (size_t i = 0; i < c.n0; i++) w += "ab"[i & 1]; Z z(w); s.s = vt_str_create(z, s.al); s.m = w; break; }
    case K_LEN: s.s = vt_str_create_len(c.n0, s.al); s.m = std::string(c.n0, '?'); break;
    case K_CAP: s.s = vt_str_create_capacity(c.n0, s.al); s.m = ""; CHECK(vt_str_capacity(s.s) >= c.n0, "create_capacity(%zu): capacity %zu", c.n0, vt_str_capacity(s.s)); break;
    case K_TAKE: { s.m = std::string(c.n0, 'b'); char *p; if (s.al) { p = (char *)VT_ALLOCATOR_ALLOC(s.al, c.n0 + 1); } else p = (char *)tracked_malloc(c.n0 + 1);
        memset(p, 'b', c.n0); p[c.n0] = 0; s.s = vt_str_take_ownership(p, s.al); CHECK(vt_str_z(s.s) == p, "take_ownership copied the text"); break; }
    }
}
void fini(Sys &s) { vt_str_destroy(s.s); if (s.al) vt_mallocator_destroy(s.al); CHECK(live_count() == 0, "after destroy %zu allocation(s) are still live", live_count()); }
void apply(Sys &x, const Op &o) {
    vt_str_t *s = x.s; std::string &m = x.m; Z z(o.z); size_t cap = vt_str_capacity(s);
    switch (o.code) {
    case SET: vt_str_set(s, z); m = o.z; break;
    case SETN: vt_str_set_n(s, z, o.a); m = o.z.substr(0, o.a); break;
    case SETAT: CHECK(vt_str_set_at(s, z, o.a) == VT_STATUS_OPERATION_SUCCESS, "set_at status"); m = m.substr(0, o.a) + o.z; break;
    case SETC: CHECK(vt_str_set_c(s, o.z[0], o.a) == VT_STATUS_OPERATION_SUCCESS, "set_c status"); m[o.a] = o.z[0]; break;
    case SETNUL: { vt_str_set_c(s, 0, o.a); size_t r = vt_str_validate_len(s); m.resize(o.a); CHECK(r == o.a, "validate_len returned %zu, expected %zu", r, o.a); break; }
    case VALID: { size_t r = vt_str_validate_len(s); CHECK(r == m.size(), "validate_len returned %zu, expected %zu", r, m.size()); break; }
    case RAW: { // fill the whole capacity behind the library's back, then validate
        std::string w(cap, 'r'); memcpy((char *)vt_array_head(s), w.data(), cap); ((char *)vt_array_head(s))[cap] = 'G'; size_t r = vt_str_validate_len(s); CHECK(r == cap, "validate_len returned %zu, expected %zu", r, cap); m = w; break; }
    case APP: vt_str_append(s, z); m += o.z; break;
    case APPN: vt_str_append_n(s, z, o.a); m += o.z.substr(0, o.a); break;
    case APPF: CHECK(vt_str_appendf(s, "%s", (const char *)z) == VT_STATUS_OPERATION_SUCCESS, "appendf status"); m += o.z;
        if (o.b) { char b[64]; snprintf(b, sizeof b, "%03d|%c", (int)o.b, 'x'); CHECK(vt_str_appendf(s, "%03d|%c", (int)o.b, 'x') == VT_STATUS_OPERATION_SUCCESS, "appendf status"); m += b; } break;
    case INS: vt_str_insert(s, z, o.a); m.insert(o.a, o.z); break;
    case INSN: vt_str_insert_n(s, z, o.a, o.b); m.insert(o.a, o.z.substr(0, o.b)); break;
    case INSF: if (o.b) { char b[64]; snprintf(b, sizeof b, "%zu-", o.b); CHECK(vt_str_insertf(s, o.a, "%zu-%s", o.b, (const char *)z) == VT_STATUS_OPERATION_SUCCESS, "insertf status"); m.insert(o.a, b + o.z); }
        else { CHECK(vt_str_insertf(s, o.a, "%s", (const char *)z) == VT_STATUS_OPERATION_SUCCESS, "insertf status"); m.insert(o.a, o.z); } break;
    case REM: vt_str_remove(s, o.a, o.b); m.erase(o.a, o.b); break;
    case RESERVE: vt_str_reserve(s, o.a); CHECK(vt_str_capacity(s) == cap + o.a, "reserve(%zu): capacity %zu -> %zu", o.a, cap, vt_str_capacity(s)); break;
    case RESIZE: vt_str_resize(s, o.a); if (m.size() > o.a) m.resize(o.a); CHECK(vt_str_capacity(s) == o.a, "resize(%zu): capacity %zu", o.a, vt_str_capacity(s)); break;
    case SHRINK: vt_str_shrink(s); if (!m.empty()) CHECK(vt_str_capacity(s) == m.size(), "shrink: capacity %zu != length %zu", vt_str_capacity(s), m.size()); break;
    case CLEAR: vt_str_clear(s); m.clear(); break;
    case DUP: case DUPKEEP: {
        vt_str_t *d = vt_str_dup(s); check_str(d, m, "dup"); CHECK(d != s && vt_str_z(d) != vt_str_z(s), "dup shares memory with the original");
        if (o.code == DUP) { vt_str_destroy(s); x.s = d; }
        else { vt_str_append(d, "zz"); vt_str_set_c(d, 'q', 0); vt_str_remove(d, 0, 1); vt_str_clear(d); vt_str_destroy(d); } break; }
    }
}
std::vector<Op> menu(const Sys &x, const std::vector<std::string> &args, size_t maxlen, size_t maxcap) {
    std::vector<Op> r; size_t n = x.m.size(), cap = vt_str_capacity(x.s);
    for (auto &z : args) {
        if (z.size() <= n) r.push_back({SET, 0, 0, z});
        for (size_t k = 1; k < z.size(); k++) if (k <= n) r.push_back({SETN, k, 0, z});
        for (size_t i = 0; i < n; i++) if (z.size() <= n - i) r.push_back({SETAT, i, 0, z});
        if (z.size() == 1) for (size_t i = 0; i < n; i++) r.push_back({SETC, i, 0, z});
        if (n + z.size() <= maxlen) {
            r.push_back({APP, 0, 0, z}); r.push_back({APPF, 0, 0, z});
            for (size_t i = 0; i < n; i++) { r.push_back({INS, i, 0, z}); r.push_back({INSF, i, 0, z}); }
        }
        for (size_t k = 1; k <= z.size(); k++) if (n + k <= maxlen) { r.push_back({APPN, k, 0, z}); for (size_t i = 0; i <= n; i++) r.push_back({INSN, i, k, z}); }
    }
    for (size_t i = 0; i < n; i++) { for (size_t k = 1; k <= n - i + 1; k++) r.push_back({REM, i, k, ""}); r.push_back({REM, i, SIZE_MAX, ""}); r.push_back({SETNUL, i, 0, ""}); }
    for (size_t k : {1, 2}) if (cap + k <= maxcap) r.push_back({RESERVE, k, 0, ""});
    for (size_t k = 1; k <= maxlen + 1; k++) r.push_back({RESIZE, k, 0, ""});
    for (int c : {SHRINK, CLEAR, DUP, DUPKEEP, VALID}) r.push_back({c, 0, 0, ""});
    if (cap <= maxlen) r.push_back({RAW, 0, 0, ""});
    return r;
}
std::string key(const Sys &x) { std::string k; uint64_t c = vt_str_capacity(x.s); k.append((char *)&c, 8); return k + x.m; }
Explorer<Sys, Op> mk(Cfg c, std::vector<std::string> args, size_t maxlen, size_t maxcap, const char *what) {
    Explorer<Sys, Op> ex; ex.init = [=](Sys &s) { init(s, c); }; ex.fini = fini; ex.apply = apply; ex.key = key; ex.opstr = opstr;
    ex.verify = [](Sys &s) { verify(s, "after op"); }; ex.menu = [=](const Sys &s) { return menu(s, args, maxlen, maxcap); };
    char b[96]; const char *kn[] = {"create", "create_len", "create_capacity", "take_ownership"}; snprintf(b, sizeof b, "str %s alloc=%d %s(%zu)", what, (int)c.alloc, kn[c.kind], c.n0); ex.label = b; return ex;
}
std::string pat(size_t n, int salt) { std::string w(n, 0); for (size_t i = 0; i < n; i++) { unsigned char ch = (unsigned char)(33 + (i * 7 + salt * 13) % 94); if ((i + salt) % 11 == 3) ch = (unsigned char)(128 + (i * 5) % 128); w[i] = (char)ch; } return w; }
void sweep(bool al, size_t lo, size_t hi) {
    std::vector<Op> cur; size_t B = 0; describe = [&] { std::string r = "sweep alloc=" + std::to_string(al) + " base length " + std::to_string(B) + ": "; for (auto &o : cur) r += opstr(o) + " ; "; return r; };
    for (size_t L = lo; L < hi; L++) for (size_t base : {(size_t)1, (size_t)2, (size_t)9, L + 1, (size_t)1030}) {
        B = base; if (base == 1030 && L % 16) continue;
        std::string z = pat(L, 1), w = pat(base, 2);
        std::vector<std::vector<Op>> hs; std::set<size_t> pos{0, 1, base / 2, base - 1, base};
        hs.push_back({{APP, 0, 0, z}, {APP, 0, 0, "t"}}); hs.push_back({{APPF, 0, 0, z}, {APP, 0, 0, "t"}}); hs.push_back({{APPF, 0, 7, z}, {SHRINK, 0, 0, ""}, {APPF, 0, 0, "uv"}});
        if (L) { hs.push_back({{APPN, L, 0, z}, {APPN, (L + 1) / 2, 0, z}, {REM, 0, 1, ""}}); }
        if (L && L <= base) { hs.push_back({{SET, 0, 0, z}}); hs.push_back({{SETN, (L + 1) / 2, 0, z}, {APP, 0, 0, "k"}}); }
        for (size_t at : pos) {
            if (at < base) { hs.push_back({{INS, at, 0, z}, {REM, at, L + 1, ""}}); hs.push_back({{INSF, at, 0, z}, {APP, 0, 0, "t"}}); hs.push_back({{INSF, at, 42, z}, {SHRINK, 0, 0, ""}, {INS, 0, 0, "y"}});
                if (L) hs.push_back({{REM, at, L, ""}, {APP, 0, 0, z}}); hs.push_back({{RESERVE, L + 1, 0, ""}, {INS, at, 0, z}, {DUP, 0, 0, ""}, {DUPKEEP, 0, 0, ""}});
                if (L <= base - at) hs.push_back({{SETAT, at, 0, z}, {APP, 0, 0, "p"}}); }
            if (at <= base && L) { hs.push_back({{INSN, at, L, z}, {CLEAR, 0, 0, ""}, {APP, 0, 0, z}}); hs.push_back({{INSN, at, (L + 1) / 2, z}, {RESIZE, L + 1, 0, ""}, {APP, 0, 0, z}}); }
        }
        hs.push_back({{CLEAR, 0, 0, ""}, {SHRINK, 0, 0, ""}, {APP, 0, 0, z}, {VALID, 0, 0, ""}}); hs.push_back({{RAW, 0, 0, ""}, {APP, 0, 0, z}, {SETNUL, 0, 0, ""}, {APP, 0, 0, z}});
        for (auto &h : hs) { step(); live_reset(); Sys s; s.al = al ? vt_mallocator_create() : nullptr; { Z zz(w); s.s = vt_str_create(zz, s.al); } s.m = w; cur.clear(); verify(s, "created");
            for (auto &o : h) { cur.push_back(o); apply(s, o); verify(s, "sweep"); count(C_TRANS); }
            outcome(H(s.m, vt_str_capacity(s.s), al)); fini(s); count(C_TRACES); count(C_EVALS); }
    }
}
void large(bool al, size_t L, size_t base) { // texts around the widths of narrower types: every operation on or with a long text
    std::vector<Op> cur; describe = [&] { std::string r = "large alloc=" + std::to_string(al) + " text of " + std::to_string(L) + " bytes, string of " + std::to_string(base) + ": "; for (auto &o : cur) r += opstr(o) + " ; "; return r; };
    std::string z = pat(L, 1), w = pat(base, 2); std::vector<std::vector<Op>> hs; std::set<size_t> pos{0, 1, base / 2, base - 1, base}; for (size_t a : {255, 256, 4096, 32768, 65535, 65536, 65537}) if (a < base) pos.insert(a);
    hs.push_back({{APP, 0, 0, z}, {APP, 0, 0, "t"}, {SHRINK, 0, 0, ""}, {DUP, 0, 0, ""}, {DUPKEEP, 0, 0, ""}}); hs.push_back({{APPF, 0, 7, z}, {SHRINK, 0, 0, ""}, {APPF, 0, 0, "uv"}}); hs.push_back({{APPN, L, 0, z}, {APPN, (L + 1) / 2, 0, z}, {REM, 0, 1, ""}, {RESERVE, L, 0, ""}, {APP, 0, 0, z}});
    if (L <= base) { hs.push_back({{SET, 0, 0, z}, {APP, 0, 0, "k"}}); hs.push_back({{SETN, L, 0, z}, {APP, 0, 0, "k"}}); }
    for (size_t at : pos) { if (at < base) { hs.push_back({{INS, at, 0, z}, {REM, at, L > 1 ? L - 1 : 1, ""}, {SETC, at, 0, "c"}}); hs.push_back({{INSF, at, 42, z}, {SHRINK, 0, 0, ""}, {INS, 0, 0, "y"}}); hs.push_back({{REM, at, std::min(L, base - at), ""}, {APP, 0, 0, z}}); hs.push_back({{REM, at, SIZE_MAX, ""}, {APP, 0, 0, z}}); if (L <= base - at) hs.push_back({{SETAT, at, 0, z}, {APP, 0, 0, "p"}}); hs.push_back({{SETNUL, at, 0, ""}, {VALID, 0, 0, ""}, {APP, 0, 0, z}}); hs.push_back({{RESIZE, at + 1, 0, ""}, {APP, 0, 0, z}}); }
        hs.push_back({{INSN, at, L, z}, {VALID, 0, 0, ""}, {CLEAR, 0, 0, ""}, {APP, 0, 0, z}}); }
    hs.push_back({{RESERVE, 10, 0, ""}, {RAW, 0, 0, ""}, {APP, 0, 0, z}, {SHRINK, 0, 0, ""}});
    for (auto &h : hs) { step(); live_reset(); Sys s; s.al = al ? vt_mallocator_create() : nullptr; { Z zz(w); s.s = vt_str_create(zz, s.al); } s.m = w; cur.clear(); verify(s, "created"); for (auto &o : h) { step(); cur.push_back(o); apply(s, o); verify(s, "large"); count(C_TRANS); } outcome(H(s.m, vt_str_capacity(s.s), al)); fini(s); count(C_TRACES); count(C_EVALS); }
    for (int k = 0; k < 3; k++) { step(); live_reset(); Sys s; init(s, {al, k == 0 ? K_LEN : k == 1 ? K_CAP : K_TAKE, base}); cur.clear(); verify(s, "created"); apply(s, {APP, 0, 0, z}); verify(s, "appended"); fini(s); count(C_TRACES); }
}
void slack(bool al, size_t hi) { // every pair of length and slack
    size_t n = 0, k = 0; describe = [&] { return "shrink/reserve/append with length " + std::to_string(n) + ", slack " + std::to_string(k); };
    for (n = 1; n <= hi; n++) { std::set<size_t> ks{n / 2, n - 1, n, n + 1, 2 * n, n / 64 + 1, n / 8 + 1}; for (size_t i = 0; i < 10; i++) ks.insert(i); std::string w = pat(n, 3);
        for (size_t kk : ks) for (size_t d = 0; d < 3; d++) { k = kk; step(); live_reset(); Sys s; s.al = al ? vt_mallocator_create() : nullptr; { Z zz(w); s.s = vt_str_create(zz, s.al); } s.m = w; if (k) apply(s, {RESERVE, k, 0, ""}); apply(s, {DUPKEEP, 0, 0, ""}); if (k + d > 1) apply(s, {d == 1 ? APPF : APP, 0, 0, pat(k + d - 1, 4)}); verify(s, "filled to the edge"); apply(s, {SHRINK, 0, 0, ""}); verify(s, "shrunk"); if (k) apply(s, {RESERVE, k, 0, ""}); apply(s, {INS, n / 2, 0, pat(k + d, 5)}); verify(s, "inserted"); fini(s); count(C_TRANS, 6); count(C_TRACES); } }
}
void cube(size_t lo, size_t hi) { // every (length, position, amount) of the editing operations, at exact and at spare capacity
    size_t n = 0, at = 0, k = 0; int c = 0; describe = [&] { return std::string(names[c]) + " at " + std::to_string(at) + ", " + std::to_string(k) + " bytes, length " + std::to_string(n); };
    for (n = lo; n < hi; n++) { std::string w = pat(n, 5); for (at = 0; at <= n; at++) for (k = 1; k <= n + 1; k++) for (int cc : {(int)REM, (int)INS, (int)INSF, (int)INSN, (int)SETAT, (int)APP, (int)APPN, (int)SET, (int)SETN}) { c = cc; std::string z = pat(k, 6);
        if (cc == REM || cc == INS || cc == INSF || cc == SETAT) { if (at >= n) continue; } if (cc == INSF && (n + at + k) % 3) continue; if (cc == SETAT && k > n - at) continue; if ((cc == APP || cc == APPN || cc == SET || cc == SETN) && at) continue; if ((cc == SET || cc == SETN) && k > n) continue;
        step(); live_reset(); Sys s; s.al = (at + k) % 5 == 0 ? vt_mallocator_create() : nullptr; { Z zz(w); s.s = vt_str_create(zz, s.al); } s.m = w; if ((n + at + k) % 2) apply(s, {RESERVE, (n + k) % 7 + 1, 0, ""});
        Op o = cc == REM ? Op{REM, at, k, ""} : cc == INSN ? Op{INSN, at, k, z + "tail"} : cc == APPN || cc == SETN ? Op{cc, k, 0, z + "tail"} : Op{cc, at, 0, z}; apply(s, o); verify(s, names[cc]); count(C_TRANS); outcome(H(s.m, vt_str_capacity(s.s), cc)); fini(s); count(C_TRACES); count(C_EVALS); } }
}
void self_set(bool al, size_t lo, size_t hi) { // the new text is a part of the string itself: every offset and length, all the way to the edges
    size_t n = 0, off = 0, k = 0; describe = [&] { return "set to its own bytes " + std::to_string(off) + ".." + std::to_string(off + k) + " of " + std::to_string(n); };
    for (n = lo; n < hi; n++) { std::string w = pat(n, 3); std::set<size_t> offs; for (size_t i = 0; i < std::min<size_t>(n, 40); i++) { offs.insert(i); offs.insert(n - 1 - i); } offs.insert(n / 2); offs.insert(n / 3);
        for (size_t o : offs) { std::set<size_t> ks{1, n - o, (n - o + 1) / 2}; if (n < 40) for (size_t i = 1; i <= n - o; i++) ks.insert(i); for (size_t kk : ks) for (int whole = 0; whole < 2; whole++) { if (whole && kk != n - o) continue; off = o; k = kk; step(); live_reset(); Sys s; s.al = al ? vt_mallocator_create() : nullptr; { Z zz(w); s.s = vt_str_create(zz, s.al); } s.m = w; const char *z = vt_str_z(s.s) + off; if (whole) vt_str_set(s.s, z); else vt_str_set_n(s.s, z, k); s.m = w.substr(off, k); verify(s, "set to a part of itself"); apply(s, {APP, 0, 0, "end"}); verify(s, "edited afterwards"); outcome(H(s.m, n, off)); fini(s); count(C_TRACES); count(C_TRANS, 2); count(C_EVALS); } } }
}
void unformattable(bool al) { // a format the C library cannot produce: failure is reported and nothing changes
    int c = 0; describe = [&] { return "a format that cannot be produced, case " + std::to_string(c); }; static const wchar_t bad[] = {L'a', (wchar_t)0x7fffffff, 0}; char t[8]; CHECK(snprintf(t, sizeof t, "%ls", bad) < 0, "the test text can be formatted here");
    for (c = 0; c < 12; c++) { step(); live_reset(); Sys s; init(s, {al, c % 4 == 1 ? K_LEN : c % 4 == 2 ? K_TAKE : K_CREATE, (size_t)(1 + c % 5)}); if (c & 1) apply(s, {RESERVE, 20, 0, ""}); enum VitaStatus r = c < 6 ? vt_str_appendf(s.s, c % 3 ? "%ls" : "%d %ls", c % 3 ? (void *)bad : (void *)5, (void *)bad) : vt_str_insertf(s.s, 0, c % 3 ? "%ls" : "%d %ls", c % 3 ? (void *)bad : (void *)5, (void *)bad); CHECK(r != VT_STATUS_OPERATION_SUCCESS, "success reported"); verify(s, "unformattable"); apply(s, {APP, 0, 0, "x"}); verify(s, "after"); outcome(c + 777); fini(s); count(C_TRACES); count(C_TRANS); }
}
void bytes_job() { // every byte value through every text-carrying operation; every format class
    unsigned b = 0; describe = [&] { return "byte value " + std::to_string(b); };
    for (b = 1; b < 256; b++) for (bool al : {false, true}) {
        step(); std::string z = std::string("x") + (char)b + (char)b; live_reset(); Sys s; s.al = al ? vt_mallocator_create() : nullptr; { Z zz(z); s.s = vt_str_create(zz, s.al); } s.m = z;
        for (auto &o : std::vector<Op>{{VALID, 0, 0, ""}, {APP, 0, 0, z}, {APPF, 0, 0, z}, {INS, 1, 0, z}, {INSF, 2, 0, z}, {APPN, 2, 0, z}, {INSN, 3, 2, z}, {SETC, 0, 0, std::string(1, (char)b)}, {REM, 0, 2, ""}, {DUP, 0, 0, ""}, {SETAT, 3, 0, z}, {SET, 0, 0, z}}) { apply(s, o); verify(s, names[o.code]); count(C_TRANS); }
        outcome(H(s.m, b)); fini(s); count(C_TRACES);
    }
}
// a text longer than 2^32 bytes: sparse model (everything that was not written is a question mark)
void huge_text(bool alloc) {
    std::string ph; describe = [&] { return "text of more than 2^32 bytes, alloc=" + std::to_string(alloc) + ": " + ph; }; live_reset(); const size_t G = (size_t)1 << 32; Sys x; x.al = alloc ? vt_mallocator_create() : nullptr; std::map<size_t, char> m; size_t len = 0;
    auto ver = [&] { step(); vt_str_t *s = x.s; CHECK(vt_str_len(s) == len, "len %zu, expected %zu", vt_str_len(s), len); CHECK(vt_str_capacity(s) >= len && vt_str_has_space(s) == vt_str_capacity(s) - len && !vt_str_is_empty(s), "capacity %zu, space %zu", vt_str_capacity(s), vt_str_has_space(s)); const char *z = vt_str_z(s); CHECK(mem_ok(z, vt_str_capacity(s) + 1), "capacity %zu promises more memory than the text owns", vt_str_capacity(s)); CHECK(z[len] == 0, "not terminated at its length");
        for (auto &q : m) CHECK(z[q.first] == q.second, "byte %zu is 0x%02x, expected '%c'", q.first, (unsigned char)z[q.first], q.second); for (size_t i : {(size_t)0, (size_t)77, (size_t)1 << 31, ((size_t)1 << 31) - 1, G - 1, G, G + 1, len - 1, len - 2, len / 2}) if (i < len && !m.count(i)) CHECK(z[i] == '?', "byte %zu is 0x%02x, expected '?'", i, (unsigned char)z[i]); count(C_EVALS); count(C_TRANS); };
    auto ins = [&](size_t a, const std::string &t) { std::map<size_t, char> r; for (auto &q : m) r[q.first < a ? q.first : q.first + t.size()] = q.second; for (size_t i = 0; i < t.size(); i++) r[a + i] = t[i]; m = r; len += t.size(); };
    auto del = [&](size_t a, size_t k) { std::map<size_t, char> r; for (auto &q : m) if (q.first < a || q.first >= a + k) r[q.first < a ? q.first : q.first - k] = q.second; m = r; len -= k; };
    ph = "create_len"; len = G + 9; x.s = vt_str_create_len(len, x.al); ver();
    ph = "set_c"; for (size_t a : {(size_t)3, ((size_t)1 << 31) + 2, G - 2, G + 2, G + 8}) { CHECK(vt_str_set_c(x.s, (char)('A' + a % 20), a) == VT_STATUS_OPERATION_SUCCESS, "set_c status"); m[a] = (char)('A' + a % 20); ver(); }
    ph = "append"; vt_str_append(x.s, "tail"); ins(len, "tail"); ver(); ph = "append_n"; vt_str_append_n(x.s, "more text", 4); ins(len, "more"); ver(); ph = "appendf"; vt_str_appendf(x.s, "%d-%s", 42, "zz"); ins(len, "42-zz"); ver();
    ph = "insert"; vt_str_insert(x.s, "ins", G + 1); ins(G + 1, "ins"); ver(); ph = "insert_n"; vt_str_insert_n(x.s, "nser", G - 1, 3); ins(G - 1, "nse"); ver(); ph = "insertf"; vt_str_insertf(x.s, G + 4, "<%c>", 'f'); ins(G + 4, "<f>"); ver();
    ph = "remove"; vt_str_remove(x.s, G, 2); del(G, 2); ver(); vt_str_remove(x.s, len - 3, 3); del(len - 3, 3); ver(); ph = "set_at"; vt_str_set_at(x.s, "XY", len - 4); del(len - 4, 4); ins(len, "XY"); ver();
    ph = "shrink"; vt_str_shrink(x.s); CHECK(vt_str_capacity(x.s) == len, "capacity %zu, len %zu", vt_str_capacity(x.s), len); ver(); ph = "reserve"; vt_str_reserve(x.s, 100); CHECK(vt_str_has_space(x.s) >= 100, "space"); ver(); ph = "validate_len"; CHECK(vt_str_validate_len(x.s) == len, "validate_len"); ver();
    ph = "resize down"; vt_str_resize(x.s, G + 1); while (m.rbegin()->first >= G + 1) m.erase(std::prev(m.end())); len = G + 1; ver();
    ph = "set"; vt_str_set(x.s, "small"); m.clear(); len = 0; ins(0, "small"); ver(); ph = "shrink"; vt_str_shrink(x.s); ver(); fini(x); outcome(alloc + 33); count(C_TRACES);
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); size_t ML = T ? 5 : 4, MC = T ? 10 : 8;
    std::vector<std::string> a2{"", "a", "\xe9", "ab", "\xe9\xe9"}, a1{"", "a", "b\xe9"};
    std::vector<std::pair<Kind, size_t>> ks{{K_CREATE, 0}, {K_CREATE, 1}, {K_CREATE, 3}, {K_LEN, 2}, {K_CAP, 1}, {K_CAP, 4}, {K_TAKE, 0}, {K_TAKE, 2}};
    for (bool al : {false, true}) for (auto &k : ks) { std::string nm = std::string(al ? "_alloc" : "_libc") + "_k" + std::to_string(k.first) + "_n" + std::to_string(k.second);
        add_job("bfs" + nm, [=] { auto ex = mk({al, k.first, k.second}, a2, ML, MC, "bfs"); ex.bfs(); });
        for (size_t sh = 0; sh < (T ? 16u : 1u); sh++) add_job("seq" + nm + "_" + std::to_string(sh), [=] { auto ex = mk({al, k.first, k.second}, a1, 4, 1000, "all sequences"); ex.all_sequences(T ? 4 : 3, sh, T ? 16 : 1); }); }
    size_t top = T ? 1100 : 300;
    for (bool al : {false, true}) { for (size_t lo = 0; lo < top; lo += 25) add_job("sweep_" + std::to_string(al) + "_" + std::to_string(lo), [=] { sweep(al, lo, lo + 25); });
        for (size_t lo : {1010, 1020, 1030, 2040, 2048, 4090}) add_job("sweep_" + std::to_string(al) + "_" + std::to_string(lo), [=] { sweep(al, lo, lo + 10); }); }
    for (bool al : {false, true}) { add_job("slack_" + std::to_string(al), [=] { slack(al, T ? 700 : 160); }); add_job("unformattable_" + std::to_string(al), [=] { unformattable(al); });
        for (size_t lo : {1, 20, 30, 63, 127, 255, 511, 1023, 4095, 65535}) add_job("self_set_" + std::to_string(al) + "_" + std::to_string(lo), [=] { self_set(al, lo, lo == 1 ? 20 : lo == 20 ? 30 : lo == 30 ? 63 : lo + 3); });
        for (size_t L : {1, 300, 32768, 65535, 65536, 65537, 70001}) for (size_t base : {3, 4096, 65535, 65536, 70001}) add_job("large_" + std::to_string(al) + "_" + std::to_string(L) + "_" + std::to_string(base), [=] { large(al, L, base); }); }
    if (roomy(12)) add_job("huge_text", [] { huge_text(true); });
    { size_t lo = 1; for (size_t hi : {16, 24, 30, 34, 38, 41, 44, 47, 50}) { add_job("cube_" + std::to_string(lo), [=] { cube(lo, hi); }); lo = hi; } if (T) for (; lo < 100; lo++) add_job("cube_" + std::to_string(lo), [=] { cube(lo, lo + 1); }); }
    add_job("bytes", bytes_job);
    return run_main(argc, argv, "C03");
}
