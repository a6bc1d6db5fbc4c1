// C11: spans and string views: windows onto memory they do not own.
#include "catalog.hpp"
using namespace mc;
namespace {
typedef std::string str_t; str_t D; str_t desc() { return D; }
// ---------------------------------------------------------------- spans
unsigned char pat(size_t i) { return (unsigned char)(17 + i * 29 + (i >> 8) * 7); }
void span_window(size_t n, size_t es, size_t from, size_t to, bool whole) {
    D = "span over elements [" + std::to_string(from) + "," + std::to_string(to) + ") of " + std::to_string(n) + " elements of " + std::to_string(es) + " bytes" + (whole ? " (span_from)" : ""); step(); live_reset(); uint64_t ev = alloc_events();
    size_t bytes = n * es; unsigned char *mem = (unsigned char *)malloc(bytes); std::vector<unsigned char> model(bytes); for (size_t i = 0; i < bytes; i++) mem[i] = model[i] = pat(i);
    vt_span_t sp = whole ? vt_span_from(mem + from * es, to - from, es) : vt_span_from_to(mem, from, to, es); size_t len = to - from;
    CHECK(vt_span_len(sp) == len, "length %zu, expected %zu", vt_span_len(sp), len);
    std::vector<unsigned char> val(es);
    for (size_t i = 0; i < len; i++) {
        void *p = vt_span_get(sp, i); CHECK(p == mem + (from + i) * es, "get(%zu) refers to byte %ld of the memory, expected %zu", i, (long)((unsigned char *)p - mem), (from + i) * es);
        for (size_t b = 0; b < es; b++) val[b] = (unsigned char)(0x80 + i * 3 + b * 5); vt_span_set(sp, val.data(), i); memcpy(&model[(from + i) * es], val.data(), es);
        CHECK(!memcmp(mem, model.data(), bytes), "set(%zu) did not change exactly that element", i); count(C_TRANS, 2);
        CHECK(!memcmp(vt_span_get(sp, i), val.data(), es), "get(%zu) does not show what set stored", i);
    }
    // the span shows changes made behind its back
    for (size_t i = 0; i < len; i++) { mem[(from + i) * es] ^= 0x55; CHECK(*(unsigned char *)vt_span_get(sp, i) == mem[(from + i) * es], "element %zu was copied", i); }
    CHECK(alloc_events() == ev, "a span operation used the allocator"); count(C_EVALS); count(C_TRACES); uint64_t o[3] = {n * 100 + es, from, to}; outcome(hash_bytes(o, sizeof o)); free(mem);
}
// long windows: length, and reads and writes at their corners
// spans over more than 2^32 elements or bytes
void huge_span(size_t n, size_t es) { size_t tot = n * es; char *b = (char *)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) return; std::vector<size_t> at; for (size_t a : {(size_t)0, (size_t)1, (size_t)1 << 16, ((size_t)1 << 31) / es, ((size_t)1 << 32) / es, ((size_t)1 << 32) / es + 1, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, n / 2, n - 2, n - 1}) if (a < n) at.push_back(a);
    for (int way = 0; way < 3; way++) { size_t f = way == 2 ? n - 9 : way == 1 ? 3 : 0, t = way == 0 ? n : n - 1; D = "span over elements " + std::to_string(f) + ".." + std::to_string(t) + " of " + std::to_string(es) + " bytes"; step(); vt_span_t sp = way ? vt_span_from_to(b, f, t, es) : vt_span_from(b, n, es); CHECK(vt_span_len(sp) == t - f, "length %zu, expected %zu", vt_span_len(sp), t - f);
        for (size_t a : at) if (a >= f && a < t) { CHECK((char *)vt_span_get(sp, a - f) == b + a * es, "element %zu is not at its place", a - f); str_t v(es, (char)(a * 7 + way + 1)); vt_span_set(sp, v.data(), a - f); CHECK(!memcmp(b + a * es, v.data(), es), "set at %zu went elsewhere", a - f); count(C_EVALS); count(C_TRANS); } } munmap(b, tot); count(C_TRACES); outcome(n ^ es); }
void span_long(size_t n, size_t es) {
    step(); unsigned char *mem = (unsigned char *)malloc(n * es); std::vector<unsigned char> model(n * es); for (size_t i = 0; i < n * es; i++) mem[i] = model[i] = pat(i); std::vector<unsigned char> val(es);
    for (size_t from : {(size_t)0, (size_t)1, n / 2, n - 1}) for (size_t to : {n, n - 1, from + 1, from + 2}) for (bool whole : {false, true}) { if (to <= from || to > n) continue; D = "span over elements [" + std::to_string(from) + "," + std::to_string(to) + ") of " + std::to_string(n) + " elements of " + std::to_string(es) + " bytes" + (whole ? " (span_from)" : ""); step();
        vt_span_t sp = whole ? vt_span_from(mem + from * es, to - from, es) : vt_span_from_to(mem, from, to, es); size_t len = to - from; CHECK(vt_span_len(sp) == len, "length %zu, expected %zu", vt_span_len(sp), len);
        for (size_t i : {(size_t)0, len / 3, len / 2, len > 255 ? (size_t)255 : 0, len > 256 ? (size_t)256 : 0, len > 65535 ? (size_t)65535 : 0, len > 65536 ? (size_t)65536 : 0, len - 1}) { void *p = vt_span_get(sp, i); CHECK(p == mem + (from + i) * es, "get(%zu) refers to byte %ld, expected %zu", i, (long)((unsigned char *)p - mem), (from + i) * es); for (size_t b = 0; b < es; b++) val[b] = (unsigned char)(0x80 + i * 3 + b * 5 + from); vt_span_set(sp, val.data(), i); memcpy(&model[(from + i) * es], val.data(), es); CHECK(!memcmp(mem, model.data(), n * es), "set(%zu) did not change exactly that element", i); count(C_TRANS, 2); }
        count(C_EVALS); count(C_TRACES); uint64_t o[3] = {n * 100 + es, from, to}; outcome(hash_bytes(o, sizeof o)); }
    free(mem);
}
template <class T> std::vector<T> ivals() { std::vector<T> r; for (int b = 0; b < (int)sizeof(T) * 8; b++) for (int d : {-1, 0, 1}) { T v = (T)((uint64_t)1 << b); v = (T)(v + d); r.push_back(v); r.push_back((T)~v); } return r; }
template <class T> std::vector<T> fvals() { std::vector<T> r; for (T v : {(T)0, (T)-0.0, (T)1, (T)-1.5, (T)3.14159265358979L, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::epsilon()}) r.push_back(v); return r; }
template <class T, class G, class S> void typed(const char *nm, std::vector<T> vals, G get, S set, size_t maxn) {
    if (sizeof(T) <= 2) { vals.clear(); for (uint32_t i = 0; i < (1u << (8 * sizeof(T))); i++) vals.push_back((T)i); }
    size_t width = sizeof(T) == 16 ? 10 : sizeof(T); // long double: 10 meaningful bytes
    for (size_t n = 1; n <= (sizeof(T) <= 2 ? 3 : maxn); n++) for (size_t from = 0; from < n; from++) for (size_t at = 0; at + from < n; at++) for (T v : vals) {
        D = str_t("span_set/get") + nm + " window [" + std::to_string(from) + "," + std::to_string(n) + ") at " + std::to_string(at); step();
        T *m = (T *)malloc(n * sizeof(T)); memset(m, 0, n * sizeof(T)); for (size_t i = 0; i < n; i++) m[i] = (T)(i + 3); std::vector<T> before(n); memcpy((void *)before.data(), (void *)m, n * sizeof(T));
        vt_span_t sp = vt_span_from_to(m, from, n, sizeof(T)); set(sp, v, at);
        CHECK(!memcmp(&m[from + at], &v, width), "set%s stored another value", nm); T g = get(sp, at); CHECK(!memcmp(&g, &v, width), "get%s returned another value", nm);
        for (size_t i = 0; i < n; i++) if (i != from + at) CHECK(!memcmp(&m[i], &before[i], width), "set%s at %zu changed element %zu", nm, at, i);
        count(C_EVALS); count(C_TRANS, 3); count(C_TRACES); outcome(hash_bytes(&v, width, hash_str(nm, n * 64 + from * 8 + at))); free(m);
    }
}
// ---------------------------------------------------------------- views
struct Buf { char *p; size_t n; Buf(const str_t &w) : n(w.size()) { p = (char *)malloc(n + 1); memcpy(p, w.data(), n); p[n] = 0; } ~Buf() { free(p); } };
bool fields_ok(const vt_str_t &v, const Buf &b) { return v.ptr == b.p && v.is_view && v.alloctr == nullptr; }
void view_reads(const str_t &w, const std::vector<str_t> &args) {
    live_reset(); Buf b(w); D = "view of " + show(w); step();
    uint64_t ev = alloc_events(); vt_str_t v = vt_str_create_static(b.p);
    CHECK(alloc_events() == ev, "making a view allocated memory"); CHECK(vt_str_z(&v) == b.p, "the view copied its text"); CHECK(vt_str_len(&v) == w.size(), "length %zu", vt_str_len(&v)); CHECK(vt_str_is_empty(&v) == w.empty(), "is_empty"); CHECK(vt_str_capacity(&v) >= w.size() && vt_str_capacity(&v) <= w.size() + 1, "capacity %zu for a text of %zu", vt_str_capacity(&v), w.size()); CHECK(!vt_array_has_alloctr(&v), "a view has an allocator");
    for (size_t i = 0; i < w.size(); i++) { CHECK(*(char *)vt_array_get(&v, i) == w[i], "character %zu", i); }
    { str_t seen; static str_t *cur; cur = &seen; if (!w.empty()) vt_str_apply(&v, [](char *c, size_t i) { if (i == cur->size()) *cur += *c; else *cur += "!"; }); CHECK(seen == w, "apply visited %s", show(seen).c_str()); seen.clear(); char *c; while ((c = vt_str_slide_front(&v)) && seen.size() <= w.size()) seen += *c; CHECK(seen == w, "slide_front visited %s", show(seen).c_str()); seen.clear(); while ((c = vt_str_slide_back(&v)) && seen.size() <= w.size()) seen += *c; CHECK(seen == str_t(w.rbegin(), w.rend()), "slide_back visited %s", show(seen).c_str()); }
    bool num = true; for (char c : w) if (!isdigit((unsigned char)c) && c != '.') num = false; CHECK(vt_str_is_numeric(&v) == num, "is_numeric"); CHECK(vt_str_validate_len(&v) == w.size(), "validate_len");
    for (char c : {'a', 'b', ' ', '1', 'z'}) { size_t q = w.find(c); CHECK(vt_str_index_of(&v, c) == (q == str_t::npos ? -1 : (int64_t)q), "index_of(%c)", c); }
    for (auto &a : args) { Z z(a); bool sw = w.compare(0, a.size(), a) == 0 && a.size() <= w.size(), ew = a.size() <= w.size() && w.compare(w.size() - a.size(), a.size(), a) == 0;
        CHECK(vt_str_starts_with(&v, z) == sw, "starts_with(%s)", show(a).c_str()); CHECK(vt_str_ends_with(&v, z) == ew, "ends_with(%s)", show(a).c_str()); CHECK(vt_str_equals_z(vt_str_z(&v), z) == (w == a), "equals_z");
        if (!a.empty() && a.size() <= w.size()) { size_t q = w.find(a); const char *f = vt_str_find(&v, z); CHECK(f == (q == str_t::npos ? nullptr : b.p + q), "find(%s)", show(a).c_str()); CHECK(vt_str_index_find(&v, z) == (q == str_t::npos ? -1 : (int64_t)q), "index_find(%s)", show(a).c_str()); size_t cnt = 0; for (size_t k = 0; (k = w.find(a, k)) != str_t::npos; k += a.size()) cnt++; CHECK(vt_str_can_find(&v, z) == cnt, "can_find(%s) = %zu, expected %zu", show(a).c_str(), vt_str_can_find(&v, z), cnt); }
        CHECK(alloc_events() == ev, "a read-only question on a view used the allocator");
        Buf b2(a); vt_str_t v2 = vt_str_create_static(b2.p); CHECK(vt_str_equals(&v, &v2) == (w == a), "equals of two views"); vt_str_t *o = mkstr(a); CHECK(vt_str_equals(&v, o) == (w == a) && vt_str_equals(o, &v) == (w == a), "equals of a view and an owned string"); vt_str_destroy(o); ev = alloc_events();
        count(C_EVALS); count(C_TRANS, 7); }
    if (!w.empty()) { // what is derived from a view is owned
        vt_str_t *d = vt_str_dup(&v); check_str(d, w, "dup of a view"); CHECK(vt_str_z(d) != b.p, "dup of a view shares the text"); vt_str_append(d, "more"); check_str(d, w + "more", "grown dup"); vt_str_set_c(d, '!', 0); CHECK(b.p[0] == w[0], "changing the dup changed the viewed text"); vt_str_destroy(d);
        vt_plist_t *ps = vt_str_split(nullptr, &v, "a"); if (ps) { for (size_t i = 0; i < vt_plist_len(ps); i++) { vt_str_t *q = (vt_str_t *)vt_plist_get(ps, i); CHECK(vt_str_z(q) < b.p || vt_str_z(q) > b.p + b.n, "a piece of a split view shares its text"); vt_str_append(q, "xx"); } free_strs(ps); } }
    vt_str_destroy(&v); CHECK(!memcmp(b.p, w.c_str(), w.size() + 1), "the viewed text was changed by read-only use or destroy"); CHECK(mem_ok(b.p, w.size() + 1), "destroy released the viewed text"); CHECK(live_count() == 0, "leak of %zu", live_count()); outcome(H(w)); count(C_TRACES);
}
struct Edit { const char *name; std::function<void(vt_str_t *)> f; std::function<str_t(str_t)> ref; }; // ref: text if the edit is done in place
// an edit of a view either stops the program, leaving the text alone, or happens in place within the viewed text
void view_edit(const str_t &w, const Edit &e, bool must_stop) {
    D = str_t(e.name) + " on a view of " + show(w); step(); live_reset(); Buf b(w); vt_str_t v = vt_str_create_static(b.p); 
    GuardResult g = guard([&] { e.f(&v); }); count(C_EVALS); count(C_TRANS, 2); count(C_TRACES); outcome(H(w + e.name, g.how));
    CHECK(fields_ok(v, b), "the view no longer refers to its text"); CHECK(mem_ok(b.p, w.size() + 1), "the viewed text was released"); CHECK(vt_str_len(&v) <= w.size() && vt_str_capacity(&v) <= w.size() + 1, "the view claims %zu (capacity %zu) of a text of %zu", vt_str_len(&v), vt_str_capacity(&v), w.size());
    if (g.how == RETURNED) { CHECK(!must_stop, "a view grew"); CHECK(live_count() == 0, "editing a view left %zu allocation(s)", live_count()); if (e.ref) { str_t want = e.ref(w); CHECK(vt_str_len(&v) == want.size() && !memcmp(b.p, want.c_str(), want.size() + 1), "text %s, expected %s", show(str_t(b.p, strnlen(b.p, w.size()))).c_str(), show(want).c_str()); } }
    else { CHECK(stopped_with_failure(g), "ended with status %d", g.code); if (must_stop) CHECK(vt_str_len(&v) == w.size() && !memcmp(b.p, w.c_str(), w.size() + 1), "the viewed text was changed before the program stopped: %s", show(str_t(b.p, w.size())).c_str()); CHECK(must_stop, "an edit within the viewed text was refused"); release_leaked(); }
    if (g.how == RETURNED) { vt_str_destroy(&v); CHECK(mem_ok(b.p, w.size() + 1), "destroy released the viewed text"); CHECK(live_count() == 0, "leak"); }
}
void view_edits(const str_t &w, const std::vector<str_t> &args) {
    size_t n = w.size(); auto E = [&](const char *nm, std::function<void(vt_str_t *)> f, bool stop, std::function<str_t(str_t)> ref = nullptr) { view_edit(w, Edit{nm, f, ref}, stop); };
    E("destroy", [](vt_str_t *s) { vt_str_destroy(s); }, false, [](str_t t) { return t; }); E("destroy twice", [](vt_str_t *s) { vt_str_destroy(s); vt_str_destroy(s); }, false, [](str_t t) { return t; });
    E("shrink", [](vt_str_t *s) { vt_str_shrink(s); }, true); for (size_t k : {(size_t)1, n, n + 1, (size_t)100}) if (k) { E("reserve", [=](vt_str_t *s) { vt_str_reserve(s, k); }, true); E("resize", [=](vt_str_t *s) { vt_str_resize(s, k); }, true); }
    for (auto &a : args) if (!a.empty()) {
        E("append", [&](vt_str_t *s) { Z z(a); vt_str_append(s, z); }, true); E("append_n", [&](vt_str_t *s) { Z z(a); vt_str_append_n(s, z, a.size()); }, true); E("appendf", [&](vt_str_t *s) { Z z(a); vt_str_appendf(s, "%s", (const char *)z); }, true);
        for (size_t at = 0; at <= n; at++) { E("insert_n", [&](vt_str_t *s) { Z z(a); vt_str_insert_n(s, z, at, a.size()); }, true); if (at < n) { E("insert", [&](vt_str_t *s) { Z z(a); vt_str_insert(s, z, at); }, true); E("insertf", [&](vt_str_t *s) { Z z(a); vt_str_insertf(s, at, "%s", (const char *)z); }, true); } }
        size_t q = a.size() <= n ? w.find(a) : str_t::npos;
        if (q != str_t::npos) { E("insert_before", [&](vt_str_t *s) { Z z(a); vt_str_insert_before(s, z, "k"); }, true); E("insert_after", [&](vt_str_t *s) { Z z(a); vt_str_insert_after(s, z, "k"); }, true); }
        if (a.size() <= n) E("set", [&](vt_str_t *s) { Z z(a); vt_str_set(s, z); }, false, [&](str_t) { return a; });
        for (size_t at = 0; at < n; at++) if (a.size() <= n - at) E("set_at", [&](vt_str_t *s) { Z z(a); vt_str_set_at(s, z, at); }, false, [&](str_t t) { return t.substr(0, at) + a; });
    }
    for (size_t at = 0; at < n; at++) { E("set_c", [&](vt_str_t *s) { vt_str_set_c(s, 'Q', at); }, false, [&](str_t t) { t[at] = 'Q'; return t; }); for (size_t k = 1; k <= n; k++) E("remove", [&](vt_str_t *s) { vt_str_remove(s, at, k); }, false, [&](str_t t) { return t.erase(at, k); }); }
    E("clear", [](vt_str_t *s) { vt_str_clear(s); }, false, [](str_t) { return str_t(); }); E("to_uppercase", [](vt_str_t *s) { vt_str_to_uppercase(s); }, false, [](str_t t) { for (auto &c : t) c = (char)toupper(c); return t; }); E("strip", [](vt_str_t *s) { vt_str_strip(s); }, false, [](str_t t) { size_t a = t.find_first_not_of(' '), z = t.find_last_not_of(' '); return a == str_t::npos ? str_t() : t.substr(a, z - a + 1); });
    if (n) { E("remove_c", [](vt_str_t *s) { vt_str_remove_c(s, "a"); }, false, [](str_t t) { t.erase(std::remove(t.begin(), t.end(), 'a'), t.end()); return t; }); E("replace_c", [](vt_str_t *s) { vt_str_replace_c(s, "a", "X"); }, false, [](str_t t) { std::replace(t.begin(), t.end(), 'a', 'X'); return t; }); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); size_t NB = T ? 40 : 16;
    for (size_t es : {1, 2, 3, 4, 7, 8, 16, 24, 200}) add_job("span_" + std::to_string(es), [=] { describe = desc; for (size_t n = 1; n <= NB; n++) for (size_t f = 0; f < n; f++) for (size_t t = f + 1; t <= n; t++) { span_window(n, es, f, t, false); span_window(n, es, f, t, true); } });
    add_job("span_large", [=] { describe = desc; for (size_t n : {255, 256, 257, 1000, 4097}) for (size_t es : {1, 4, 12}) for (size_t f : {(size_t)0, (size_t)1, n / 2, n - 1}) for (size_t t : {f + 1, n}) if (t > f) { if (t - f > 300) continue; span_window(n, es, f, t, false); } });
    if (roomy(4)) add_job("huge_span", [=] { describe = desc; huge_span(((size_t)1 << 32) + 11, 1); huge_span(((size_t)1 << 29) + 11, 8); huge_span(4200, ((size_t)1 << 20) + 1); huge_span(((size_t)1 << 32) + 3, 4); });
    for (size_t n : {255, 256, 257, 4096, 32768, 65535, 65536, 65537, 70001, 200003}) add_job("span_long_" + std::to_string(n), [=] { describe = desc; for (size_t es : {1, 4, 8, 33}) span_long(n, es); });
    for (size_t es : {255, 256, 257, 1024, 4096, 65536, 70001}) add_job("span_wide_" + std::to_string(es), [=] { describe = desc; for (size_t n : {2, 5}) span_long(n, es); });
    for (size_t n : {511, 1023, 4096, 8192, 32768, 65535, 65536, 70001}) add_job("view_long_" + std::to_string(n), [=] { describe = desc; str_t w(n, 'b'); w[n - 1] = 'a'; w[n / 2] = ' '; view_reads(w, {"", "a", "ba", w, w.substr(1), w + "b", str_t(n, 'b')}); for (auto &a : {str_t("k"), str_t(300, 'z')}) { for (size_t at : {(size_t)0, n / 2, n - 1}) { view_edit(w, Edit{"insert", [&](vt_str_t *s) { vt_str_insert(s, a.c_str(), at); }, nullptr}, true); view_edit(w, Edit{"remove", [&](vt_str_t *s) { vt_str_remove(s, at, 2); }, [&](str_t t) { return t.erase(at, 2); }}, false); view_edit(w, Edit{"set_c", [&](vt_str_t *s) { vt_str_set_c(s, 'Q', at); }, [&](str_t t) { t[at] = 'Q'; return t; }}, false); } view_edit(w, Edit{"append", [&](vt_str_t *s) { vt_str_append(s, a.c_str()); }, nullptr}, true); view_edit(w, Edit{"appendf", [&](vt_str_t *s) { vt_str_appendf(s, "%s", a.c_str()); }, nullptr}, true); } for (size_t k : {(size_t)1, n, n * 2}) { view_edit(w, Edit{"reserve", [=](vt_str_t *s) { vt_str_reserve(s, k); }, nullptr}, true); view_edit(w, Edit{"resize", [=](vt_str_t *s) { vt_str_resize(s, k); }, nullptr}, true); } view_edit(w, Edit{"shrink", [](vt_str_t *s) { vt_str_shrink(s); }, nullptr}, true); });
#define T_(T, t, gen) add_job("typed_" #t, [=] { describe = desc; typed<T>(#t, gen<T>(), [](vt_span_t s, size_t a) { return vt_span_get##t(s, a); }, [](vt_span_t s, T v, size_t a) { vt_span_set##t(s, v, a); }, thorough() ? 8 : 5); })
    T_(int8_t, i8, ivals); T_(uint8_t, u8, ivals); T_(int16_t, i16, ivals); T_(uint16_t, u16, ivals); T_(int32_t, i32, ivals); T_(uint32_t, u32, ivals); T_(int64_t, i64, ivals); T_(uint64_t, u64, ivals); T_(float, f, fvals); T_(double, d, fvals); T_(real, r, fvals);
    auto ws = words("ab 1", 0, deep() ? 8 : T ? 7 : 5), args = words("ab ", 0, T ? 4 : 3), few = words("ab", 1, 2); size_t ch = T ? 512 : 128;
    for (size_t lo = 0; lo < ws.size(); lo += ch) { add_job("reads_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(ws.size(), lo + ch); i++) view_reads(ws[i], args); }); add_job("edits_" + std::to_string(lo), [=] { describe = desc; for (size_t i = lo; i < std::min(ws.size(), lo + ch); i++) view_edits(ws[i], few); }); }
    add_job("lengths", [=] { describe = desc; for (size_t n = 6; n <= (deep() ? 3000u : T ? 1200u : 260u); n++) { str_t w(n, 'b'); w[n - 1] = 'a'; w[n / 2] = ' '; view_reads(w, {"", "a", "ba", w, w.substr(1), w + "b", str_t(n, 'b')}); if (n < 40 || n % 16 < 2) for (auto &a : {str_t("k"), str_t(40, 'z')}) { for (size_t at : {(size_t)0, n / 2, n - 1}) view_edit(w, Edit{"insert", [&](vt_str_t *s) { vt_str_insert(s, a.c_str(), at); }, nullptr}, true); view_edit(w, Edit{"append", [&](vt_str_t *s) { vt_str_append(s, a.c_str()); }, nullptr}, true); view_edit(w, Edit{"appendf", [&](vt_str_t *s) { vt_str_appendf(s, "%s", a.c_str()); }, nullptr}, true); } } });
    return run_main(argc, argv, "C11");
}
