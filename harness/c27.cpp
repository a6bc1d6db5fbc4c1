// C27: reports (help listing, parser diagnostics, allocator statistics, versions) print exactly what they were given.
#include "fileops.hpp"
#include <sys/mman.h>
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; } void one() { count(C_TRACES); count(C_EVALS); count(C_TRANS); }
struct Cap { int fd, target, old; FILE *st; Cap(int t, FILE *s) : target(t), st(s) { fd = memfd_create("cap", 0); CHECK(fd >= 0, "harness: memfd"); } ~Cap() { close(fd); }
    void on() { fflush(st); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); old = dup(target); dup2(fd, target); } S_ off() { fflush(st); dup2(old, target); close(old); off_t n = lseek(fd, 0, SEEK_END); S_ r((size_t)n, 0); for (off_t o = 0; o < n;) { ssize_t k = pread(fd, &r[o], (size_t)(n - o), o); if (k <= 0) break; o += k; } return r; } };
Cap *OUT, *ERR; S_ O, E;
template <class F> void captured(F f) { OUT->on(); ERR->on(); f(); E = ERR->off(); O = OUT->off(); }
struct Row { S_ lo, sh, de; };
S_ right(const S_ &s, size_t w) { return s.size() < w ? S_(w - s.size(), ' ') + s : s; }
S_ ref_help(const S_ *h, const S_ *f, const std::vector<Row> &t) { size_t a = 2, b = 6; for (auto &r : t) { a = std::max(a, r.sh.size()); b = std::max(b, r.lo.size()); } S_ o; if (h) o += *h + "\n"; for (auto &r : t) o += right(r.sh, a) + " " + right(r.lo, b) + " " + r.de + "\n"; o += right("-h", a) + " " + right("--help", b) + " This help information.\n"; if (f) o += *f + "\n"; return o; }
void help_case(const S_ *h, const S_ *f, const std::vector<Row> &t) {
    D = "help of"; for (auto &r : t) { D += " {" + show(r.lo.substr(0, 40)) + "," + show(r.sh.substr(0, 40)) + "," + show(r.de.substr(0, 40)) + "}"; if (D.size() > 600) { D += " ..."; break; } } D += h ? " header " + show(h->substr(0, 60)) : " no header"; D += f ? " footer " + show(f->substr(0, 60)) : " no footer"; step(); live_reset();
    std::vector<std::unique_ptr<Z>> zs; std::vector<int64_t> dst(t.size(), 77); vt_argopt_t *ov = (vt_argopt_t *)malloc(t.size() * sizeof(vt_argopt_t)); for (size_t i = 0; i < t.size(); i++) { zs.emplace_back(new Z(t[i].lo)); zs.emplace_back(new Z(t[i].sh)); zs.emplace_back(new Z(t[i].de)); new (&ov[i]) vt_argopt_t{*zs[3 * i], *zs[3 * i + 1], *zs[3 * i + 2], (void **)&dst[i], (enum VitaTypeInfo)(i % VT_TYPE_COUNT)}; } S_ image((char *)ov, t.size() * sizeof(vt_argopt_t));
    S_ hs = h ? *h : "", fs = f ? *f : ""; Z hz(hs), fz(fs); captured([&] { vt_argopt_print_help(h ? (const char *)hz : nullptr, f ? (const char *)fz : nullptr, t.size(), ov); });
    S_ w = ref_help(h, f, t); if (O != w) { size_t k = 0; while (k < O.size() && k < w.size() && O[k] == w[k]) k++; failf("the listing differs from byte %zu on: printed %s, expected %s", k, show(O.substr(k, 80)).c_str(), show(w.substr(k, 80)).c_str()); } CHECK(E.empty(), "something was printed on standard error: %s", brief(E).c_str());
    CHECK(image == S_((char *)ov, image.size()), "the option table was changed"); for (auto v : dst) CHECK(v == 77, "a destination was changed"); CHECK(live_count() == 0, "leak"); free(ov); one(); outcome(hash_str(w));
}
const std::vector<S_> LO{"", "--a", "--help", "--longer", "--a-very-long-option-name", "-%d"}, SH{"", "-", "-a", "-ab"}, DE{"", "text", "100% of %s", "two\nlines", "\xc3\xa9t\xc3\xa9"}, HF{"", "Usage: %s %d", "line\nline"};
void tables(size_t first, size_t depth) { size_t nr = LO.size() * SH.size(); auto mk = [&](size_t i, size_t d) { return Row{LO[i / SH.size()], SH[i % SH.size()], DE[d % DE.size()]}; };
    std::vector<Row> t; std::function<void(size_t)> rec = [&](size_t left) { size_t k = t.size(); for (int h = 0; h < 4; h++) for (int f = 0; f < 4; f++) if (k == 1 || (h + f) % 3 == 0) help_case(h ? &HF[h - 1] : nullptr, f ? &HF[f - 1] : nullptr, t); if (!left) return; for (size_t i = 0; i < nr; i++) { t.push_back(mk(i, i + k)); rec(left - 1); t.pop_back(); } };
    for (size_t d = 0; d < DE.size(); d++) { t = {mk(first, d)}; rec(d ? std::min<size_t>(1, depth - 1) : depth - 1); } }
void wide(size_t n) { for (size_t len : {3, 9, 60}) { std::vector<Row> t; for (size_t i = 0; i < n; i++) t.push_back({"--" + S_(i % len, 'o') + std::to_string(i), S_("-") + (char)('a' + i % 26), "option " + std::to_string(i)}); help_case(&HF[0], nullptr, t); help_case(nullptr, &HF[1], t); } }
void lengths(size_t n) { S_ l(n, 'q'); for (size_t i = 0; i < n; i++) l[i] = (char)('a' + i % 26); for (int where = 0; where < 5; where++) for (size_t at = 0; at < 3; at++) { std::vector<Row> t{{"--one", "-o", "first"}, {"--two", "-t", "second"}, {"--three", "-r", "third"}}; S_ h = "head", f = "foot"; switch (where) { case 0: t[at].lo = l; break; case 1: t[at].sh = l; break; case 2: t[at].de = l; break; case 3: h = l; break; case 4: f = l; break; } help_case(&h, &f, t); } }
void stats(size_t sh, size_t n) { // every combination of six digit classes over the five books
    std::vector<uint64_t> V{0, 7, 99, 1234567890ull, 9999999999ull, 10000000000ull, 4294967296ull, 9000000000000000000ull}; if (thorough()) for (uint64_t x : {1ull, 255ull, 65536ull, 4294967295ull}) V.push_back(x); size_t m = V.size(), tot = m * m * m * m * m; if (!thorough()) V[7] = 900000000000000000ull; for (size_t c = sh; c < tot; c += n) { size_t x = c; uint64_t a[5]; for (int i = 0; i < 5; i++) { a[i] = V[x % m]; x /= m; } step(); D = "statistics"; for (uint64_t v : a) D += " " + std::to_string(v); struct VitaAllocatorStats st; memset(&st, 0, sizeof st); st.count_allocs = a[0]; st.count_reallocs = a[1]; st.count_frees = a[2]; st.count_bytes_allocated = a[3]; st.count_bytes_freed = a[4];
        captured([&] { vt_mallocator_print_stats(st); }); CHECK(E.empty(), "something was printed on standard error"); std::vector<S_> lines; S_ cur; for (char ch : O) { if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch; } CHECK(cur.empty(), "the report does not end its last line"); int seen = 0;
        auto figure = [&](const char *label, const char *last, uint64_t want) { int hits = 0; for (auto &l : lines) { S_ w; for (char ch : l) if (ch != ' ' && ch != '|') w += ch; S_ k; for (char ch : S_(label)) if (ch != ' ') k += ch; if (w.compare(0, k.size(), k) == 0 && w.size() > k.size() && isdigit((unsigned char)w[k.size()])) { hits++; CHECK(w.substr(k.size()) == std::to_string(want), "%s shows %s, expected %llu", label, w.substr(k.size()).c_str(), (unsigned long long)want); } } (void)last; CHECK(hits == 1, "%s appears %d times", label, hits); seen++; };
        figure("N ALLOCS", "", a[0]); figure("N REALLOCS", "", a[1]); figure("N FREES", "", a[2]); figure("B T.ALLOCD", "", a[3] + a[4]); figure("B C.ALLOCD", "", a[3]); figure("B FREED", "", a[4]); one(); outcome(hash_str(D)); } }
void books() { // the report of a live allocator shows its books
    for (size_t n = 0; n <= 60; n++) for (size_t fr = 0; fr <= n; fr += 7) { D = "report after " + std::to_string(n) + " allocations, " + std::to_string(fr) + " frees"; step(); live_reset(); vt_mallocator_t *al = vt_mallocator_create(); std::vector<void *> p; size_t tot = 0, back = 0; for (size_t i = 0; i < n; i++) { p.push_back(VT_ALLOCATOR_ALLOC(al, i * 13 + 1)); tot += i * 13 + 1; } for (size_t i = 0; i < fr; i++) { VT_ALLOCATOR_FREE(al, p[i]); back += i * 13 + 1; } captured([&] { vt_mallocator_print_stats(al->stats); }); std::vector<S_> nums; S_ c; for (char ch : O) if (isdigit((unsigned char)ch)) c += ch; else if (!c.empty()) { nums.push_back(c); c.clear(); } std::vector<S_> w{std::to_string(n), "0", std::to_string(fr), std::to_string(tot), std::to_string(tot - back), std::to_string(back)}; CHECK(nums == w, "the report shows other figures: %s", show(O).c_str()); vt_mallocator_destroy(al); CHECK(live_count() == 0, "leak"); one(); outcome(hash_str(D)); } }
void diagnostics() { // the parser names the argument it did not recognise, once, and is silent otherwise
    std::vector<S_> bad{"--nope", "--nope=1", "x", "-", "--nu", "--numx", "=7", "%s%n%d", "a b", "\xc3\xa9", S_(300, 'u'), S_(70001, 'u'), "--num2=5", ""}; std::vector<std::vector<S_>> pre{{}, {"--num=4"}, {"-n", "4"}, {"-n"}, {"-v"}, {"-v", "--num=3", "-n=5"}}, post{{}, {"--other"}, {"-n=3"}, {"another", "-h"}};
    for (auto &b : bad) for (auto &p : pre) for (auto &q : post) { if (p.size() && (p.back() == "-n" || p.back() == "-v") && (b.empty() || b[0] != '-')) continue; if (p.empty() && q.empty() && b == "-h") continue; D = "command line with " + show(b.substr(0, 40)); step(); live_reset(); std::vector<S_> a = p; a.push_back(b); for (auto &x : q) a.push_back(x); std::vector<std::unique_ptr<Z>> zs; zs.emplace_back(new Z("prog")); for (auto &x : a) zs.emplace_back(new Z(x)); std::vector<const char *> av; for (auto &z : zs) av.push_back(*z); int32_t num = 1; bool v = false; vt_argopt_t ov[] = {{"--num", "-n", "d", VT_ARGOPT(num), VT_TYPE_INT32}, {"--verbose", "-v", "d", VT_ARGOPT(v), VT_TYPE_BOOL}}; int r = 9; captured([&] { r = vt_argopt_parse(av.size(), av.data(), 2, ov, nullptr); }); CHECK(r == VT_ARGOPT_PARSE_ERROR, "status %d", r);
        size_t hits = 0; S_ all = O + E; if (!b.empty()) for (size_t k = all.find(b); k != S_::npos; k = all.find(b, k + b.size())) hits++; CHECK(all.find("Unrecognized option") != S_::npos, "no diagnostic: %s", brief(all).c_str()); CHECK(b.empty() || b.size() < 3 || hits == 1, "the diagnostic does not name the argument once: %s", brief(all).c_str()); for (auto &x : q) CHECK(all.find(": " + x + "!") == S_::npos, "an argument after the first unrecognised one is reported"); CHECK(!all.empty() && all.back() == '\n' && std::count(all.begin(), all.end(), '\n') == 1, "not exactly one line: %s", brief(all).c_str()); CHECK(live_count() == 0, "leak"); one(); outcome(hash_str(all)); }
    for (auto &a : std::vector<std::vector<S_>>{{}, {"-n=3"}, {"-n", "3"}, {"-v"}, {"-h"}, {"--help"}, {"?"}, {"--num=5", "-v", "--verbose=0"}}) { D = "accepted command line"; step(); std::vector<const char *> av{"prog"}; for (auto &x : a) av.push_back(x.c_str()); int32_t num = 1; bool v = false; vt_argopt_t ov[] = {{"--num", "-n", "d", VT_ARGOPT(num), VT_TYPE_INT32}, {"--verbose", "-v", "d", VT_ARGOPT(v), VT_TYPE_BOOL}}; int r = 9; captured([&] { r = vt_argopt_parse(av.size(), av.data(), 2, ov, nullptr); }); CHECK(r != VT_ARGOPT_PARSE_ERROR, "status %d", r); CHECK(O.empty() && E.empty(), "something was printed: %s", brief(O + E).c_str()); one(); }
    for (int bad2 = 0; bad2 < 5; bad2++) for (size_t pos = 0; pos < 2; pos++) { D = "malformed table " + std::to_string(bad2); step(); int32_t a = 1, b = 2; const char *lo[2] = {"--aa", "--bb"}, *sh[2] = {"-a", "-b"}; void *pv[2] = {&a, &b}; int ty[2] = {VT_TYPE_INT32, VT_TYPE_INT32}; if (bad2 == 0) lo[pos] = nullptr; else if (bad2 == 1) sh[pos] = nullptr; else if (bad2 == 2) pv[pos] = nullptr; else if (bad2 == 3) sh[pos] = "-toolong"; else ty[pos] = VT_TYPE_COUNT; vt_argopt_t ov[2] = {{lo[0], sh[0], "d", (void **)pv[0], (enum VitaTypeInfo)ty[0]}, {lo[1], sh[1], "d", (void **)pv[1], (enum VitaTypeInfo)ty[1]}}; const char *av[] = {"prog", "-a=1"}; captured([&] { vt_argopt_parse(2, av, 2, ov, nullptr); }); CHECK(!E.empty() && E.back() == '\n', "a malformed table is not diagnosed on standard error"); if (bad2 == 3) CHECK(E.find("-toolong") != S_::npos, "the diagnostic does not name the option: %s", E.c_str()); one(); }
}
void versions() { D = "versions"; step(); vt_version_t v = vt_version_get(), c = vt_compiler_get_version(); for (auto &x : {v, c}) { S_ w = std::to_string(x.major) + "." + std::to_string(x.minor) + "." + std::to_string(x.patch); CHECK(x.str && w == x.str, "version %s is written %s", w.c_str(), x.str ? x.str : "(null)"); one(); } CHECK(c.major == __GNUC__ && c.minor == __GNUC_MINOR__ && c.patch == __GNUC_PATCHLEVEL__, "compiler version %s", c.str); CHECK(v.major == VT_VITA_VERSION_MAJOR && v.minor == VT_VITA_VERSION_MINOR && v.patch == VT_VITA_VERSION_PATCH, "version %s", v.str); outcome(1); }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); auto J = [](const S_ &n, std::function<void()> f) { add_job(n, [=] { describe = desc; OUT = new Cap(1, stdout); ERR = new Cap(2, stderr); f(); }); };
    for (size_t i = 0; i < LO.size() * SH.size(); i++) J("tables_" + std::to_string(i), [=] { tables(i, T ? 4 : 3); });
    for (size_t i = 0; i < 8; i++) J("stats_" + std::to_string(i), [=] { stats(i, 8); });
    for (size_t n : {10, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 70001}) { J("wide_" + std::to_string(n), [=] { wide(n); }); J("lengths_" + std::to_string(n), [=] { lengths(n); }); } J("lengths_all", [=] { for (size_t n = 0; n <= (T ? 600u : 140u); n++) lengths(n); });
    J("books", books); J("diagnostics", diagnostics); J("versions", versions);
    return run_main(argc, argv, "C27");
}
