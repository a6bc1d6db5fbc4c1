// C20: path strings.
#include "strutil.hpp"
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; }
void done(const S_ &r, uint64_t op) { count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(r, op)); }
S_ m_base(const S_ &p) { size_t n = p.size(); if (n <= 1) return p; size_t k = p.rfind('/', n - 2); return k == S_::npos ? p : p.substr(k + 1); } // after the last separator that does not end the path
S_ m_pop(const S_ &p) { if (p.empty()) return p; if (p.back() == '/') return p.substr(0, p.size() - 1); size_t k = p.rfind('/'); return k == S_::npos ? p : p.substr(0, k); }
S_ m_valid(S_ p) { for (char &c : p) if (c == '\\') c = '/'; return p; }
const std::vector<std::pair<bool, S_>> HOMES{{true, "/home/u"}, {true, "/"}, {true, "h"}, {false, ""}, {true, ""}, {true, "/with~tilde/~"}, {true, S_(200, 'H')}};
void home(const std::pair<bool, S_> &h) { if (h.first) setenv("HOME", h.second.c_str(), 1); else unsetenv("HOME"); }
void strings_one(const S_ &p, bool dests) {
    Z z(p); D = "basename of " + show(p); step();
    bool sep = p.find('/') != S_::npos;
    vt_str_t *b = vt_path_basename(nullptr, z); if (!sep) CHECK(b == nullptr, "no separator and no destination, but got a string"); else { check_str(b, m_base(p), "basename"); vt_str_destroy(b); } done(m_base(p), 1);
    if (dests) for (const S_ &pre : {S_(""), S_("q"), S_("a longer text than the path")}) for (int al = 0; al < 2; al++) { D = "basename of " + show(p) + " into " + show(pre); step(); vt_mallocator_t *m = al ? vt_mallocator_create() : nullptr; vt_str_t *s = mkstr(pre, m), *r = vt_path_basename(s, z); CHECK(r == s, "a different string was returned"); check_str(r, sep ? m_base(p) : pre, "basename into a given string"); vt_str_append(r, "!"); check_str(r, (sep ? m_base(p) : pre) + "!", "appending to the basename"); vt_str_destroy(s); if (m) vt_mallocator_destroy(m); done(p, 2); }
    CHECK(S_(z) == p, "basename changed its argument");
    D = "pop of " + show(p); step(); { Z y(p); vt_path_pop(y.p); CHECK(m_pop(p) == (const char *)y, "popped to %s, expected %s", show((const char *)y).c_str(), show(m_pop(p)).c_str()); done(m_pop(p), 3); }
    { S_ cur = p; Z y(p); for (int i = 0; i < 4; i++) { D = show(p) + " popped " + std::to_string(i + 1) + " times"; cur = m_pop(cur); vt_path_pop(y.p); CHECK(cur == (const char *)y, "got %s, expected %s", show((const char *)y).c_str(), show(cur).c_str()); } count(C_TRANS, 4); }
    D = "validation of " + show(p); step(); { Z y(p); vt_path_validate(y.p); CHECK(m_valid(p) == (const char *)y, "became %s", show((const char *)y).c_str()); done(m_valid(p), 4); }
    CHECK(live_count() == 0, "leak");
}
void tilda_one(const S_ &p, const std::pair<bool, S_> &h) {
    home(h); S_ want = !p.empty() && p[0] == '~' && h.first ? h.second + p.substr(1) : p; Z z(p);
    for (int al = 0; al < 2; al++) { D = "tilde expansion of " + show(p) + " with home " + (h.first ? show(h.second) : S_("unset")); step(); vt_mallocator_t *m = al ? vt_mallocator_create() : nullptr; vt_str_t *s = vt_path_expand_tilda(z, m); check_str(s, want, "expansion"); vt_str_append(s, "!"); check_str(s, want + "!", "appending to the expansion"); vt_str_destroy(s); if (m) vt_mallocator_destroy(m); CHECK(live_count() == 0, "leak"); done(want, 5); }
}
template <size_t... I> vt_str_t *build_many(vt_str_t *s, const std::vector<S_> &g, std::index_sequence<I...>) { return vt_path_build_n(s, g.size(), (I < g.size() ? g[I].c_str() : nullptr)...); } // arguments beyond the count are never looked at
vt_str_t *build_n(vt_str_t *s, const std::vector<S_> &g) { if (g.size() > 5) return g.size() <= 70 ? build_many(s, g, std::make_index_sequence<70>()) : build_many(s, g, std::make_index_sequence<300>()); switch (g.size()) { case 1: return vt_path_build_n(s, 1, g[0].c_str()); case 2: return vt_path_build_n(s, 2, g[0].c_str(), g[1].c_str()); case 3: return vt_path_build_n(s, 3, g[0].c_str(), g[1].c_str(), g[2].c_str()); case 4: return vt_path_build_n(s, 4, g[0].c_str(), g[1].c_str(), g[2].c_str(), g[3].c_str()); default: return vt_path_build_n(s, 5, g[0].c_str(), g[1].c_str(), g[2].c_str(), g[3].c_str(), g[4].c_str()); } }
void build_one(const std::vector<S_> &g, const S_ &pre, int dest) { // dest 0 none, 1 given, 2 given with allocator
    S_ want = dest ? pre : ""; for (size_t i = 0; i < g.size(); i++) want += (i ? "/" : "") + g[i];
    for (int n = 0; n < (g.size() <= 300 ? 2 : 1); n++) {
        D = n ? "build_n of" : "build of"; for (auto &x : g) D += " " + show(x); if (dest) D += " into " + show(pre); step();
        vt_mallocator_t *m = dest == 2 ? vt_mallocator_create() : nullptr; vt_str_t *s = dest ? mkstr(pre, m) : nullptr, *r; vt_plist_t *p = nullptr;
        if (n) r = build_n(s, g); else { p = vt_plist_create(g.size(), nullptr); for (auto &x : g) vt_plist_push_back(p, (void *)x.c_str()); r = vt_path_build(s, p); vt_plist_destroy(p); }
        CHECK(!s || r == s, "a different string was returned"); check_str(r, want, "built path"); vt_str_append(r, "!"); check_str(r, want + "!", "appending to the path"); vt_str_destroy(r); if (m) vt_mallocator_destroy(m); CHECK(live_count() == 0, "leak"); done(want, 6 + n);
    }
}
void builds(size_t shard, size_t nsh) {
    std::vector<S_> seg{"a", "bb", "x/y", "/r", "e/", ".hidden", S_(40, 'l')}; size_t k = 0, L = seg.size(); size_t maxn = thorough() ? 5 : 4;
    for (size_t n = 1; n <= maxn; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= L; for (size_t c = 0; c < tot; c++) { if (k++ % nsh != shard) continue; std::vector<S_> g; size_t x = c; for (size_t i = 0; i < n; i++) { g.push_back(seg[x % L]); x /= L; } build_one(g, "", 0); build_one(g, "", 1); build_one(g, "pre", 1); build_one(g, "pre", 2); } }
    if (shard == 0) for (size_t n = 1; n <= (thorough() ? 300u : 60u); n++) { std::vector<S_> g; for (size_t i = 0; i < n; i++) g.push_back(S_(1 + i % 7, 'a' + i % 26)); build_one(g, "", 0); build_one(g, "p", 2); }
    if (shard == 1) for (size_t n : {64, 65, 70, 127, 128, 129, 255, 256, 257, 300, 1024, 1025, 4097, 65537}) { std::vector<S_> g; for (size_t i = 0; i < n; i++) g.push_back(S_(1 + i % 3, 'a' + i % 26)); build_one(g, "", 0); if (n < 60000) build_one(g, "p", n < 1000 ? 2 : 1); }
    if (shard == 2) for (size_t n : {255, 256, 257, 512, 1024, 4095, 4096, 4097, 65535, 65536, 70001}) { S_ w(n, 'w'); for (auto &g : {std::vector<S_>{w}, std::vector<S_>{w, "b"}, std::vector<S_>{"a", w}, std::vector<S_>{w, w, w}}) { build_one(g, "", 0); build_one(g, "p", 1); build_one(g, w, 2); } strings_one(w, true); strings_one(w + "/x", true); strings_one("/x/" + w, true); strings_one(w + "/", true); strings_one("a\\" + w + "\\", false); for (auto &h : HOMES) { tilda_one("~/" + w, h); tilda_one("~", {true, w}); } }
}
// ---- places
S_ LINK; bool LINK_USED; ssize_t fake_readlink(const char *p, char *b, size_t n) { if (S_(p) != "/proc/self/exe") return readlink(p, b, n); LINK_USED = true; if (LINK.empty()) { errno = ENOENT; return -1; } size_t k = std::min(n, LINK.size()); memcpy(b, LINK.data(), k); return (ssize_t)k; }
void exe() {
    char real[PATH_MAX + 1]; ssize_t n = readlink("/proc/self/exe", real, PATH_MAX); CHECK(n > 0, "harness"); real[n] = 0;
    for (int al = 0; al < 2; al++) { D = "location of this executable"; step(); vt_mallocator_t *m = al ? vt_mallocator_create() : nullptr; vt_str_t *s = vt_path_get_this_exe_location(m); check_str(s, real, "executable location"); vt_str_append(s, "/more"); check_str(s, S_(real) + "/more", "appending"); vt_str_destroy(s); if (m) vt_mallocator_destroy(m); CHECK(live_count() == 0, "leak"); done(real, 9); }
    hooks.readlink = fake_readlink;
    for (size_t len = 0; len <= PATH_MAX; len += (len < 300 || len >= PATH_MAX - 40 || thorough()) ? 1 : 37) { LINK = len ? "/" + S_(len - 1, 'e') : ""; D = "location of an executable with a path of " + std::to_string(len) + " bytes"; step(); LINK_USED = false; vt_str_t *s = vt_path_get_this_exe_location(nullptr); if (!LINK_USED) { if (s) vt_str_destroy(s); break; } if (!len) CHECK(!s, "no location, but a string was returned"); else { check_str(s, LINK, "executable location"); vt_str_destroy(s); } CHECK(live_count() == 0, "leak"); done(LINK, 10); }
    hooks.readlink = nullptr;
}
void cwd() {
    S_ base = S_(scratch_dir()) + "/cwd"; ::mkdir(base.c_str(), 0755); CHECK(chdir(base.c_str()) == 0, "harness"); S_ cur = base; size_t maxlen = 4000;
    for (size_t i = 0;; i++) {
        for (int al = 0; al < 2; al++) { D = "current directory with a path of " + std::to_string(cur.size()) + " bytes"; step(); vt_mallocator_t *m = al ? vt_mallocator_create() : nullptr; vt_str_t *s = vt_path_get_cwd(m); check_str(s, cur, "current directory"); vt_str_append(s, "/more"); check_str(s, cur + "/more", "appending"); vt_str_destroy(s); if (m) vt_mallocator_destroy(m); CHECK(live_count() == 0, "leak"); done(cur, 11); }
        S_ name(i < 200 ? 1 + i % 3 : 37 + i % 100, 'd'); if (cur.size() + name.size() + 1 > maxlen) break; CHECK(::mkdir(name.c_str(), 0755) == 0 && chdir(name.c_str()) == 0, "harness: %s", strerror(errno)); cur += "/" + name;
    }
    CHECK(chdir(base.c_str()) == 0 && ::mkdir("gone", 0755) == 0 && chdir("gone") == 0 && ::rmdir((base + "/gone").c_str()) == 0, "harness"); D = "a current directory that was removed"; step(); vt_str_t *s = vt_path_get_cwd(nullptr); CHECK(!s, "a removed current directory was reported as %s", s ? show(str(s)).c_str() : ""); CHECK(live_count() == 0, "leak"); done("gone", 12); CHECK(chdir(base.c_str()) == 0, "harness");
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); size_t N = 16;
    for (size_t i = 0; i < N; i++) {
        add_job("strings_" + std::to_string(i), [=] { describe = desc; size_t k = 0; for (auto &w : words("a/~", 0, T ? 9 : 7)) if (k++ % N == i) strings_one(w, w.size() <= 5); for (auto &w : words("a./\\", 0, T ? 8 : 6)) if (k++ % N == i) strings_one(w, w.size() <= 4); for (auto &w : words("/\\b", 0, T ? 9 : 7)) if (k++ % N == i) strings_one(w, false); });
        add_job("tilde_" + std::to_string(i), [=] { describe = desc; size_t k = 0; for (auto &w : words("a/~", 0, T ? 7 : 5)) if (k++ % N == i) for (auto &h : HOMES) tilda_one(w, h); });
        add_job("build_" + std::to_string(i), [=] { describe = desc; builds(i, N); });
    }
    add_job("long", [=] { describe = desc; for (size_t n = 1; n <= (T ? 1500u : 300u); n++) for (S_ p : {S_(n, 'a'), S_(n, '/'), "/" + S_(n, 'a'), S_(n, 'a') + "/", S_(n, 'a') + "/b", "b/" + S_(n, 'a'), S_(n / 2, 'a') + "/" + S_(n - n / 2, 'b') + "/", S_(n, '\\'), "~/" + S_(n, 'z')}) { strings_one(p, n < 40); for (auto &h : HOMES) if (n % 13 == 0 || n < 20) tilda_one(p, h); } });
    add_job("bytes", [] { describe = desc; for (int c = 1; c < 256; c++) for (S_ p : {S_(1, (char)c), S_("a") + (char)c, S_("x/") + (char)c, S_("x/y") + (char)c, S_(1, (char)c) + "/y", S_("~") + (char)c}) { strings_one(p, true); tilda_one(p, HOMES[0]); } });
    for (size_t lo = 0; lo < 64; lo += 4) add_job("pairs_" + std::to_string(lo), [=] { describe = desc; for (size_t a = lo; a < lo + 4; a++) for (size_t b = 0; b < 64; b++) { S_ A(a, 'a'), B(b, 'b'), C((a + b) % 5, 'c'); if (a) A[a / 2] = '.'; if (b) B[b / 2] = b % 3 ? '\\' : '~'; for (S_ p : {A + "/" + B, "/" + A + "/" + B, A + "/" + B + "/" + C, "~" + A + "/" + B, A + "\\" + B}) { strings_one(p, (a + b) % 8 == 0); if ((a + b) % 3 == 0) tilda_one(p, HOMES[(a + b) % HOMES.size()]); } if (a && b) build_one({A, B}, "p", (int)(a + b) % 3); } });
    add_job("exe", [] { describe = desc; exe(); }); add_job("cwd", [] { describe = desc; cwd(); });
    return run_main(argc, argv, "C20");
}
