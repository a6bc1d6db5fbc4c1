// C14: command-line parsing against a reference parser.
#include "strutil.hpp"
using namespace mc;
namespace {
typedef std::string str_t; str_t D; str_t desc() { return D; }
str_t join(const std::vector<str_t> &t) { str_t r = "prog"; for (auto &x : t) r += " " + show(x); return r; }
struct Val { bool set = false; str_t v; };
struct Opt { const char *lo, *sh; int type; };
// reference parser: status and the last value assigned to each option
int ref_parse(const std::vector<str_t> &t, const std::vector<Opt> &o, std::vector<Val> &out) {
    out.assign(o.size(), Val());
    if (t.size() == 1 && (t[0] == "-h" || t[0] == "--help" || (!t[0].empty() && t[0][0] == '?'))) return VT_ARGOPT_PARSE_HELP_WANTED;
    for (size_t i = 0; i < t.size(); i++) {
        size_t eq = t[i].find('='); str_t name = t[i].substr(0, eq), val; size_t j;
        for (j = 0; j < o.size(); j++) if (name == o[j].lo || name == o[j].sh) break;
        if (j == o.size() || name.empty()) return VT_ARGOPT_PARSE_ERROR;
        if (eq != str_t::npos) val = t[i].substr(eq + 1); else if (i + 1 < t.size() && (t[i + 1].empty() || t[i + 1][0] != '-')) val = t[++i]; else val = "1";
        out[j].set = true; out[j].v = val;
    }
    return VT_ARGOPT_PARSE_SUCCESS;
}
// ---------------------------------------------------------------- destinations
size_t width(int t) { switch (t) { case VT_TYPE_INT8: case VT_TYPE_UINT8: case VT_TYPE_BOOL: case VT_TYPE_CHAR: return 1; case VT_TYPE_INT16: case VT_TYPE_UINT16: return 2; case VT_TYPE_INT32: case VT_TYPE_UINT32: case VT_TYPE_FLOAT: return 4; case VT_TYPE_REAL: return sizeof(real); default: return 8; } }
struct Dest { int type; void *p; bool had; str_t init; std::vector<unsigned char> before; };
void dest_make(Dest &d, int type, int prior, vt_mallocator_t *al) { // prior: -1 none, else length of the existing text / pattern byte
    d.type = type; d.p = malloc(width(type)); d.had = prior >= 0;
    if (type == VT_TYPE_STR || type == VT_TYPE_CSTR) {
        d.init = prior < 0 ? "" : str_t(prior, 'p'); void *v = nullptr;
        if (prior >= 0) { if (type == VT_TYPE_STR) v = mkstr(d.init, al); else { v = al ? VT_ALLOCATOR_ALLOC(al, prior + 1) : tracked_malloc(prior + 1); strcpy((char *)v, d.init.c_str()); } }
        memcpy(d.p, &v, 8);
    } else memset(d.p, prior < 0 ? 0 : 0x21 + prior % 64, width(type)); if (type == VT_TYPE_BOOL) *(bool *)d.p = prior > 0;
    d.before.assign((unsigned char *)d.p, (unsigned char *)d.p + width(type));
}
bool numeric(const str_t &t) { for (char c : t) if (!((c >= '0' && c <= '9') || c == '.')) return false; return true; }
bool in_contract(int type, const str_t &v) { // integer values beyond the type are not specified
    if (type > VT_TYPE_UINT64 || !numeric(v)) return true; str_t d = v.substr(0, v.find('.')); __int128 x = 0; for (char c : d) { x = x * 10 + (c - '0'); if (x > ((__int128)1 << 70)) return false; }
    static const __int128 mx[] = {INT8_MAX, UINT8_MAX, INT16_MAX, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, (__int128)UINT64_MAX}; return x <= mx[type - VT_TYPE_INT8];
}
void dest_check(const Dest &d, const Val &v, const char *nm) {
    if (d.type == VT_TYPE_STR) { vt_str_t *s; memcpy(&s, d.p, 8); if (!v.set) { if (!d.had) CHECK(!s, "%s: a string appeared", nm); else check_str(s, d.init, nm); } else check_str(s, v.v, nm); return; }
    if (d.type == VT_TYPE_CSTR) { char *s; memcpy(&s, d.p, 8); if (!v.set && !d.had) { CHECK(!s, "%s: a text appeared", nm); return; } const str_t &w = v.set ? v.v : d.init; CHECK(s != nullptr, "%s: no text stored", nm); CHECK(mem_ok(s, w.size() + 1), "%s: the stored text's memory is too small for %zu characters", nm, w.size()); CHECK(!memcmp(s, w.c_str(), w.size() + 1), "%s holds %s, expected %s", nm, show(str_t(s, strnlen(s, w.size()))).c_str(), show(w).c_str()); return; }
    if (!v.set) { CHECK(!memcmp(d.p, d.before.data(), width(d.type)), "%s was changed although its option was not given", nm); return; }
    bool num = numeric(v.v); str_t dg = v.v.substr(0, v.v.find('.')); uint64_t u = 0; if (num) for (char c : dg) u = u * 10 + (c - '0');
    switch (d.type) {
    case VT_TYPE_FLOAT: CHECK(*(float *)d.p == (num ? strtof(v.v.c_str(), 0) : 0), "%s = %g for %s", nm, *(float *)d.p, show(v.v).c_str()); break;
    case VT_TYPE_DOUBLE: CHECK(*(double *)d.p == (num ? strtod(v.v.c_str(), 0) : 0), "%s = %g for %s", nm, *(double *)d.p, show(v.v).c_str()); break;
    case VT_TYPE_REAL: CHECK(*(real *)d.p == (num ? strtold(v.v.c_str(), 0) : 0), "%s = %Lg for %s", nm, *(real *)d.p, show(v.v).c_str()); break;
    case VT_TYPE_BOOL: { unsigned char b = *(unsigned char *)d.p; bool w = v.v == "true" || (!v.v.empty() && v.v[0] == '1'); CHECK(b == (w ? 1 : 0), "%s = %d for %s", nm, b, show(v.v).c_str()); break; }
    case VT_TYPE_CHAR: CHECK(*(char *)d.p == (v.v.empty() ? 0 : v.v[0]), "%s = %d for %s", nm, *(char *)d.p, show(v.v).c_str()); break;
    default: { uint64_t g = 0; memcpy(&g, d.p, width(d.type)); CHECK(g == u, "%s = %llu for %s", nm, (unsigned long long)g, show(v.v).c_str()); } }
}
void dest_free(Dest &d, vt_mallocator_t *al) { if (d.type == VT_TYPE_STR) { vt_str_t *s; memcpy(&s, d.p, 8); if (s) { CHECK(vt_array_has_alloctr(s) == (al != nullptr), "a stored string does not use the given allocator"); vt_str_destroy(s); } } if (d.type == VT_TYPE_CSTR) { char *s; memcpy(&s, d.p, 8); if (s) { if (al) VT_ALLOCATOR_FREE(al, s); else vt_free(s); } } free(d.p); }

void parse_once(const std::vector<str_t> &toks, const std::vector<Opt> &os, const std::vector<int> &prior, bool useal) {
    std::vector<Val> want; int st = ref_parse(toks, os, want); for (size_t j = 0; j < os.size(); j++) if (want[j].set && !in_contract(os[j].type, want[j].v)) return;
    D = join(toks) + (useal ? " [accounting allocator]" : "") + " types"; for (size_t j = 0; j < os.size(); j++) D += " " + std::to_string(os[j].type) + "(prior " + std::to_string(prior[j]) + ")"; step(); live_reset();
    vt_mallocator_t *al = useal ? vt_mallocator_create() : nullptr; std::vector<Dest> ds(os.size()); for (size_t j = 0; j < os.size(); j++) dest_make(ds[j], os[j].type, prior[j], al);
    std::vector<std::unique_ptr<Z>> zs; zs.emplace_back(new Z("prog")); for (auto &t : toks) zs.emplace_back(new Z(t)); const char **argv = (const char **)malloc(zs.size() * sizeof(char *)); for (size_t i = 0; i < zs.size(); i++) argv[i] = *zs[i];
    vt_argopt_t *ov = (vt_argopt_t *)malloc(os.size() * sizeof(vt_argopt_t)); for (size_t j = 0; j < os.size(); j++) new (&ov[j]) vt_argopt_t{os[j].lo, os[j].sh, "description", (void **)ds[j].p, (enum VitaTypeInfo)os[j].type};
    size_t outside = live_count(); (void)outside; int got = vt_argopt_parse(zs.size(), argv, os.size(), ov, al);
    CHECK(got == st, "status %d, expected %d", got, st); for (size_t j = 0; j < os.size(); j++) dest_check(ds[j], want[j], os[j].lo);
    for (size_t i = 0; i < toks.size(); i++) CHECK(!strcmp(argv[i + 1], toks[i].c_str()), "argument %zu was changed", i + 1);
    for (auto &d : ds) dest_free(d, al); if (al) { CHECK(al->obj_list_len == 0, "%zu block(s) left in the allocator", (size_t)al->obj_list_len); vt_mallocator_destroy(al); } CHECK(live_count() == 0, "%zu allocation(s) leaked", live_count());
    free(argv); free(ov); count(C_EVALS); count(C_TRANS); count(C_TRACES); uint64_t h = hash_bytes(&st, 4); for (auto &w : want) h = hash_str(w.v, h + w.set); outcome(h);
}
const std::vector<Opt> OS = {{"--num", "-n", VT_TYPE_INT32}, {"--str", "-s", VT_TYPE_STR}, {"--verbose", "-v", VT_TYPE_BOOL}, {"--cs", "-c", VT_TYPE_CSTR}};
const std::vector<str_t> TOK = {"--num=7", "--num", "-n", "-n=12", "5", "-s", "--str=ab", "--str", "text", "-v", "--verbose=0", "--verbose=true", "-c=a rather long value", "--cs", "--nope", "--nope=1", "=7", "-h", "", "--num==3", "-", "?x", "=-n", "--nu"};
void seqs(size_t first, size_t depth) {
    std::vector<size_t> ix; std::function<void(size_t)> rec = [&](size_t left) { std::vector<str_t> t; t.push_back(TOK[first]); for (size_t i : ix) t.push_back(TOK[i]); size_t k = ix.size() + first + (ix.empty() ? 0 : ix.back());
        parse_once(t, OS, {-1, -1, -1, -1}, false); if (ix.size() < 3 || k % 4 == 0) parse_once(t, OS, {3, 4, 1, 6}, true); if (!left) return; for (size_t i = 0; i < TOK.size(); i++) { ix.push_back(i); rec(left - 1); ix.pop_back(); } };
    rec(depth - 1);
}
const std::vector<Opt> PL = {{"v", "w", VT_TYPE_INT32}, {"name", "n", VT_TYPE_STR}, {"-", "--", VT_TYPE_BOOL}, {"x", "--x", VT_TYPE_CSTR}}; // names need no dash and may be one character
const std::vector<str_t> PTOK = {"v=3", "w", "v", "n=a", "name", "-", "--=0", "x=", "--x", "7", "v=", "=v", "-=1", "x=x=1", "vv", "n"};
void plain(size_t first, size_t depth) { std::vector<str_t> t{PTOK[first]}; std::function<void()> rec = [&] { parse_once(t, PL, {-1, -1, -1, -1}, false); parse_once(t, PL, {3, 4, 1, 6}, true); if (t.size() == depth) return; for (auto &k : PTOK) { t.push_back(k); rec(); t.pop_back(); } }; rec(); }
void types(int type, bool T) {
    std::vector<str_t> vals = {"", "0", "1", "2", "7", "9", "10", "12", "99", "100", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "1.5", "0.25", ".5", "3.", "1.2.3", "3.14159", "000012", "true", "false", "True", "TRUE", "true1", "1abc", "0abc", "t", "x", "abc", "hello world", "-5", "+5", " 5", "5 ", "a=b", "=", "==", "a=", "\xe9t\xe9", "?", "--n", "-n", "1e3"};
    if (T) for (int i = 0; i < 300; i++) vals.push_back(std::to_string(i)); for (int c = 1; c < 256; c++) vals.push_back(str_t(1, (char)c));
    std::vector<int> priors = type == VT_TYPE_STR || type == VT_TYPE_CSTR ? std::vector<int>{-1, 0, 1, 3, 20} : std::vector<int>{0, 1, 60};
    for (auto &v : vals) for (int pr : priors) for (bool al : {false, true}) {
        std::vector<Opt> o = {{"--first", "-f", VT_TYPE_INT64}, {"--opt", "-o", type}, {"--optional", "-oo", VT_TYPE_UINT8}}; std::vector<int> prior = {2, pr, 5};
        parse_once({"--opt=" + v}, o, prior, al); parse_once({"-o=" + v}, o, prior, al); parse_once({"--opt", v}, o, prior, al); parse_once({"-o", v}, o, prior, al); parse_once({"--opt=zz9", "-o=" + v}, o, prior, al); parse_once({"-o=" + v, "--opt=4"}, o, prior, al); parse_once({"-o", v, "--first=3", "-oo"}, o, prior, al); parse_once({"-o", "-f", v}, o, prior, al); parse_once({"--nope", "--opt=" + v}, o, prior, al); parse_once({"--opt=" + v, "--nope"}, o, prior, al);
    }
}
void bytevals(int type) { // every byte next to a dash, a digit or a letter, as the value of an option, in both forms
    for (int c = 1; c < 256; c++) for (auto &f : {"-%c", "-%c5", "-%cx", "--%c", "5%c", "%c5", "x%c", "%cx", "5%c5", "-5%c", "%c-"}) { char b[8]; snprintf(b, sizeof b, f, c); str_t v = b; std::vector<Opt> o = {{"--first", "-f", VT_TYPE_INT64}, {"--opt", "-o", type}, {"--dotted", "-.", VT_TYPE_UINT8}}; std::vector<int> prior = {2, type == VT_TYPE_STR || type == VT_TYPE_CSTR ? -1 : 1, 5};
        parse_once({"--opt", v}, o, prior, c & 1); parse_once({"-o", v, "-f=3"}, o, prior, false); parse_once({"-o=" + v}, o, prior, c & 1); parse_once({v}, o, prior, false); } }
void lengths(int type, size_t top) { for (size_t n = 0; n <= top; n++) for (int pr : {-1, 0, 15, 16, 40}) for (bool al : {false, true}) { str_t v; for (size_t i = 0; i < n; i++) v += (char)('a' + i % 26); std::vector<Opt> o = {{"--opt", "-o", type}}; parse_once({"--opt=" + v}, o, {pr}, al); parse_once({"-o", v}, o, {pr}, al); parse_once({"-o=" + v, "-o=" + v.substr(0, n / 2), "-o=" + v + "!"}, o, {pr}, al); parse_once({"-o=" + v, "-o=" + v.substr(0, n / 2)}, o, {pr}, al); if (pr == -1) { parse_once({v}, o, {pr}, al); str_t name = "--" + v + "q"; std::vector<Opt> o2 = {{name.c_str(), "-q", type}}; parse_once({name + "=k", name, "z"}, o2, {pr}, al); parse_once({name + "z=k"}, o2, {pr}, al); parse_once({name.substr(0, name.size() - 1)}, o2, {pr}, al); } } }
void tables() { // malformed tables are an error for every command line, and change nothing
    int32_t x = 5; for (int bad = 0; bad < 9; bad++) for (size_t pos = 0; pos < 3; pos++) for (auto &tk : std::vector<std::vector<str_t>>{{}, {"-a=9"}, {"-h"}, {"?"}, {"-b", "9"}, {"--cc"}, {"zzz"}}) {
        D = "malformed table kind " + std::to_string(bad) + " at " + std::to_string(pos) + ": " + join(tk); step(); live_reset(); x = 5; int32_t y = 6, z = 7; const char *lo[3] = {"--aa", "--bb", "--cc"}, *sh[3] = {"-a", "-b", "-c"}; void *pv[3] = {&x, &y, &z}; int ty[3] = {VT_TYPE_INT32, VT_TYPE_INT32, VT_TYPE_INT32}; bool ok = false;
        switch (bad) { case 0: lo[pos] = nullptr; break; case 1: sh[pos] = nullptr; break; case 2: pv[pos] = nullptr; break; case 3: sh[pos] = "-abc"; break; case 4: sh[pos] = "-very-long-name"; break; case 5: ty[pos] = VT_TYPE_COUNT; break; case 6: ty[pos] = VT_TYPE_COUNT + 7; break; case 7: sh[pos] = "-ab"; ok = true; break; case 8: sh[pos] = ""; ok = true; break; }
        vt_argopt_t *ov = (vt_argopt_t *)malloc(3 * sizeof(vt_argopt_t)); for (int j = 0; j < 3; j++) new (&ov[j]) vt_argopt_t{lo[j], sh[j], "d", (void **)pv[j], (enum VitaTypeInfo)ty[j]}; const char *argv[8] = {"prog"}; for (size_t i = 0; i < tk.size(); i++) argv[i + 1] = tk[i].c_str();
        int r = vt_argopt_parse(tk.size() + 1, argv, 3, ov, nullptr); if (!ok) { CHECK(r == VT_ARGOPT_PARSE_ERROR, "status %d for a malformed table", r); CHECK(x == 5 && y == 6 && z == 7, "a destination was changed"); } else { std::vector<Opt> os; for (int j = 0; j < 3; j++) os.push_back({lo[j], sh[j], ty[j]}); std::vector<Val> w; int st = ref_parse(tk, os, w); CHECK(r == st, "status %d, expected %d", r, st); }
        CHECK(live_count() == 0, "leak"); free(ov); count(C_EVALS); count(C_TRANS); count(C_TRACES); outcome(bad * 31 + pos * 7 + r); }
}
void help() { for (auto &h : std::vector<str_t>{"-h", "--help", "?", "??", "?help", "?=1"}) { parse_once({h}, OS, {3, 4, 1, 6}, false); parse_once({h, "--num=2"}, OS, {3, 4, 1, 6}, false); parse_once({"--num=2", h}, OS, {3, 4, 1, 6}, false); parse_once({h, h}, OS, {3, 4, 1, 6}, true); parse_once({"-n", h}, OS, {3, 4, 1, 6}, false); } for (auto &h : std::vector<str_t>{"-H", "--Help", "-help", "--hel", "--helpx", "h", "-hh", "--help=1", "-h=1", " -h"}) parse_once({h}, OS, {3, 4, 1, 6}, false); parse_once({}, OS, {3, 4, 1, 6}, false);
    // an option table that itself defines -h: a lone -h is still the help request
    parse_once({"-h"}, {{"--host", "-h", VT_TYPE_STR}}, {-1}, false); parse_once({"-h=x"}, {{"--host", "-h", VT_TYPE_STR}}, {-1}, false); parse_once({"-h", "x"}, {{"--host", "-h", VT_TYPE_STR}}, {-1}, false);
    // two options sharing a name: the first in the table wins; long and short names are both names
    static const char *NM[3] = {"-x", "-y", "-zz"}; static const std::vector<std::vector<str_t>> CL = {{"-x=4"}, {"-x", "4"}, {"-x"}, {"-x", "-y"}, {"-y", "4"}, {"-y=7"}, {"-zz", "9"}, {"-zz=9"}, {"-x", "4", "-y", "5"}, {"-x", "4", "-x"}, {"-x", "4", "5"}, {"-x", "4", "-x", "6"}, {"-x=4", "-zz", "6"}, {"-y", "4", "-x=6"}};
    for (int a = 0; a < 81; a++) for (auto &c : CL) { if (a % 3 == a / 3 % 3 || a / 9 % 3 == a / 27) continue; parse_once(c, {{NM[a % 3], NM[a / 3 % 3], VT_TYPE_INT32}, {NM[a / 9 % 3], NM[a / 27], VT_TYPE_INT32}}, {1, 2}, false); if (a % 2 == 0 && 2 - a % 3 != a / 3 % 3) parse_once(c, {{NM[a % 3], NM[a / 3 % 3], VT_TYPE_INT32}, {NM[a / 9 % 3], NM[a / 27], VT_TYPE_UINT8}, {NM[2 - a % 3], NM[a / 3 % 3], VT_TYPE_INT64}}, {1, 2, 3}, false); }
    parse_once({"-x=4"}, {{"--aa", "-x", VT_TYPE_INT32}, {"--bb", "-x", VT_TYPE_INT32}}, {1, 2}, false); parse_once({"-x", "4", "--bb=3"}, {{"-x", "-y", VT_TYPE_INT32}, {"--bb", "-x", VT_TYPE_INT32}}, {1, 2}, false); }
void many() { for (size_t n = 1; n <= 40; n++) { static char lo[64][16], sh[64][4]; std::vector<Opt> o; std::vector<int> pr; for (size_t i = 0; i < n; i++) { snprintf(lo[i], 16, "--o%zu", i); snprintf(sh[i], 4, "-%c%c", (char)('a' + i % 26), (char)('a' + i / 26)); o.push_back({lo[i], sh[i], i % 2 ? VT_TYPE_UINT32 : VT_TYPE_CSTR}); pr.push_back(i % 2 ? 1 : -1); }
        for (size_t k = 0; k < n; k++) { parse_once({str_t(lo[k]) + "=77"}, o, pr, k & 1); parse_once({sh[k], "78"}, o, pr, k & 1); parse_once({sh[k], lo[n - 1 - k]}, o, pr, false); } std::vector<str_t> all; for (size_t k = n; k-- > 0;) { all.push_back(lo[k]); all.push_back(std::to_string(k * 3)); } parse_once(all, o, pr, true); } }
void large(size_t n) { // a very long value, a very long name, a table of many options and a very long command line
    str_t v; for (size_t i = 0; i < n; i++) v += (char)('a' + i % 23); for (int type : {(int)VT_TYPE_STR, (int)VT_TYPE_CSTR, (int)VT_TYPE_CHAR, (int)VT_TYPE_BOOL, (int)VT_TYPE_INT32}) for (int pr : {-1, 3, 300}) for (bool al : {false, true}) { if (pr < 0 && type != VT_TYPE_STR && type != VT_TYPE_CSTR) continue;
        std::vector<Opt> o = {{"--opt", "-o", type}, {"--after", "-a", VT_TYPE_INT32}}; std::vector<int> p = {pr % 251, 1}; if (type == VT_TYPE_STR || type == VT_TYPE_CSTR) p[0] = pr; parse_once({"--opt=" + v}, o, p, al); parse_once({"-o", v, "-a", "7"}, o, p, al); parse_once({"-o=" + v, "-o=ab"}, o, p, al); parse_once({"-o=ab", "-o=" + v + "=" + v, "--after=6"}, o, p, al); parse_once({v}, o, p, al); parse_once({"-a=5", "--opt" + v}, o, p, al); parse_once({"-a=5", "--opt" + v + "=1"}, o, p, al); }
    str_t name = "--" + v, near = name; near.back() = '!'; for (int k = 0; k < 2; k++) { std::vector<Opt> o = {{name.c_str(), "-q", VT_TYPE_INT32}, {near.c_str(), "-r", VT_TYPE_INT32}}; parse_once({name + "=4"}, o, {1, 2}, k); parse_once({near, "4", "-q"}, o, {1, 2}, k); parse_once({near + "!"}, o, {1, 2}, k); parse_once({name.substr(0, n)}, o, {1, 2}, k); }
    std::vector<str_t> zeros; str_t z(n, '0'); parse_once({"-n=" + z + "12"}, OS, {3, 4, 1, 6}, false); parse_once({"--num", z + "7." + z}, OS, {3, 4, 1, 6}, false); parse_once({"-n=0." + z}, OS, {3, 4, 1, 6}, false);
}
void wide(size_t n) { std::vector<str_t> lo(n), sh(n); std::vector<Opt> o; std::vector<int> pr; for (size_t i = 0; i < n; i++) { lo[i] = "--o" + std::to_string(i); sh[i] = str_t("-") + (char)(33 + i % 90) + (char)(33 + i / 90 % 90); for (char &c : sh[i]) if (c == '=') c = '~'; } for (size_t i = 0; i < n; i++) { o.push_back({lo[i].c_str(), sh[i].c_str(), i % 2 ? VT_TYPE_UINT32 : VT_TYPE_CSTR}); pr.push_back(i % 2 ? 1 : -1); }
    for (size_t k : {(size_t)0, (size_t)1, (size_t)126, (size_t)127, (size_t)128, (size_t)129, (size_t)254, (size_t)255, (size_t)256, (size_t)257, n / 2, n - 2, n - 1}) if (k < n) { parse_once({lo[k] + "=77"}, o, pr, k & 1); parse_once({sh[k], "78"}, o, pr, k & 1); parse_once({sh[k], lo[n - 1 - k]}, o, pr, false); parse_once({"--o" + std::to_string(n)}, o, pr, false); parse_once({lo[k] + "=1", "--none"}, o, pr, false); }
    std::vector<str_t> all; for (size_t k = n; k-- > 0;) { all.push_back(lo[k]); all.push_back(std::to_string(k * 3)); } parse_once(all, o, pr, true); }
void longline(size_t n, int shape) { { std::vector<str_t> t; for (size_t i = 0; i < n; i++) switch (shape) { case 0: t.push_back("--num=" + std::to_string(i)); break; case 1: t.push_back("-v"); break; case 2: t.push_back(i % 2 ? std::to_string(i) : "-n"); break; case 3: t.push_back(i % 3 ? "-c=v" + std::to_string(i) : "--str=s" + std::to_string(i)); break; } parse_once(t, OS, {3, 4, 1, 6}, shape & 1); t.push_back("-s=last"); parse_once(t, OS, {-1, -1, -1, -1}, false); t.push_back("--nope"); parse_once(t, OS, {3, 4, 1, 6}, true); } }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    for (size_t n : T ? std::vector<size_t>{512, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001} : std::vector<size_t>{1024, 4097, 65537}) { add_job("large_" + std::to_string(n), [=] { describe = desc; large(n); }); for (int sh = 0; sh < 4; sh++) if (T || n < 60000 || sh == 1 || sh == 2) add_job("line_" + std::to_string(n) + "_" + std::to_string(sh), [=] { describe = desc; longline(n, sh); }); }
    for (size_t n : {100, 127, 128, 129, 255, 256, 257, 300, 1000, 4100}) add_job("wide_" + std::to_string(n), [=] { describe = desc; wide(n); });
    for (size_t f = 0; f < TOK.size(); f++) add_job("seq_" + std::to_string(f), [=] { describe = desc; seqs(f, T ? 5 : 4); });
    for (size_t f = 0; f < PTOK.size(); f++) add_job("plain_" + std::to_string(f), [=] { describe = desc; plain(f, T ? 5 : 4); });
    for (int t = VT_TYPE_INT8; t <= VT_TYPE_STR; t++) { add_job("type_" + std::to_string(t), [=] { describe = desc; types(t, T); }); add_job("bytes_" + std::to_string(t), [=] { describe = desc; bytevals(t); }); }
    for (int t : {(int)VT_TYPE_STR, (int)VT_TYPE_CSTR, (int)VT_TYPE_CHAR, (int)VT_TYPE_BOOL}) add_job("len_" + std::to_string(t), [=] { describe = desc; lengths(t, T ? 1100 : 300); });
    add_job("tables", [] { describe = desc; tables(); }); add_job("help", [] { describe = desc; help(); }); add_job("many", [] { describe = desc; many(); });
    return run_main(argc, argv, "C14");
}
