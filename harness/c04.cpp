// C04: substring search, replacement, removal, insertion next to a substring: exhaustive over small texts and patterns.
#include "strutil.hpp"
using namespace mc;
namespace {
std::string T_, S_, R_; int OPC = 0, PREP = 0;
enum { FIND, COUNT, REPL, REPLF, REPLL, REMF, REML, REMA, REMC, REPC, INSB, INSA, PREFIX, IDXC, NOPS };
const char *names[] = {"find/index_find", "can_find", "replace", "replace_first", "replace_last", "remove_first", "remove_last", "remove_all", "remove_c", "replace_c", "insert_before", "insert_after", "starts/ends_with", "index_of"};
std::string desc() { return std::string(names[OPC]) + " text=" + show(T_) + " sub=" + show(S_) + " repl=" + show(R_) + " prep=" + std::to_string(PREP); }
// oracle -------------------------------------------------------------
typedef std::string str_t;
size_t first(const str_t &t, const str_t &s) { return t.find(s); }
size_t last_nonoverlap(const str_t &t, const str_t &s) { size_t r = str_t::npos, p = 0; while ((p = t.find(s, p)) != str_t::npos) { r = p; p += s.size(); } return r; }
str_t sub_at(str_t t, size_t at, size_t n, const str_t &r) { if (at != str_t::npos) t.replace(at, n, r); return t; }
str_t repl_all(const str_t &t, const str_t &s, const str_t &r) { str_t o; size_t p = 0, q; while ((q = t.find(s, p)) != str_t::npos) { o += t.substr(p, q - p) + r; p = q + s.size(); } return o + t.substr(p); }
vt_str_t *make(const str_t &t, vt_mallocator_t *al) {
    switch (PREP) {
    case 0: { vt_str_t *s = mkstr(t, al); vt_str_shrink(s); return s; }
    case 1: return mkstr(t, al, 5);
    default: { vt_str_t *s = mkstr(t + "abab" + S_ + "b", al); vt_str_remove(s, t.size(), SIZE_MAX); return s; }   // stale matching bytes behind the terminator
    }
}
void one(int op, const str_t &t, const str_t &sub, const str_t &r, int prep) {
    OPC = op; T_ = t; S_ = sub; R_ = r; PREP = prep & 3; bool useal = prep & 4;
    bool need_fit = op == FIND || op == COUNT || op == REPLF || op == INSB || op == INSA;
    if (need_fit && sub.size() > t.size() && !(op == REPLF && (sub.empty() || r.empty()))) return;
    step(); live_reset(); vt_mallocator_t *al = useal ? vt_mallocator_create() : nullptr;
    vt_str_t *s = make(t, al); Z zs(sub), zr(r); str_t want = t; uint64_t ret = 0;
    switch (op) {
    case FIND: { const char *p = vt_str_find(s, zs); size_t f = first(t, sub); int64_t ix = vt_str_index_find(s, zs);
        CHECK(f == str_t::npos ? p == nullptr : p == vt_str_z(s) + f, "find: offset %td, expected %lld", p ? p - vt_str_z(s) : -1, (long long)f);
        CHECK(ix == (f == str_t::npos ? -1 : (int64_t)f), "index_find: %lld, expected %lld", (long long)ix, (long long)f); ret = f; break; }
    case COUNT: { size_t c = 0, p = 0; while ((p = t.find(sub, p)) != str_t::npos) { c++; p += sub.size(); } ret = vt_str_can_find(s, zs); CHECK(ret == c, "can_find: %llu, expected %zu", (unsigned long long)ret, c); break; }
    case REPL: vt_str_replace(s, zs, zr); if (!r.empty()) want = repl_all(t, sub, r); break;
    case REPLF: vt_str_replace_first(s, zs, zr); if (!r.empty()) want = sub_at(t, first(t, sub), sub.size(), r); break;
    case REPLL: vt_str_replace_last(s, zs, zr); if (!r.empty()) want = sub_at(t, last_nonoverlap(t, sub), sub.size(), r); break;
    case REMF: ret = vt_str_remove_first(s, zs); want = sub_at(t, first(t, sub), sub.size(), ""); CHECK((ret == VT_STATUS_OPERATION_SUCCESS) == (first(t, sub) != str_t::npos), "remove_first status %d", (int)ret); break;
    case REML: ret = vt_str_remove_last(s, zs); want = sub_at(t, last_nonoverlap(t, sub), sub.size(), ""); CHECK((ret == VT_STATUS_OPERATION_SUCCESS) == (first(t, sub) != str_t::npos), "remove_last status %d", (int)ret); break;
    case REMA: ret = vt_str_remove_all(s, zs); for (size_t f; (f = want.find(sub)) != str_t::npos;) want.erase(f, sub.size()); CHECK(ret == VT_STATUS_OPERATION_SUCCESS, "remove_all status %d", (int)ret); break;
    case REMC: vt_str_remove_c(s, zs); want.clear(); for (char c : t) if (sub.find(c) == str_t::npos) want += c; break;
    case REPC: vt_str_replace_c(s, zs, zr); if (!r.empty()) for (char &c : want) { size_t j = sub.find(c); if (j != str_t::npos) c = j < r.size() ? r[j] : r.back(); } break;
    case INSB: vt_str_insert_before(s, zs, zr); { size_t f = first(t, sub); if (f != str_t::npos) want.insert(f, r); } break;
    case INSA: vt_str_insert_after(s, zs, zr); { size_t f = first(t, sub); if (f != str_t::npos) want.insert(f + sub.size(), r); } break;
    case PREFIX: { bool a = vt_str_starts_with(s, zs), b = vt_str_ends_with(s, zs); bool wa = t.size() >= sub.size() && t.compare(0, sub.size(), sub) == 0, wb = t.size() >= sub.size() && t.compare(t.size() - sub.size(), sub.size(), sub) == 0;
        CHECK(a == wa, "starts_with: %d", a); CHECK(b == wb, "ends_with: %d", b); ret = a * 2 + b; break; }
    case IDXC: { size_t f = t.find(sub[0]); int64_t ix = vt_str_index_of(s, sub[0]); CHECK(ix == (f == str_t::npos ? -1 : (int64_t)f), "index_of: %lld", (long long)ix); ret = ix; break; }
    }
    check_str(s, want, names[op]); outcome(H(want, op, ret)); count(C_EVALS); count(C_TRANS, 3); count(C_TRACES);
    vt_str_destroy(s); if (al) vt_mallocator_destroy(al);
    CHECK(live_count() == 0, "%zu allocation(s) leaked", live_count());
}
void all_ops(const std::vector<str_t> &texts, const std::vector<str_t> &subs, const std::vector<str_t> &reps, size_t lo, size_t hi) {
    describe = desc;
    for (size_t i = lo; i < hi && i < texts.size(); i++) for (int prep : {0, 1, 2, 4, 6}) for (auto &sub : subs) {
        for (int op : {FIND, COUNT, REMF, REML, REMA, REMC, PREFIX, IDXC}) { if (prep >= 4 && (op == FIND || op == COUNT || op == PREFIX || op == IDXC)) continue; one(op, texts[i], sub, "", prep); }
        for (auto &r : reps) for (int op : {REPL, REPLF, REPLL, INSB, INSA, REPC}) { if (op == REPC && r.size() > sub.size()) continue; one(op, texts[i], sub, r, prep); }
    }
}
void empty_pattern() { // the cases with an empty pattern that have an answer
    describe = desc;
    for (auto &t : words("ab", 0, 4)) for (int prep : {0, 1, 2, 4}) { one(PREFIX, t, "", "", prep); one(FIND, t, "", "", prep); one(REMF, t, "", "", prep); one(REMC, t, "", "", prep); one(REPC, t, "", "", prep);
        for (auto &r : words("ab", 0, 2)) {
            for (int op : {REPL, REPLF, REPLL}) { OPC = op; T_ = t; S_ = ""; R_ = r; PREP = prep & 3; step(); live_reset(); vt_str_t *s = make(t, nullptr); Z zr(r); if (op == REPL) vt_str_replace(s, "", zr); if (op == REPLF) vt_str_replace_first(s, "", zr); if (op == REPLL) vt_str_replace_last(s, "", zr); check_str(s, t, "empty pattern"); vt_str_destroy(s); CHECK(live_count() == 0, "leak"); count(C_TRACES); count(C_TRANS); }
        } }
}
void bytes() { // every byte value as the pattern; neighbours differ in one bit
    describe = desc;
    for (int b = 1; b < 256; b++) { str_t c(1, (char)b), n(1, (char)(b == 1 ? 2 : (b ^ 1) ? (b ^ 1) : 3)), h(1, (char)((b ^ 0x80) ? (b ^ 0x80) : 7)); str_t t = n + c + h + c + n;
        for (int op = 0; op < NOPS; op++) for (int prep : {0, 1}) { one(op, t, c, "Q", prep); if (op != REPC) one(op, t, c, "QRS", prep); one(op, t, c + h, op == REPC ? "W" : "WXY", prep); one(op, t, c + n, "W", prep); one(op, t + c, c + c, "W", prep); } }
}
void planted(size_t lo, size_t hi) { // one, two or three matches at every position of longer texts
    describe = desc;
    for (size_t n = lo; n < hi; n++) for (auto &sub : {str_t("a"), str_t("aba"), str_t("abcab"), str_t("aaaaaaaaaaab")}) for (size_t at = 0; at + sub.size() <= n; at++) {
        if (n > 48 && at > 3 && at + sub.size() + 3 < n && at % 7 && at != n / 2) continue;
        str_t t(n, 'x'); t.replace(at, sub.size(), sub); std::vector<str_t> ts{t};
        if (at >= sub.size()) { str_t u = t; u.replace(0, sub.size(), sub); ts.push_back(u); }
        if (at + 2 * sub.size() <= n) { str_t u = t; u.replace(at + sub.size(), sub.size(), sub); ts.push_back(u); }
        if (at + 2 * sub.size() <= n) { str_t u = t; u.replace(n - sub.size(), sub.size(), sub); ts.push_back(u); }
        for (auto &u : ts) for (int op = 0; op < NOPS; op++) for (int prep : {0, 2}) for (auto &r : {str_t("Z"), str_t("aba"), str_t("ZYXWVU") + sub, str_t(40, 'q')}) {
            if (op == REPC && r.size() > sub.size()) continue; bool usesr = op == REPL || op == REPLF || op == REPLL || op == INSB || op == INSA || op == REPC; if (!usesr && r != "Z") continue; one(op, u, sub, r, prep); }
    }
}
void many(size_t n) { // many matches: replacement that grows the text over and over
    describe = desc;
    for (size_t k = 1; k <= n; k++) for (auto &sub : {str_t("a"), str_t("ab")}) for (auto &sp : {str_t(""), str_t("-"), str_t("b")}) { str_t t; for (size_t i = 0; i < k; i++) t += sub + sp;
        for (auto &r : {str_t("a"), str_t("aa"), str_t("abab"), str_t("ba"), str_t(33, 'a')}) for (int op : {REPL, REPLF, REPLL, REMA, REML, COUNT, INSA, INSB}) for (int prep : {0, 1, 2, 4}) one(op, t, sub, r, prep); }
}
// every one of more matches than a 16-bit counter holds, each operation as a job of its own (their cost is quadratic)
void crowd(int k) { describe = [] { return std::string(names[OPC]) + " with " + std::to_string(std::count(T_.begin(), T_.end(), 'a')) + " matches, replacement " + show(R_); }; const size_t N = 66001; str_t t(N, 'a'); t.back() = 'z'; t += "ab"; str_t u; for (size_t i = 0; i < N; i++) u += "ax"; u += "ay";
    switch (k) { case 0: one(REMA, t, "a", "", 0); break; case 1: one(REPL, t, "a", "b", 0); one(REPL, u, "ax", "by", 1); break; case 2: one(REPL, t, "a", "bb", 0); break; case 3: one(REPL, u, "ax", "b", 1); break; case 4: one(REMA, u, "ax", "", 1); break; default: one(REMC, u, "xq", "", 0); one(REPC, u, "qx", "ab", 0); one(COUNT, t, "a", "", 0); one(COUNT, u, "ax", "", 0); one(REPLL, u, "ax", "b", 0); one(REML, u, "ax", "", 0); } }
void large(size_t n) { // long texts, long patterns, more matches than 8-, 12- and 16-bit counters hold
    describe = [] { return std::string(names[OPC]) + " on a text of " + std::to_string(T_.size()) + " bytes, pattern of " + std::to_string(S_.size()) + " bytes, replacement of " + std::to_string(R_.size()) + " bytes, prep=" + std::to_string(PREP); };
    str_t far(n, 'x'); far += "nee"; far += str_t(3, 'y'); str_t dup = "nee" + far, pat = str_t(n, 'p') + "q", lt = "p" + pat + "pp" + pat;
    for (int op = 0; op < NOPS; op++) { bool usesr = op == REPL || op == REPLF || op == REPLL || op == INSB || op == INSA || op == REPC;
        for (int prep : {0, 1}) {
            one(op, far, "nee", "W", prep); one(op, dup, "nee", op == REPC ? "ab" : "WXYZ", prep); one(op, far, "yyy", "W", prep); one(op, far, "yz", "W", prep);
            if (usesr && op != REPC) { one(op, "ab-ab", "ab", far, prep); one(op, lt, pat, far, prep); }
            if (op != REMC && op != REPC) one(op, lt, pat, "W", prep);
        } }
    { str_t t(n, 'x'); for (size_t i = 0; i < 300; i++) t[i * (n - 1) / 299] = 'a'; for (const char *r : {"b", "bb", "aab"}) one(REPL, t, "a", r, 1); one(REMA, t, "a", "", 0); one(COUNT, t, "a", "", 0); } // matches spread over the whole text
    for (auto &u : {str_t("a"), str_t("a-")}) { str_t t; for (size_t i = 0; i < n; i++) t += u; t += "z";
        for (int op : {COUNT, FIND, REPLF, REPLL, REMF, REML, REMC, REPC, PREFIX, IDXC}) one(op, t, "a", op == REMC || op == REPC ? "b" : "bb", 0);
        one(COUNT, t, "z", "", 0); one(FIND, t, "z", "", 0); one(IDXC, t, "z", "", 0);
        if (n <= 4100 || thorough()) one(REPL, t, "a", "b", 0); if (n <= 4100 || thorough()) { one(REPL, t, "a", "bb", 1); one(REMA, t, "a", "", 0); } }
}
}
namespace {
// every combination of pattern length and replacement length, with the match alone, first, last, inside and repeated
void lengths(size_t m) {
    describe = desc; str_t pat; for (size_t i = 0; i + 1 < m; i++) pat += (char)('a' + i % 25); pat += 'z'; std::vector<size_t> ks; for (size_t k = 0; k <= 40; k++) ks.push_back(k); for (size_t k : {63, 64, 65, 127, 128, 129, 255, 256, 257}) ks.push_back(k);
    for (size_t k : ks) { str_t r; for (size_t i = 0; i < k; i++) r += (char)('A' + i % 26); for (const str_t &t : {pat, "-" + pat, pat + "-", "-" + pat + "--", pat + pat, pat + "-" + pat, "--" + pat + "-" + pat + "-"}) for (int prep : {0, 1}) {
        for (int op : {REPL, REPLF, REPLL, INSB, INSA}) one(op, t, pat, r, prep); if (k == 0) for (int op : {FIND, COUNT, REMF, REML, REMA, PREFIX}) one(op, t, pat, "", prep); } }
}
}
namespace {
str_t fill(size_t n, int salt) { str_t w; for (size_t i = 0; i < n; i++) w += (char)('A' + (i * 5 + salt * 3) % 26); return w; } // never contains a small letter
// every (bytes before, bytes behind, pattern length) with one match, two matches, and insertions of every short length
void cube(size_t p) {
    describe = desc; for (size_t q = 0; q <= 44; q++) for (size_t k = 1; k <= 16; k++) { str_t pat; for (size_t i = 0; i < k; i++) pat += (char)('a' + (i + k) % 26); str_t t = fill(p, 1) + pat + fill(q, 2); int prep = (p + q + k) % 5; if (prep > 2) prep = prep == 3 ? 4 : 6;
        for (int op : {FIND, REMF, REML, REMA, REMC, PREFIX}) one(op, t, pat, "", prep); for (size_t r : {(size_t)1, k, k + 1, 2 * k + 3}) for (int op : {REPL, REPLF, REPLL}) one(op, t, pat, fill(r, 7), prep);
        if (q < 4 || q == p) for (size_t r = 1; r <= 24; r++) { one(INSB, t, pat, fill(r, 7), prep); one(INSA, t, pat, fill(r, 7), prep); } else { one(INSB, t, pat, fill(1 + (p + k) % 9, 7), prep); one(INSA, t, pat, fill(1 + (q + k) % 9, 7), prep); }
        if (k % 3 == 1) { str_t u = t + pat + fill(q % 6, 3); for (int op : {COUNT, REML, REMA, REMF}) one(op, u, pat, "", prep); for (int op : {REPL, REPLL, REPLF}) { one(op, u, pat, fill(k, 7), prep); one(op, u, pat, fill(k + 2, 7), prep); } } }
}
// sets of every size, each member and some other bytes present in the text
void sets(size_t lo, size_t hi) { describe = desc; for (size_t n = lo; n < hi; n++) { str_t set, r; for (size_t i = 0; i < n; i++) { set += (char)(1 + (i * 37 + n) % 255); r += (char)(1 + (i * 11 + 5) % 255); } str_t t; for (int c = 1; c < 256; c++) t += (char)(1 + (c * 101) % 255); t += t.substr(0, n); for (int prep : {0, 1, 2, 4}) { one(REMC, t, set, "", prep); one(REPC, t, set, r, prep); one(REPC, t, set, r.substr(0, (n + 1) / 2), prep); one(REPC, t, set, "Q", prep); } } }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    auto t2 = words("ab", 0, T ? 9 : 6), t3 = words("abc", 0, T ? 6 : 4), p2 = words("ab", 1, T ? 4 : 3), r2 = words("ab", 0, T ? 4 : 3), p3 = words("abc", 1, 2), r3 = words("abc", 0, 2);
    auto addj = [&](const char *n, std::vector<std::string> t, std::vector<std::string> p, std::vector<std::string> r, size_t chunk) { for (size_t lo = 0; lo < t.size(); lo += chunk) add_job(std::string(n) + std::to_string(lo), [=] { all_ops(t, p, r, lo, lo + chunk); }); };
    addj("ab_", t2, p2, r2, 8); addj("abc_", t3, p3, r3, 8);
    add_job("empty_pattern", empty_pattern); add_job("bytes", bytes);
    for (size_t lo = 1; lo < (T ? 320u : 200u); lo += 8) add_job("planted_" + std::to_string(lo), [=] { planted(lo, std::min<size_t>(lo + 8, T ? 320 : 200)); });
    for (size_t n : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 70001}) add_job("large_" + std::to_string(n), [=] { large(n); });
    for (size_t m = 1; m <= 40; m++) add_job("lengths_" + std::to_string(m), [=] { lengths(m); }); for (size_t m : {63, 64, 65, 127, 128, 129, 255, 256, 257}) add_job("lengths_" + std::to_string(m), [=] { lengths(m); });
    for (int k = 0; k < 6; k++) add_job("huge_crowd_" + std::to_string(k), [=] { crowd(k); });
    for (size_t p = 0; p <= 44; p++) add_job("cube_" + std::to_string(p), [=] { cube(p); }); for (size_t lo = 1; lo < 255; lo += 16) add_job("sets_" + std::to_string(lo), [=] { sets(lo, std::min<size_t>(lo + 16, 255)); });
    add_job("many", [=] { many(T ? 120 : 40); });
    return run_main(argc, argv, "C04");
}
