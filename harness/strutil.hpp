// strutil.hpp - helpers shared by the string checks.
#pragma once
#include "mc.hpp"
namespace mc {
// exact-size heap copy of a C string: any read before or past it is caught by ASan
struct Z { char *p; Z(const std::string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; } ~Z() { free(p); } Z(const Z &) = delete; Z &operator=(const Z &) = delete; operator const char *() const { return p; } };
inline void check_str(const vt_str_t *s, const std::string &want, const char *when) {
    CHECK(s != nullptr, "%s: no string", when);
    CHECK(vt_str_len(s) == want.size(), "%s: length %zu, expected %zu (%s); text %s", when, vt_str_len(s), want.size(), show(want).c_str(), show(std::string(vt_str_z(s), strnlen(vt_str_z(s), vt_str_capacity(s)))).c_str());
    size_t cap = vt_str_capacity(s);
    CHECK(cap >= want.size(), "%s: capacity %zu < length %zu", when, cap, want.size());
    CHECK(mem_ok(vt_str_z(s), cap + 1), "%s: capacity %zu (+ terminator) promises more memory than the string owns", when, cap);
    CHECK(memcmp(vt_str_z(s), want.data(), want.size()) == 0, "%s: text %s, expected %s", when, show(std::string(vt_str_z(s), want.size())).c_str(), show(want).c_str());
    CHECK(vt_str_z(s)[want.size()] == 0, "%s: not terminated at its length %zu", when, want.size());
    CHECK(vt_str_has_space(s) == cap - want.size(), "%s: has_space %zu, capacity %zu, length %zu", when, vt_str_has_space(s), cap, want.size());
    CHECK(vt_str_is_empty(s) == want.empty(), "%s: is_empty", when);
}
// all strings over `alpha` of length lo..hi
inline std::vector<std::string> words(const std::string &alpha, size_t lo, size_t hi) {
    std::vector<std::string> r, cur{""};
    for (size_t n = 0; n <= hi; n++) {
        if (n >= lo) r.insert(r.end(), cur.begin(), cur.end());
        if (n == hi) break;
        std::vector<std::string> nx; nx.reserve(cur.size() * alpha.size());
        for (auto &w : cur) for (char c : alpha) nx.push_back(w + c);
        cur.swap(nx);
    }
    return r;
}
// creates a library string holding w (w may be empty) with `slack` extra capacity
inline vt_str_t *mkstr(const std::string &w, vt_mallocator_t *al = nullptr, size_t slack = 0) {
    vt_str_t *s;
    if (w.empty()) s = vt_str_create_capacity(1 + slack, al);
    else { Z z(w); s = vt_str_create(z, al); if (slack) vt_str_reserve(s, slack); }
    return s;
}
inline std::string str(const vt_str_t *s) { return std::string(vt_str_z(s), vt_str_len(s)); }
inline uint64_t H(const std::string &a, uint64_t b = 0, uint64_t c = 0) { return hash_bytes(&b, 8, hash_bytes(&c, 8, hash_str(a))); }
} // namespace mc
