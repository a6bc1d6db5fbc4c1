// fileops.hpp - the library's write operations as a table, with the effect each one calls for.
#pragma once
#include "strutil.hpp"
#include <fcntl.h>
namespace mc {
struct WOp { const char *name; bool append, ln; std::function<bool(const char *, const std::string &)> call; };
inline const std::vector<WOp> &wops() {
    static const std::vector<WOp> w = [] {
        std::vector<WOp> v;
        v.push_back({"write", false, false, [](const char *f, const std::string &s) { Z z(s); return vt_file_write(f, z); }});
        v.push_back({"writeln", false, true, [](const char *f, const std::string &s) { Z z(s); return vt_file_writeln(f, z); }});
        v.push_back({"writeb", false, false, [](const char *f, const std::string &s) { Z z(s); return vt_file_writeb(f, z); }});
        v.push_back({"writebln", false, true, [](const char *f, const std::string &s) { Z z(s); return vt_file_writebln(f, z); }});
        v.push_back({"append", true, false, [](const char *f, const std::string &s) { Z z(s); return vt_file_append(f, z); }});
        v.push_back({"appendln", true, true, [](const char *f, const std::string &s) { Z z(s); return vt_file_appendln(f, z); }});
        v.push_back({"appendb", true, false, [](const char *f, const std::string &s) { Z z(s); return vt_file_appendb(f, z); }});
        v.push_back({"appendbln", true, true, [](const char *f, const std::string &s) { Z z(s); return vt_file_appendbln(f, z); }});
        v.push_back({"writef", false, false, [](const char *f, const std::string &s) { Z z(s); return vt_file_writef(f, "%s", (const char *)z); }});
        v.push_back({"writefln", false, true, [](const char *f, const std::string &s) { Z z(s); return vt_file_writefln(f, "%s", (const char *)z); }});
        for (int m = 0; m < 8; m++) { static const char *n[] = {"writefc()", "writefc(ln)", "writefc(app)", "writefc(app,ln)", "writefc(bin)", "writefc(bin,ln)", "writefc(bin,app)", "writefc(bin,app,ln)"}; bool bin = m & 4, app = m & 2, ln = m & 1; v.push_back({n[m], app, ln, [=](const char *f, const std::string &s) { Z z(s); return vt_file_writefc(f, bin, app, ln, "%s", (const char *)z); }}); }
        return v;
    }();
    return w;
}
inline bool raw_read(const std::string &f, std::string &out) { out.clear(); int fd = ::open(f.c_str(), O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) out.append(b, n); ::close(fd); return n == 0; }
inline void raw_write(const std::string &f, const std::string &s) { int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); CHECK(fd >= 0, "harness cannot write %s: %s", f.c_str(), strerror(errno)); size_t o = 0; while (o < s.size()) { ssize_t n = ::write(fd, s.data() + o, s.size() - o); CHECK(n > 0, "harness cannot write %s", f.c_str()); o += n; } ::close(fd); }
inline size_t fd_count() { size_t n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
inline std::string pattern(size_t n, unsigned seed = 0) { std::string s(n, 0); for (size_t i = 0; i < n; i++) { unsigned c = (unsigned)(i * 7 + seed * 13 + i / 251) % 255 + 1; s[i] = (char)c; } return s; }
inline std::string brief(const std::string &s) { return s.size() <= 60 ? show(s) : show(s.substr(0, 40)) + "... (" + std::to_string(s.size()) + " bytes)"; }
} // namespace mc
