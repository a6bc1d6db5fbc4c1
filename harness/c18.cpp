// C18: file contents after every history of writes and appends; reading returns them.
#include "fileops.hpp"
using namespace mc;
namespace {
std::string D; std::string desc() { return D; }
std::string DIRN; std::string path(int i) { return DIRN + "/f" + std::to_string(i); }
size_t FDS;
void enter(const std::string &job) { DIRN = std::string(scratch_dir()) + "/" + job; ::mkdir(DIRN.c_str(), 0755); describe = desc; FDS = fd_count(); }
struct Fs { bool there[2] = {false, false}; std::string c[2]; };
void quiet(const char *when) { CHECK(open_streams() == 0, "%s: a stream stayed open", when); CHECK(fd_count() == FDS, "%s: %zu descriptors open, expected %zu", when, fd_count(), FDS); }
void read_back(int i, bool there, const std::string &want, bool full) {
    std::string f = path(i), got; bool ok = raw_read(f, got); CHECK(ok == there, "file %d %s", i, ok ? "exists" : "does not exist"); if (there) CHECK(got == want, "file %d holds %s, expected %s", i, brief(got).c_str(), brief(want).c_str());
    CHECK(vt_path_exists(f.c_str()) == there && vt_path_is_file(f.c_str()) == there && !vt_path_is_dir(f.c_str()), "existence of file %d", i); CHECK(vt_path_get_file_size(f.c_str()) == (there ? (int64_t)want.size() : -1), "size of file %d", i);
    count(C_TRANS, 4);
    for (int k = 0; k < (full ? 4 : 2); k++) {
        vt_mallocator_t *al = k >= 2 ? vt_mallocator_create() : nullptr; vt_str_t *s = k & 1 ? vt_file_readb(f.c_str(), al) : vt_file_read(f.c_str(), al);
        if (!there) CHECK(s == nullptr, "reading a missing file gave a string"); else { check_str(s, want, k & 1 ? "readb" : "read"); vt_str_append(s, "tail"); check_str(s, want + "tail", "appending to what was read"); vt_str_destroy(s); } if (al) vt_mallocator_destroy(al); count(C_TRANS);
    }
    if (full) { size_t n = want.size() + 3; char *b = (char *)malloc(n); memset(b, 0x7f, n); const char *r = vt_file_read_to_buffer(f.c_str(), b, n); if (!there) CHECK(!r, "reading a missing file into a buffer"); else { CHECK(r == b, "read_to_buffer returned %p", (void *)r); CHECK(!memcmp(b, want.data(), want.size()), "read_to_buffer read %s", brief(std::string(b, want.size())).c_str()); } free(b); count(C_TRANS); }
    CHECK(live_count() == 0, "reading leaked"); quiet("after reading");
}
const std::vector<std::string> CONT{"", "a", "b\nc", "%d%s%%\xff\x80"};
std::string eff(const WOp &w, const std::string &old, const std::string &c) { return (w.append ? old : "") + c + (w.ln ? "\n" : ""); }
void put(int i, bool there, const std::string &c) { if (there) raw_write(path(i), c); else ::unlink(path(i).c_str()); }
struct Act { int file; size_t op, cont; };
std::string act_str(const Act &a) { return std::string(wops()[a.op].name) + "(file " + std::to_string(a.file) + ", " + show(CONT[a.cont]) + ")"; }
void run_history(const std::vector<Act> &h, bool pre) {
    Fs fs; if (pre) { fs.there[0] = fs.there[1] = true; fs.c[0] = "old1\n"; fs.c[1] = "x"; }
    for (int i = 0; i < 2; i++) put(i, fs.there[i], fs.c[i]);
    D = pre ? "existing files" : "no files"; for (auto &a : h) D += "; " + act_str(a);
    step();
    for (auto &a : h) { const WOp &w = wops()[a.op]; bool r = w.call(path(a.file).c_str(), CONT[a.cont]); CHECK(r, "%s failed", w.name); fs.c[a.file] = eff(w, fs.there[a.file] ? fs.c[a.file] : "", CONT[a.cont]); fs.there[a.file] = true; count(C_TRANS); CHECK(open_streams() == 0, "%s left a stream open", w.name); }
    for (int i = 0; i < 2; i++) read_back(i, fs.there[i], fs.c[i], h.size() == 1);
    CHECK(live_count() == 0, "leak"); count(C_TRACES); count(C_EVALS); outcome(hash_str(fs.c[0] + "|" + (fs.there[0] ? "1" : "0"), hash_str(fs.c[1], fs.there[1])));
}
void rec_hist(std::vector<Act> &h, size_t depth, int nfiles, size_t nops, const std::vector<size_t> &conts, bool pre) { if (!h.empty()) run_history(h, pre); if (h.size() == depth) return; for (int f = 0; f < nfiles; f++) for (size_t o = 0; o < nops; o++) for (size_t c : conts) { h.push_back({f, o, c}); rec_hist(h, depth, nfiles, nops, conts, pre); h.pop_back(); } }
void lengths(size_t shard, size_t nsh) {
    std::vector<size_t> ls; size_t small = thorough() ? 5000 : 600; for (size_t i = 0; i <= small; i++) ls.push_back(i); for (size_t b : {1024, 4096, 8192, 16384, 65536, 131072}) for (long d = -3; d <= 3; d++) ls.push_back(b + d); if (thorough()) ls.push_back(3000000);
    for (size_t li = 0; li < ls.size(); li++) if (li % nsh == shard) for (size_t o = 0; o < wops().size(); o++) {
        if (ls[li] > small && o >= 10 && !thorough()) continue;
        size_t n = ls[li]; std::string c = pattern(n, (unsigned)o), old = pattern((li * 3 + o) % 41, 9); D = std::string(wops()[o].name) + " of " + std::to_string(n) + " bytes over " + std::to_string(old.size()); put(0, true, old); put(1, false, ""); step();
        CHECK(wops()[o].call(path(0).c_str(), c), "%s failed", wops()[o].name); read_back(0, true, eff(wops()[o], old, c), true); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(n * 32 + o);
    }
}
void buffers(size_t shard, size_t nsh) {
    size_t M = thorough() ? 400 : 170; std::vector<size_t> sz; for (size_t i = 0; i <= M; i++) sz.push_back(i); for (size_t b : {4096, 8192}) for (int d = -2; d <= 2; d++) sz.push_back(b + d);
    for (size_t i = 0; i < sz.size(); i++) if (i % nsh == shard) { std::string c = pattern(sz[i], 3); if (sz[i]) c[sz[i] / 2] = 0; raw_write(path(0), c); for (size_t n : sz) if (n) {
        D = "reading a file of " + std::to_string(sz[i]) + " bytes into a buffer of " + std::to_string(n); step(); char *b = (char *)malloc(n); memset(b, 0x7f, n); const char *r = vt_file_read_to_buffer(path(0).c_str(), b, n);
        CHECK(r == b, "returned %p", (void *)r); CHECK(!memcmp(b, c.data(), std::min(n, c.size())), "wrong bytes"); free(b); quiet("read_to_buffer"); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(n * 10000 + sz[i]);
    } read_back(0, true, c, true); }
    if (shard == 0) for (int b = 0; b < 256; b++) { std::string c = std::string("x") + (char)b + "y" + (char)b; D = "a file with byte " + std::to_string(b); step(); raw_write(path(0), c); read_back(0, true, c, true); if (b) for (auto &w : wops()) { CHECK(w.call(path(0).c_str(), c), "%s", w.name); read_back(0, true, eff(w, c, c), false); raw_write(path(0), c); } }
}
void over(size_t oldn) { // new contents over and after an earlier, larger or smaller file; buffers of unequal size
    std::vector<size_t> ns{0, 1, 100, 4096, 4097, 65535, 65536, 65537, 70001}; if (thorough()) ns.push_back(1100000);
    std::string old = pattern(oldn, 9); for (size_t n : ns) { std::string c = pattern(n, 3); for (size_t o = 0; o < wops().size(); o++) { D = std::string(wops()[o].name) + " of " + std::to_string(n) + " bytes over " + std::to_string(oldn); put(0, true, old); step(); CHECK(wops()[o].call(path(0).c_str(), c), "%s failed", wops()[o].name); read_back(0, true, eff(wops()[o], old, c), true); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(n * 32 + o); }
        D = "reading " + std::to_string(oldn) + " bytes into a buffer of " + std::to_string(n); if (n) { put(0, true, old); step(); char *b = (char *)malloc(n); memset(b, 0x7f, n); const char *r = vt_file_read_to_buffer(path(0).c_str(), b, n); CHECK(r == b, "returned %p", (void *)r); CHECK(!memcmp(b, old.data(), std::min(n, oldn)), "wrong bytes"); free(b); quiet("read_to_buffer"); count(C_TRANS); count(C_TRACES); count(C_EVALS); } }
}
void many(size_t n) { std::string want; D = std::to_string(n) + " appends, then reading"; step(); put(0, false, ""); for (size_t i = 0; i < n; i++) { std::string c = "line " + std::to_string(i); auto &w = wops()[4 + i % 4]; CHECK(w.call(path(0).c_str(), c), "%s failed", w.name); want += c + (w.ln ? "\n" : ""); count(C_TRANS); if (i % 64 == 0) step(); } read_back(0, true, want, true); count(C_TRACES); count(C_EVALS); outcome(hash_str(want)); }
// ---- reading while the system refuses: the size query fails, or the data stops (error or early end) at every byte
struct Med { std::string data; size_t upto, pos; bool err; int chunk; } MED; int STATN, STATFAIL; long SIZEOFF;
ssize_t md_read(void *, char *b, size_t n) { size_t left = MED.upto - MED.pos; if (!left) { if (MED.err) { errno = EIO; return -1; } return 0; } size_t k = std::min(n, left); if (MED.chunk) k = std::min(k, (size_t)MED.chunk); memcpy(b, MED.data.data() + MED.pos, k); MED.pos += k; return (ssize_t)k; }
FILE *md_fopen(const char *, const char *m) { cookie_io_functions_t io = {md_read, nullptr, nullptr, nullptr}; return fopencookie(&MED, m, io); }
int f_stat(const char *p, struct stat *st, bool nf) { if (STATN++ == STATFAIL) { errno = EACCES; return -1; } int r = nf ? ::lstat(p, st) : ::stat(p, st); if (!r) st->st_size += SIZEOFF; return r; }
int f_fstat(int fd, struct stat *st) { if (STATN++ == STATFAIL) { errno = EIO; return -1; } int r = ::fstat(fd, st); if (!r) st->st_size += SIZEOFF; return r; }
void read_faults() {
    auto one = [&](int how, const std::function<void(bool, const std::string &)> &judge, size_t n) { // how: 0 read, 1 readb, 2 to buffer, 3/4 with allocator
        vt_mallocator_t *al = how >= 3 ? vt_mallocator_create() : nullptr; size_t base = live_count(); std::string f = path(0); bool ok; std::string got; char *b = nullptr;
        if (how == 2) { b = (char *)malloc(n + 2); memset(b, 0x7f, n + 2); const char *r = vt_file_read_to_buffer(f.c_str(), b, n + 2); CHECK(!r || r == b, "returned another buffer"); ok = r; got.assign(b, n); } else { vt_str_t *s = how & 1 ? vt_file_readb(f.c_str(), al) : vt_file_read(f.c_str(), al); ok = s; if (s) { got.assign((const char *)s->ptr, s->len); CHECK(((const char *)s->ptr)[s->len] == 0 && s->capacity >= s->len, "malformed string"); vt_str_destroy(s); } }
        CHECK(open_streams() == 0, "the stream stayed open"); CHECK(live_count() == base, "%zu blocks stayed allocated", live_count() - base); if (al) vt_mallocator_destroy(al); CHECK(live_count() == 0, "destroying the allocator leaked"); judge(ok, got); free(b); count(C_TRANS); count(C_TRACES); count(C_EVALS); count(C_FAULTS); };
    for (size_t n : {1, 2, 3, 7, 40, 4095, 4096, 4097, 9000}) { std::string c = pattern(n, 5); put(0, true, c);
        for (int how = 0; how < 5; how++) {
            for (int err = 0; err < 2; err++) for (int chunk : {0, 1, 3}) for (size_t k = 0; k < n; k += (n <= 40 ? 1 : 911)) { D = "read function " + std::to_string(how) + " on " + std::to_string(n) + " bytes that " + (err ? "fail" : "end") + " after " + std::to_string(k) + ", delivered in chunks of " + std::to_string(chunk); step(); MED = {c, k, 0, err == 1, chunk}; hooks.fopen = md_fopen; one(how, [&](bool ok, const std::string &g) { hooks.fopen = nullptr; if (err) CHECK(!ok, "reported success"); else CHECK(!ok || g.compare(0, std::string::npos, how == 2 ? g : c.substr(0, k)) == 0, "gave %s", brief(g).c_str()); }, n); outcome(hash_str(D)); }
            for (int sf = -1; sf < 3; sf++) for (long off : {0, -1, 1, 100}) { if ((long)n + off < 0) continue; D = "read function " + std::to_string(how) + " on " + std::to_string(n) + " bytes, size query " + std::to_string(sf) + " fails, size reported off by " + std::to_string(off); step(); STATN = 0; STATFAIL = sf; SIZEOFF = off; hooks.stat = f_stat; hooks.fstat = f_fstat; one(how, [&](bool ok, const std::string &g) { hooks.stat = nullptr; hooks.fstat = nullptr; if (sf < 0 && off == 0) CHECK(ok && g == c, "did not read the file"); else if (ok && how != 2) CHECK(g.size() <= n && c.compare(0, g.size(), g) == 0, "gave %zu bytes that are not the file's", g.size()); if (ok && off >= 0) CHECK(g.compare(0, n, c) == 0, "gave part of the file"); }, n); outcome(hash_str(D)); }
        } }
}
void refused() {
    ::mkdir((DIRN + "/sub").c_str(), 0755); raw_write(DIRN + "/plain", "p"); ::symlink("nowhere", (DIRN + "/dangling").c_str()); ::symlink("loop", (DIRN + "/loop").c_str());
    std::vector<std::string> bad{DIRN + "/none/f", DIRN + "/sub", DIRN + "/plain/f", "", DIRN + "/" + std::string(300, 'n'), DIRN + "/loop", DIRN + "/sub/"};
    for (auto &p : bad) {
        for (auto &w : wops()) { D = std::string(w.name) + " to " + p; step(); CHECK(!w.call(p.c_str(), "data"), "reported success"); quiet(w.name); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(D)); }
        for (int k = 0; k < 3; k++) { D = "reading " + p; step(); char *b = (char *)malloc(8); if (k == 0) { vt_str_t *s = vt_file_read(p.c_str(), nullptr); CHECK(!s, "read gave a string"); } else if (k == 1) { vt_str_t *s = vt_file_readb(p.c_str(), nullptr); CHECK(!s, "readb gave a string"); } else CHECK(!vt_file_read_to_buffer(p.c_str(), b, 8), "read_to_buffer succeeded"); free(b); CHECK(live_count() == 0, "leak"); quiet("failed read"); count(C_TRANS); count(C_TRACES); count(C_EVALS); }
    }
    std::string g; CHECK(raw_read(DIRN + "/plain", g) && g == "p", "an unrelated file changed"); struct stat st; CHECK(stat((DIRN + "/none").c_str(), &st) != 0, "a failed write left something behind");
    D = "reading a dangling link"; step(); CHECK(!vt_file_read((DIRN + "/dangling").c_str(), nullptr), "read of a dangling link"); CHECK(vt_file_write((DIRN + "/dangling").c_str(), "via"), "write through a link"); CHECK(raw_read(DIRN + "/nowhere", g) && g == "via", "written through a link: %s", g.c_str()); vt_str_t *s = vt_file_read((DIRN + "/dangling").c_str(), nullptr); check_str(s, "via", "read through a link"); vt_str_destroy(s);
}
void formats() {
    struct F { const char *name; std::function<bool(const char *)> f; std::string want; bool app; };
    std::string big = pattern(5000, 2); static std::string keep; keep = big;
    std::vector<F> fs{
        {"writef literal", [](const char *p) { return vt_file_writef(p, "plain"); }, "plain", false}, {"writef empty", [](const char *p) { return vt_file_writef(p, "%s", ""); }, "", false},
        {"writef mixed", [](const char *p) { return vt_file_writef(p, "%d|%5s|%-4d|%%|%c|%.3f|%zu|%lld", -7, "ab", 3, 'q', 2.5, (size_t)SIZE_MAX, (long long)INT64_MIN); }, "-7|   ab|3   |%|q|2.500|18446744073709551615|-9223372036854775808", false},
        {"writefln mixed", [](const char *p) { return vt_file_writefln(p, "%x-%o-%s", 255, 8, "z"); }, "ff-10-z\n", false}, {"writefln newline", [](const char *p) { return vt_file_writefln(p, "%s", "\n"); }, "\n\n", false},
        {"writefc append ln", [](const char *p) { return vt_file_writefc(p, false, true, true, "%d%s", 1, "x"); }, "1x\n", true}, {"writefc bin append", [](const char *p) { return vt_file_writefc(p, true, true, false, "%c%c", 0xC3, 0xA9); }, "\xC3\xA9", true},
        {"writefc nul", [](const char *p) { return vt_file_writefc(p, true, false, true, "a%cb", 0); }, std::string("a\0b\n", 4), false}, {"writef big", [](const char *p) { return vt_file_writef(p, "%s%s", keep.c_str(), keep.c_str()); }, big + big, false}, {"writefc wide", [](const char *p) { return vt_file_writefc(p, false, true, true, "%6000d", 5); }, std::string(5999, ' ') + "5\n", true},
    };
    { // the format itself (not an argument) carries the text: every short format over letters, newline, %% and other bytes
        std::vector<std::pair<std::string, std::string>> toks{{"a", "a"}, {"\n", "\n"}, {"%%", "%"}, {"\r", "\r"}, {"\xe9", "\xe9"}, {"%s", "s\n"}, {"%.0s", ""}, {" ", " "}}; std::vector<std::pair<std::string, std::string>> cur{{"", ""}};
        for (int d = 0; d <= (thorough() ? 4 : 3); d++) { for (auto &w : cur) { int ns = 0; for (size_t i = 0; i + 1 < w.first.size(); i++) if (w.first[i] == '%') { if (w.first[i + 1] == '%') i++; else ns++; } if (ns > 4) continue; Z z(w.first);
            for (int k = 0; k < 10; k++) { bool app = k >= 2 && ((k - 2) & 2), ln = k == 1 || (k >= 2 && ((k - 2) & 1)); D = "format " + show(w.first) + " written by function " + std::to_string(k); put(0, true, "old\n"); step(); const char *f = path(0).c_str(); std::string pp = path(0); f = pp.c_str();
                bool r = k == 0 ? vt_file_writef(f, z, "s\n", "s\n", "s\n", "s\n") : k == 1 ? vt_file_writefln(f, z, "s\n", "s\n", "s\n", "s\n") : vt_file_writefc(f, (k - 2) & 4, app, ln, z, "s\n", "s\n", "s\n", "s\n"); CHECK(r, "failed");
                std::string got, want = (app ? "old\n" : "") + w.second + (ln ? "\n" : ""); CHECK(raw_read(pp, got) && got == want, "file holds %s, expected %s", brief(got).c_str(), brief(want).c_str()); quiet("formatted write"); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(want, k)); } }
            std::vector<std::pair<std::string, std::string>> nx; for (auto &w : cur) for (auto &t : toks) nx.push_back({w.first + t.first, w.second + t.second}); cur.swap(nx); } }
    for (auto &a : fs) for (auto &b : fs) for (bool pre : {false, true}) { D = std::string(a.name) + "; " + b.name + (pre ? " on an existing file" : ""); put(0, pre, "old"); step(); std::string m = pre ? "old" : ""; CHECK(a.f(path(0).c_str()), "%s failed", a.name); m = (a.app ? m : "") + a.want; CHECK(b.f(path(0).c_str()), "%s failed", b.name); m = (b.app ? m : "") + b.want; read_back(0, true, m, true); count(C_TRANS, 2); count(C_TRACES); count(C_EVALS); outcome(hash_str(m, pre)); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); size_t nw = wops().size();
    // all histories on one file over all contents (first operation sharded), on two files over two contents
    for (size_t o = 0; o < nw; o++) for (int pre = 0; pre < 2; pre++) {
        add_job("one_" + std::to_string(o) + "_" + std::to_string(pre), [=] { enter("one" + std::to_string(o) + std::to_string(pre)); size_t n = T ? nw : 10; for (size_t c = 0; c < CONT.size(); c++) { std::vector<Act> h{{0, o, c}}; rec_hist(h, o < 10 || T ? 3 : 2, 1, n, {0, 1, 2, 3}, pre); } });
        add_job("two_" + std::to_string(o) + "_" + std::to_string(pre), [=] { enter("two" + std::to_string(o) + std::to_string(pre)); for (int f = 0; f < 2; f++) for (size_t c : {0, 2}) { std::vector<Act> h{{f, o, c}}; rec_hist(h, T ? 3 : 2, 2, nw, {0, 2}, pre); } });
        if (T && o < 10) add_job("deep_" + std::to_string(o) + "_" + std::to_string(pre), [=] { enter("deep" + std::to_string(o) + std::to_string(pre)); for (size_t c : {1, 3}) { std::vector<Act> h{{0, o, c}}; rec_hist(h, 4, 1, 10, {1, 3}, pre); } });
    }
    for (size_t i = 0; i < 16; i++) { add_job("lengths_" + std::to_string(i), [=] { enter("len" + std::to_string(i)); lengths(i, 16); }); if (i < 8) add_job("buffers_" + std::to_string(i), [=] { enter("buf" + std::to_string(i)); buffers(i, 8); }); }
    for (size_t n : {0, 5, 4096, 65536, 70001, 140000, 1100000}) add_job("over_" + std::to_string(n), [=] { enter("over" + std::to_string(n)); over(n); }); for (size_t n : {300, 3000, 20000}) add_job("many_" + std::to_string(n), [=] { enter("many" + std::to_string(n)); many(n); });
    add_job("read_faults", [] { enter("rf"); read_faults(); }); add_job("refused", [] { enter("refused"); refused(); }); add_job("formats", [] { enter("formats"); formats(); });
    return run_main(argc, argv, "C18");
}
