// C19: every point at which the medium can refuse data, for every write operation.
#include "fileops.hpp"
using namespace mc;
namespace {
std::string D; std::string desc() { return D; }
std::string DIRN; size_t FDS;
void enter(const std::string &job) { DIRN = std::string(scratch_dir()) + "/" + job; ::mkdir(DIRN.c_str(), 0755); describe = desc; signal(SIGXFSZ, SIG_IGN); FDS = fd_count(); }
void quiet() { CHECK(open_streams() == 0, "the stream was not closed"); CHECK(fd_count() == FDS, "a descriptor stayed open"); CHECK(live_count() == 0, "leak"); }
std::string eff(const WOp &w, const std::string &old, const std::string &c) { return (w.append ? old : "") + c + (w.ln ? "\n" : ""); }
const std::vector<size_t> LENS{0, 1, 2, 5, 30, 100, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 9000, 70000};
// the medium is full after `limit` bytes: a file-size limit on a real file
void limited(size_t o, size_t oldlen) {
    const WOp &w = wops()[o]; std::string f = DIRN + "/f", old = pattern(oldlen, 5);
    for (size_t n : LENS) {
        if (n > 9000 && !thorough() && oldlen) continue;
        std::string c = pattern(n, 1), want = eff(w, old, c); std::set<size_t> ks; size_t T = want.size();
        if (n <= (thorough() ? 9000u : 1025u)) for (size_t k = 0; k <= T + 1; k++) ks.insert(k);
        for (size_t b : {(size_t)0, (size_t)1, oldlen, oldlen + 1, (size_t)512, (size_t)1023, (size_t)1024, (size_t)1025, (size_t)4095, (size_t)4096, (size_t)4097, (size_t)8191, (size_t)8192, (size_t)8193, T ? T - 1 : 0, T > 1 ? T - 2 : 0, T, T + 1, T / 2, (T / 4096) * 4096}) if (b <= T + 1) ks.insert(b);
        for (size_t k : ks) {
            if (w.append && k < oldlen) { /* the file already exceeds the limit */ }
            raw_write(f, old); D = std::string(w.name) + " of " + std::to_string(n) + " bytes over " + std::to_string(oldlen) + ", medium full after " + std::to_string(k); step();
            struct rlimit save, lim; getrlimit(RLIMIT_FSIZE, &save); lim = save; lim.rlim_cur = k; CHECK(setrlimit(RLIMIT_FSIZE, &lim) == 0, "harness: setrlimit");
            bool r = w.call(f.c_str(), c); setrlimit(RLIMIT_FSIZE, &save);
            std::string got; raw_read(f, got); bool adds = !c.empty() || w.ln;
            if (k >= T || !adds) { CHECK(r, "reported failure although nothing was refused"); CHECK(got == want, "reported success but the file holds %s, expected %s", brief(got).c_str(), brief(want).c_str()); }
            else { count(C_FAULTS); CHECK(!r, "reported success although only %zu of %zu bytes reached the file", got.size(), T); }
            quiet(); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(w.name, n * 1000003 + k * 7 + r));
        }
    }
}
// a stream that records what reaches it and refuses at a chosen point
struct Med { std::string data; size_t capacity = SIZE_MAX; long fail_call = -1; long calls = 0; bool refused = false; int close_result = 0; size_t bufsize = BUFSIZ; bool used = false; int err = ENOSPC; } MED;
ssize_t ck_write(void *, const char *b, size_t n) { long c = MED.calls++; if (c == MED.fail_call) { MED.refused = true; errno = MED.err; return 0; } size_t room = MED.capacity > MED.data.size() ? MED.capacity - MED.data.size() : 0; size_t k = std::min(n, room); MED.data.append(b, k); if (k < n) { MED.refused = true; errno = MED.err; } return (ssize_t)k; }
int ck_close(void *) { if (MED.close_result) { errno = EIO; return -1; } return 0; }
char SBUF[1 << 16];
FILE *ck_fopen(const char *, const char *mode) { MED.used = true; cookie_io_functions_t io = {nullptr, ck_write, nullptr, ck_close}; FILE *f = fopencookie(&MED, mode, io); if (f) { if (MED.bufsize == 0) setvbuf(f, nullptr, _IONBF, 0); else setvbuf(f, SBUF, _IOFBF, MED.bufsize); } return f; }
void one(const WOp &w, const std::string &c, const char *what) {
    std::string want = eff(w, "", c); D = std::string(w.name) + " of " + std::to_string(c.size()) + " bytes, " + what; step();
    hooks.fopen = ck_fopen; bool r = w.call((DIRN + "/cookie").c_str(), c); hooks.fopen = nullptr;
    if (!MED.used) { count(C_EVALS); return; } // does not go through stdio: the file-size limit above decides
    bool bad = MED.refused || MED.close_result;
    if (bad) { count(C_FAULTS); CHECK(!r, "reported success although the medium refused (%zu of %zu bytes arrived, close %s)", MED.data.size(), want.size(), MED.close_result ? "failed" : "ok"); } else { CHECK(r, "reported failure although nothing was refused"); CHECK(MED.data == want, "reported success but the medium holds %s, expected %s", brief(MED.data).c_str(), brief(want).c_str()); }
    quiet(); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(w.name, hash_str(what) + c.size() * 3 + r + MED.bufsize * 77));
}
void cookies(size_t o) {
    const WOp &w = wops()[o]; std::vector<std::string> conts; for (size_t n : {0, 1, 2, 3, 17, 40, 300}) { conts.push_back(pattern(n, 4)); } conts.push_back("a\nb\nc\n"); conts.push_back("\n"); for (size_t n : {1024, 5000}) conts.push_back(pattern(n, 6));
    for (size_t bs : {0, 7, 1, 16, 1024, 65536}) for (auto &c : conts) {
        size_t T = eff(w, "", c).size(); std::set<size_t> ks; for (size_t k = 0; k <= std::min<size_t>(T + 1, thorough() ? 6000 : 310); k++) ks.insert(k); for (size_t k : {T, T - 1, T + 1, (size_t)1023, (size_t)1024, (size_t)1025}) if (k <= T + 1) ks.insert(k);
        for (size_t k : ks) { MED = Med(); MED.bufsize = bs; MED.capacity = k; char b[120]; snprintf(b, sizeof b, "stream buffer %zu, medium full after %zu", bs, k); one(w, c, b); }
        // one refused transfer among otherwise successful ones
        MED = Med(); MED.bufsize = bs; one(w, c, "nothing refused"); long calls = MED.calls;
        for (long j = 0; j < std::min(calls, thorough() ? 400L : 60L); j++) for (int e : {ENOSPC, EINTR, EIO, EAGAIN}) { MED = Med(); MED.bufsize = bs; MED.fail_call = j; MED.err = e; char b[120]; snprintf(b, sizeof b, "stream buffer %zu, transfer %ld refused with errno %d", bs, j, e); one(w, c, b); }
        MED = Med(); MED.bufsize = bs; MED.close_result = -1; char b[120]; snprintf(b, sizeof b, "stream buffer %zu, closing fails", bs); one(w, c, b);
        MED = Med(); MED.bufsize = bs; MED.close_result = -1; MED.capacity = 0; snprintf(b, sizeof b, "stream buffer %zu, everything fails", bs); one(w, c, b);
    }
}
void devices(size_t o) {
    const WOp &w = wops()[o];
    for (size_t n : LENS) { std::string c = pattern(n, 2); bool adds = !c.empty() || w.ln; D = std::string(w.name) + " of " + std::to_string(n) + " bytes to /dev/full"; step(); bool r = w.call("/dev/full", c); if (adds) { count(C_FAULTS); CHECK(!r, "reported success"); } else CHECK(r, "reported failure for nothing to write"); quiet(); D = std::string(w.name) + " to /dev/null"; step(); CHECK(w.call("/dev/null", c), "reported failure"); quiet(); count(C_TRANS, 2); count(C_TRACES, 2); count(C_EVALS, 2); outcome(hash_str(w.name, n)); }
    ::mkdir((DIRN + "/d").c_str(), 0755); raw_write(DIRN + "/plain", "p"); ::symlink("loop", (DIRN + "/loop").c_str());
    for (std::string p : {DIRN + "/none/f", DIRN + "/d", DIRN + "/plain/f", std::string(""), DIRN + "/" + std::string(300, 'n'), DIRN + "/loop"}) for (size_t n : {0, 1, 5000}) { D = std::string(w.name) + " of " + std::to_string(n) + " bytes to " + p; step(); CHECK(!w.call(p.c_str(), pattern(n)), "reported success"); count(C_FAULTS); quiet(); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(p, n)); }
    // no descriptor left
    struct rlimit save, lim; getrlimit(RLIMIT_NOFILE, &save); lim = save; lim.rlim_cur = FDS; std::string f = DIRN + "/f"; raw_write(f, "old"); D = std::string(w.name) + " with no descriptor left"; step(); setrlimit(RLIMIT_NOFILE, &lim); bool r = w.call(f.c_str(), "data"); setrlimit(RLIMIT_NOFILE, &save); std::string g; raw_read(f, g); if (r) CHECK(g == eff(w, "old", "data"), "reported success but holds %s", g.c_str()); else CHECK(g == "old", "a failed open changed the file to %s", g.c_str()); count(C_FAULTS); quiet(); count(C_TRANS); count(C_TRACES); count(C_EVALS);
    // a failure does not poison later operations
    D = std::string(w.name) + " after a failure"; step(); w.call("/dev/full", "x"); CHECK(w.call(f.c_str(), "good"), "reported failure"); raw_read(f, g); CHECK(g == eff(w, "old", "good"), "holds %s", g.c_str()); quiet();
}
// a format the C library cannot produce (a wide character outside the locale): nothing may be reported as written
void unformattable() {
    static const wchar_t bad[] = {L'a', (wchar_t)0x7fffffff, 0}; std::string f = DIRN + "/f"; const char *fmts[] = {"%ls", "abc %ls", "%ls def", "l1\nl2 %ls\nl3\n", "%%%ls"};
    for (const char *fm : fmts) for (int k = 0; k < 10; k++) for (int pre = 0; pre < 2; pre++) { D = std::string("format ") + show(fm) + " with an impossible character, function " + std::to_string(k); step(); if (pre) raw_write(f, "old"); else ::unlink(f.c_str()); bool r = k == 0 ? vt_file_writef(f.c_str(), fm, bad) : k == 1 ? vt_file_writefln(f.c_str(), fm, bad) : vt_file_writefc(f.c_str(), (k - 2) & 4, (k - 2) & 2, (k - 2) & 1, fm, bad); count(C_FAULTS); CHECK(!r, "reported success"); quiet(); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(fm, k * 2 + pre)); CHECK(vt_file_write(f.c_str(), "good"), "a later write failed"); std::string g; CHECK(raw_read(f, g) && g == "good", "a later write left %s", brief(g).c_str()); }
}
// formats that carry the text themselves, of every kind, to files that cannot be opened, are full, or become full at every byte
void literals() {
    std::string big = pattern(5000, 4); for (char &c : big) if (c == '%' || c == 0) c = '.'; std::vector<std::string> fmts{"", "x", "%%", "a\nb\n", "%d", "%d,%d\n", "%c%c", "%.0d", "%5000d", big, big + "%d"};
    ::mkdir((DIRN + "/d").c_str(), 0755); std::string f = DIRN + "/f"; struct rlimit save, lim; getrlimit(RLIMIT_FSIZE, &save);
    auto call = [](int k, const char *p, const char *fm) { return k == 0 ? vt_file_writef(p, fm, 7, 0) : k == 1 ? vt_file_writefln(p, fm, 7, 0) : vt_file_writefc(p, (k - 2) & 4, (k - 2) & 2, (k - 2) & 1, fm, 7, 0); };
    for (auto &fm : fmts) for (int k = 0; k < 10; k++) { bool app = k >= 2 && ((k - 2) & 2), ln = k == 1 || (k >= 2 && ((k - 2) & 1)); std::vector<char> tb(12000); int n = snprintf(tb.data(), tb.size(), fm.c_str(), 7, 0); std::string c = std::string(tb.data(), (size_t)n) + (ln ? "\n" : "");
        for (std::string p : {DIRN + "/none/f", DIRN + "/d", std::string(""), std::string("/dev/full")}) { if (p == "/dev/full" && c.empty()) continue; D = "format " + brief(fm) + " written by function " + std::to_string(k) + " to " + p; step(); count(C_FAULTS); CHECK(!call(k, p.c_str(), fm.c_str()), "reported success"); quiet(); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(D)); }
        for (std::string old : {std::string(""), std::string("old!")}) { std::string want = (app ? old : "") + c; std::set<size_t> rooms; for (size_t r = 0; r <= want.size() + 1; r++) if (r < 24 || r + 3 > want.size() || r % 509 == 0 || (r % 4096) < 2) rooms.insert(r); for (size_t room : rooms) {
            D = "format " + brief(fm) + " written by function " + std::to_string(k) + " over " + brief(old) + ", file limited to " + std::to_string(room); step(); raw_write(f, old); lim = save; lim.rlim_cur = room; setrlimit(RLIMIT_FSIZE, &lim); bool r = call(k, f.c_str(), fm.c_str()); setrlimit(RLIMIT_FSIZE, &save); std::string g; raw_read(f, g); bool fits = want.size() <= room || (app && c.empty());
            if (fits) { CHECK(r, "reported failure although nothing was refused"); CHECK(g == want, "holds %s, expected %s", brief(g).c_str(), brief(want).c_str()); } else { count(C_FAULTS); CHECK(!r, "reported success although only %zu of %zu bytes fit", g.size(), want.size()); } quiet(); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(fm, k * 100000 + room)); } } }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); add_job("literals", [] { enter("lit"); literals(); }); add_job("unformattable", [] { enter("unf"); unformattable(); }); for (size_t o = 0; o < wops().size(); o++) { for (size_t old : {0, 3, 4096}) add_job("limit_" + std::to_string(o) + "_" + std::to_string(old), [=] { enter("l" + std::to_string(o) + "_" + std::to_string(old)); limited(o, old); }); add_job("stream_" + std::to_string(o), [=] { enter("s" + std::to_string(o)); cookies(o); }); add_job("device_" + std::to_string(o), [=] { enter("d" + std::to_string(o)); devices(o); }); }
    return run_main(argc, argv, "C19");
}
