// rt.cpp - runtime of mc.hpp: job scheduler, shared counters, and the seams the library objects are
// re-linked to (objcopy --redefine-syms redirect.syms is applied to the library's objects only).
#include "mc.hpp"
#include <sanitizer/asan_interface.h>
#include <dlfcn.h>
#include <sys/prctl.h>
#include <sanitizer/common_interface_defs.h>
#include <atomic>
#include <map>

namespace mc {

// ------------------------------------------------------------------ shared state
static const int MAXJOBS = 4096;
static const size_t OUT_SLOTS = 1u << 24;
struct Slot {
    std::atomic<uint64_t> beat;
    std::atomic<int> status; // 0 idle 1 running 2 done 3 failed
    char msg[2048];
    char desc[6144];
};
struct Shared {
    std::atomic<uint64_t> ctr[C_N];
    std::atomic<uint64_t> distinct;
    std::atomic<int> nsamples;
    char samples[24][512];
    std::atomic<int> nknown;
    char known[64][768];
    Slot slot[MAXJOBS];
    std::atomic<uint64_t> out[OUT_SLOTS];
};
static Shared *S;
static int g_jobidx = -1;
static bool g_thorough = false;
static bool g_confirm = false;
static const char *g_prop = "?";
static std::string g_scratch, g_scratch_real, g_note;
static std::vector<std::pair<std::string, std::function<void()>>> &jobs() {
    static std::vector<std::pair<std::string, std::function<void()>>> j;
    return j;
}
static std::set<std::string> &known_keys() { static std::set<std::string> k; return k; }

std::function<std::string()> describe;
Hooks hooks;
sigjmp_buf g_jmp; volatile bool g_guard = false; volatile int g_code = 0; volatile int g_how = 0;

void add_job(const std::string &name, std::function<void()> fn) { jobs().push_back({name, std::move(fn)}); }
bool thorough() { return g_thorough; }
static bool g_deep = false; static int g_cap = 0;
bool deep() { return g_deep; }
void parse_args(int argc, char **argv) { for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) g_thorough = true; else if (!strcmp(argv[i], "--deep")) g_thorough = g_deep = true; else if (!strcmp(argv[i], "--quick")) g_cap = 45; }
const char *scratch_dir() { return g_scratch.c_str(); }
void set_level_note(const std::string &s) { g_note = s; }

static uint64_t l_ctr[C_N];
static void flush_counters() { for (int i = 0; i < C_N; i++) { if (l_ctr[i]) { S->ctr[i] += l_ctr[i]; l_ctr[i] = 0; } } }
void count(Ctr c, uint64_t n) { l_ctr[c] += n; }
void step() {
    uint64_t b = S->slot[g_jobidx].beat.load(std::memory_order_relaxed) + 1;
    S->slot[g_jobidx].beat.store(b, std::memory_order_relaxed);
    if ((b == 37 || b == 4001) && !g_confirm && describe && S->nsamples < 12) { std::string d = describe(); if (!d.empty()) sample("[%s #%llu] %s", jobs()[g_jobidx].first.c_str(), (unsigned long long)b - 1, d.substr(0, 400).c_str()); }
}
void outcome(uint64_t h) {
    if (g_confirm) return;
    if (h == 0) h = 1;
    size_t i = (h * 0x9E3779B97F4A7C15ull) >> 40;
    for (int probes = 0; probes < 64; probes++, i = (i + 1) & (OUT_SLOTS - 1)) {
        uint64_t cur = S->out[i].load(std::memory_order_relaxed);
        if (cur == h) return;
        if (cur == 0) {
            uint64_t z = 0;
            if (S->out[i].compare_exchange_strong(z, h)) { S->distinct++; return; }
            if (z == h) return;
        }
    }
}
void sample(const char *fmt, ...) {
    if (g_confirm) return;
    int i = S->nsamples.fetch_add(1);
    if (i >= 24) return;
    va_list a; va_start(a, fmt); vsnprintf(S->samples[i], sizeof S->samples[i], fmt, a); va_end(a);
}
std::string show(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c >= 32 && c < 127) r += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        if (r.size() > 600) { r += "..."; break; }
    }
    return r + "\"";
}
static void put_desc() {
    static bool busy = false;
    if (busy) return;
    busy = true;
    if (describe) {
        std::string d = describe();
        snprintf(S->slot[g_jobidx].desc, sizeof S->slot[g_jobidx].desc, "%s", d.c_str());
    }
}
void failf(const char *fmt, ...) {
    Slot &s = S->slot[g_jobidx];
    va_list a; va_start(a, fmt); vsnprintf(s.msg, sizeof s.msg, fmt, a); va_end(a);
    s.status = 3;
    put_desc();
    flush_counters();
    _exit(91);
}
void known(const char *key, bool failed, const char *fmt, ...) {
    if (!failed) return;
    char buf[512];
    va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
    if (!known_keys().count(std::string(g_prop) + "/" + key)) failf("[finding %s] %s", key, buf);
    if (g_confirm) return;
    int i = S->nknown.fetch_add(1);
    if (i < 64) snprintf(S->known[i], sizeof S->known[i], "%s: %s", key, buf);
}

// ------------------------------------------------------------------ allocation seam
static std::unordered_map<const void *, size_t> *g_live;
static size_t g_live_bytes = 0;
static long g_fail_at = -1, g_seen = 0; static bool g_fired = false;
static uint64_t g_events = 0;
static bool g_in_rt = false;
static inline std::unordered_map<const void *, size_t> &L() { if (!g_live) g_live = new std::unordered_map<const void *, size_t>(); return *g_live; }
size_t live_count() { return L().size(); }
size_t live_bytes() { return g_live_bytes; }
bool is_live(const void *p, size_t *sz) { auto it = L().find(p); if (it == L().end()) return false; if (sz) *sz = it->second; return true; }
void live_reset() { if (!L().empty()) L().clear(); g_live_bytes = 0; }
void set_fail_alloc(long k) { g_fail_at = k; g_seen = 0; g_fired = false; }
long allocs_seen() { return g_seen; }
bool alloc_fault_fired() { return g_fired; }
uint64_t alloc_events() { return g_events; }
// huge mode (jobs called huge*): requests of 64 MB and more are served by lazily backed mappings, so that an object larger
// than 4 GB costs only the pages that are touched. Running out of memory there ends the job unexplored, never as a violation.
static bool g_huge = false;
static std::map<uintptr_t, size_t> &B() { static std::map<uintptr_t, size_t> *b = new std::map<uintptr_t, size_t>(); return *b; }
static const size_t BIG = (size_t)1 << 26, PG = 4096;
static void unexplored() { S->slot[g_jobidx].status = 2; _exit(0); }
static void *big_map(size_t n) {
    size_t m = (n + PG - 1) / PG * PG; char *p = (char *)mmap(nullptr, m + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == (char *)MAP_FAILED) unexplored();
    madvise(p, m, MADV_HUGEPAGE); mprotect(p + m, PG, PROT_NONE); B()[(uintptr_t)p] = n; return p;
}
static size_t big_size(const void *p) { auto it = B().find((uintptr_t)p); return it == B().end() ? 0 : it->second; }
static void big_unmap(void *p) { size_t n = big_size(p); munmap(p, (n + PG - 1) / PG * PG + PG); B().erase((uintptr_t)p); }
static void *big_remap(void *q, size_t n) { // lazily: pages that were never touched stay untouched
    size_t o = big_size(q), om = (o + PG - 1) / PG * PG, nm = (n + PG - 1) / PG * PG, k = std::min(om, nm); char *p = (char *)big_map(n);
    if (mremap(q, k, k, MREMAP_MAYMOVE | MREMAP_FIXED, p) == MAP_FAILED) unexplored();
    munmap((char *)q + k, om + PG - k); B().erase((uintptr_t)q); if (n < o) memset(p + n, 0, nm - n); return p;
}
bool roomy(double gb) { // enough memory for a huge job?
    double av = 0; char b[256]; if (FILE *f = fopen("/proc/meminfo", "r")) { while (fgets(b, sizeof b, f)) { double v; if (sscanf(b, "MemAvailable: %lf", &v) == 1) av = v / 1048576; } fclose(f); }
    for (const char *nm : {"/sys/fs/cgroup/memory.max", "/sys/fs/cgroup/memory/memory.limit_in_bytes"}) if (FILE *f = fopen(nm, "r")) { double v; if (fscanf(f, "%lf", &v) == 1) av = std::min(av, v / 1073741824.0); fclose(f); }
    struct rlimit r; if (!getrlimit(RLIMIT_AS, &r) && r.rlim_cur != RLIM_INFINITY) return false;
    return av >= gb;
}
bool mem_ok(const void *p, size_t n) {
    if (g_huge && n) { auto it = B().upper_bound((uintptr_t)p); if (it != B().begin()) { --it; if ((uintptr_t)p < it->first + it->second) return (uintptr_t)p + n <= it->first + it->second; } }
    return n == 0 || __asan_region_is_poisoned((void *)p, n) == nullptr;
}
static void track(void *p, size_t n) { L()[p] = n; g_live_bytes += n; }
static bool untrack(void *p, size_t *old = nullptr) {
    auto it = L().find(p);
    if (it == L().end()) return false;
    if (old) *old = it->second;
    g_live_bytes -= it->second; L().erase(it); return true;
}
static bool fault() { g_events++; if (g_fail_at >= 0 && g_seen == g_fail_at) { g_seen++; g_fired = true; return true; } g_seen++; return false; }
static const size_t HUGE_REQ = (size_t)1 << 31;
void *tracked_malloc(size_t n) { void *p = malloc(n ? n : 1); track(p, n); return p; }
char *tracked_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)tracked_malloc(n); memcpy(p, s, n); return p; }

static std::set<FILE *> &F() { static std::set<FILE *> *f = new std::set<FILE *>(); return *f; }
static std::set<DIR *> &D() { static std::set<DIR *> *f = new std::set<DIR *>(); return *f; }
size_t open_streams() { return F().size(); }
size_t open_dirs() { return D().size(); }
void release_leaked() {
    for (auto &e : L()) free((void *)e.first);
    live_reset();
    for (FILE *f : F()) fclose(f);
    F().clear();
    for (DIR *d : D()) closedir(d);
    D().clear();
}
static bool contained(const char *path) {
    if (g_scratch_real.empty()) return false;
    std::string p = path ? path : "";
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    size_t k = p.rfind('/');
    std::string parent = k == std::string::npos ? "." : (k == 0 ? "/" : p.substr(0, k));
    std::string base = k == std::string::npos ? p : p.substr(k + 1);
    char r[PATH_MAX];
    if (!realpath(parent.c_str(), r)) return true;            // parent does not exist: the call fails harmlessly
    std::string rp = r;
    if (base == "." || base == "..") { if (!realpath(p.c_str(), r)) return true; rp = r; size_t q = rp.rfind('/'); rp = rp.substr(0, q == 0 ? 1 : q); }
    return rp == g_scratch_real || rp.compare(0, g_scratch_real.size() + 1, g_scratch_real + "/") == 0;
}
static void must_be_contained(const char *what, const char *path) {
    if (!contained(path)) failf("library called %s(\"%s\"), which is outside the scratch directory (call suppressed)", what, path ? path : "(null)");
}
} // namespace mc

using namespace mc;
extern "C" {
void *mcx_malloc(size_t n) { if (fault()) return nullptr; if (n >= HUGE_REQ) { if (!g_huge || n >> 40) return nullptr; } if (g_huge && n >= BIG) { void *p = big_map(n); track(p, n); return p; } void *p = malloc(n); if (p) { memset(p, 0xA5, n); track(p, n); } return p; }
void *mcx_calloc(size_t a, size_t b) { if (fault()) return nullptr; size_t n; if (__builtin_mul_overflow(a, b, &n) || (n >= HUGE_REQ && (!g_huge || n >> 40))) return nullptr; if (g_huge && n >= BIG) { void *p = big_map(n); track(p, n); return p; } void *p = calloc(a, b); if (p) track(p, n); return p; }
void *mcx_realloc(void *q, size_t n) {
    if (fault()) return nullptr;
    if (n >= HUGE_REQ && (!g_huge || n >> 40)) return nullptr;
    size_t old = 0; bool had = q ? untrack(q, &old) : false;
    if (g_huge && ((q && big_size(q)) || n >= BIG)) {
        size_t o = q ? big_size(q) : 0; void *p;
        if (n == 0) { big_unmap(q); return nullptr; }
        if (o && n >= BIG) p = big_remap(q, n);
        else { p = n >= BIG ? big_map(n) : malloc(n); if (q) { memcpy(p, q, std::min(o ? o : old, n)); if (o) big_unmap(q); else free(q); } }
        track(p, n); return p;
    }
    if (n == 0) { if (q) free(q); return nullptr; }
    void *p = realloc(q, n);
    if (p) { if ((had || !q) && n > old) memset((char *)p + old, 0xA5, n - old); track(p, n); }
    return p;
}
void *mcx_reallocarray(void *q, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return mcx_realloc(q, n); }
void mcx_free(void *p) { g_events++; if (p) untrack(p); if (g_huge && p && big_size(p)) { big_unmap(p); return; } free(p); }
// the sanitizer's own versions of these two work byte by byte: same checks, then the C library's (a bad range is left to the sanitizer to report)
static void *libc_sym(const char *n) { static void *h = dlopen("libc.so.6", RTLD_LAZY | RTLD_NOLOAD); return h ? dlsym(h, n) : nullptr; }
static auto real_memmove = (void *(*)(void *, const void *, size_t))libc_sym("memmove"); static auto real_strstr = (char *(*)(const char *, const char *))libc_sym("strstr"); static auto real_strlen = (size_t(*)(const char *))libc_sym("strlen");
void *mcx_memmove(void *d, const void *s, size_t n) { if (n < 256 || !real_memmove || d == nullptr || s == nullptr || __asan_region_is_poisoned(d, n) || __asan_region_is_poisoned((void *)s, n)) return memmove(d, s, n); return real_memmove(d, s, n); }
char *mcx_strstr(const char *h, const char *n) { if (!real_strstr || !real_strlen || h == nullptr || n == nullptr) return (char *)strstr(h, n); char *r = real_strstr(h, n); size_t ln = real_strlen(n); if (__asan_region_is_poisoned((void *)n, ln + 1) || __asan_region_is_poisoned((void *)h, r ? (size_t)(r - h) + ln : real_strlen(h) + 1)) return (char *)strstr(h, n); return r; }
char *mcx_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)mcx_malloc(n); if (p) memcpy(p, s, n); return p; }
char *mcx_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)mcx_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

static void stop_now(int how, int code) {
    if (g_guard) { g_how = how; g_code = code; siglongjmp(g_jmp, 1); }
    if (how == EXITED) failf("library terminated the program: exit(%d) on a call that is within its contract", code);
    failf("library aborted (assert/abort) on a call that is within its contract");
}
void mcx_exit(int c) { stop_now(EXITED, c); _exit(92); }
void mcx__exit(int c) { stop_now(EXITED, c); _exit(92); }
void mcx_abort(void) { stop_now(ABORTED, 134); _exit(92); }
void mcx_assert_fail(const char *, const char *, unsigned, const char *) { stop_now(ABORTED, 134); _exit(92); }

time_t mcx_time(time_t *t) { return hooks.time ? hooks.time(t) : time(t); }
int mcx_socket(int a, int b, int c) { return hooks.socket ? hooks.socket(a, b, c) : socket(a, b, c); }
int mcx_setsockopt(int s, int l, int o, const void *v, socklen_t n) { return hooks.setsockopt ? hooks.setsockopt(s, l, o, v, n) : setsockopt(s, l, o, v, n); }
int mcx_bind(int s, const struct sockaddr *a, socklen_t n) { return hooks.bind ? hooks.bind(s, a, n) : bind(s, a, n); }
int mcx_listen(int s, int b) { return hooks.listen ? hooks.listen(s, b) : listen(s, b); }
int mcx_accept(int s, struct sockaddr *a, socklen_t *n) { return hooks.accept ? hooks.accept(s, a, n) : accept(s, a, n); }
int mcx_connect(int s, const struct sockaddr *a, socklen_t n) { return hooks.connect ? hooks.connect(s, a, n) : connect(s, a, n); }
ssize_t mcx_send(int s, const void *b, size_t n, int f) { return hooks.send ? hooks.send(s, b, n, f) : send(s, b, n, f); }
ssize_t mcx_recv(int s, void *b, size_t n, int f) { return hooks.recv ? hooks.recv(s, b, n, f) : recv(s, b, n, f); }
ssize_t mcx_sendto(int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { return hooks.sendto ? hooks.sendto(s, b, n, f, a, l) : sendto(s, b, n, f, a, l); }
ssize_t mcx_recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { return hooks.recvfrom ? hooks.recvfrom(s, b, n, f, a, l) : recvfrom(s, b, n, f, a, l); }
int mcx_shutdown(int s, int h) { return hooks.shutdown ? hooks.shutdown(s, h) : shutdown(s, h); }
int mcx_close(int s) { return hooks.close ? hooks.close(s) : close(s); }
int mcx_poll(struct pollfd *p, nfds_t n, int t) { return hooks.poll ? hooks.poll(p, n, t) : poll(p, n, t); }
FILE *mcx_fopen(const char *p, const char *m) {
    if (hooks.fopen) { FILE *f = hooks.fopen(p, m); if (f) F().insert(f); return f; }
    if (strpbrk(m, "wa+") && strcmp(p, "/dev/full") && strcmp(p, "/dev/null")) must_be_contained("fopen-for-writing", p);
    FILE *f = fopen(p, m); if (f) F().insert(f);
    return f;
}
int mcx_fclose(FILE *f) { F().erase(f); return hooks.fclose ? hooks.fclose(f) : fclose(f); }
DIR *mcx_opendir(const char *p) { DIR *d = hooks.opendir ? hooks.opendir(p) : opendir(p); if (d) D().insert(d); return d; }
int mcx_closedir(DIR *d) { D().erase(d); return closedir(d); }
char *mcx_getcwd(char *b, size_t n) { char *r = getcwd(b, n); if (r && !b) track(r, strlen(r) + 1); return r; }
int mcx_unlink(const char *p) { if (hooks.unlink) return hooks.unlink(p); must_be_contained("unlink", p); return unlink(p); }
int mcx_rmdir(const char *p) { if (hooks.rmdir) return hooks.rmdir(p); must_be_contained("rmdir", p); return rmdir(p); }
int mcx_remove(const char *p) { if (hooks.remove) return hooks.remove(p); must_be_contained("remove", p); return remove(p); }
int mcx_rename(const char *a, const char *b) { if (hooks.rename) return hooks.rename(a, b); must_be_contained("rename", a); must_be_contained("rename", b); return rename(a, b); }
int mcx_mkdir(const char *p, mode_t m) { if (hooks.mkdir) return hooks.mkdir(p, m); struct stat st; if (lstat(p, &st) == 0) { errno = EEXIST; return -1; } /* no effect wherever it is */ must_be_contained("mkdir", p); return mkdir(p, m); }
ssize_t mcx_write(int f, const void *b, size_t n) { return hooks.write ? hooks.write(f, b, n) : write(f, b, n); }
ssize_t mcx_read(int f, void *b, size_t n) { return hooks.read ? hooks.read(f, b, n) : read(f, b, n); }
ssize_t mcx_readlink(const char *p, char *b, size_t n) { return hooks.readlink ? hooks.readlink(p, b, n) : readlink(p, b, n); }

// calls the library does not make today: a rewrite that uses them stays contained, tracked and under the same clock
int mcx_stat(const char *p, struct stat *st) { return hooks.stat ? hooks.stat(p, st, false) : stat(p, st); }
int mcx_lstat(const char *p, struct stat *st) { return hooks.stat ? hooks.stat(p, st, true) : lstat(p, st); }
int mcx_fstat(int f, struct stat *st) { return hooks.fstat ? hooks.fstat(f, st) : fstat(f, st); }
int mcx_clock_gettime(clockid_t c, struct timespec *t) { if (hooks.time && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = hooks.time(nullptr); t->tv_nsec = 0; return t->tv_sec == (time_t)-1 ? -1 : 0; } return clock_gettime(c, t); }
int mcx_gettimeofday(struct timeval *t, void *z) { if (hooks.time) { t->tv_sec = hooks.time(nullptr); t->tv_usec = 0; return t->tv_sec == (time_t)-1 ? -1 : 0; } return gettimeofday(t, (struct timezone *)z); }
void *mcx_aligned_alloc(size_t a, size_t n) { if (fault() || n >= HUGE_REQ) return nullptr; void *p = aligned_alloc(a, n); if (p) { memset(p, 0xA5, n); track(p, n); } return p; }
int mcx_posix_memalign(void **o, size_t a, size_t n) { if (fault() || n >= HUGE_REQ) return ENOMEM; int r = posix_memalign(o, a, n); if (!r) { memset(*o, 0xA5, n); track(*o, n); } return r; }
int mcx_vasprintf(char **o, const char *f, va_list a) { if (fault()) return -1; int r = vasprintf(o, f, a); if (r >= 0) track(*o, (size_t)r + 1); return r; }
int mcx_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int r = mcx_vasprintf(o, f, a); va_end(a); return r; }
char *mcx_realpath(const char *p, char *b) { if (!b && fault()) { errno = ENOMEM; return nullptr; } char *r = realpath(p, b); if (r && !b) track(r, strlen(r) + 1); return r; }
static void may_open(const char *w, const char *p, int fl) { if ((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) && strcmp(p, "/dev/full") && strcmp(p, "/dev/null")) must_be_contained(w, p); }
int mcx_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? (mode_t)va_arg(a, int) : 0; va_end(a); may_open("open", p, fl); return open(p, fl, m); }
int mcx_creat(const char *p, mode_t m) { must_be_contained("creat", p); return creat(p, m); }
int mcx_openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? (mode_t)va_arg(a, int) : 0; va_end(a); if (d == AT_FDCWD || p[0] == '/') may_open("openat", p, fl); return openat(d, p, fl, m); }
FILE *mcx_freopen(const char *p, const char *m, FILE *f) { if (p && strpbrk(m, "wa+") && strcmp(p, "/dev/full") && strcmp(p, "/dev/null")) must_be_contained("freopen", p); return freopen(p, m, f); }
FILE *mcx_fdopen(int d, const char *m) { FILE *f = fdopen(d, m); if (f) F().insert(f); return f; }
DIR *mcx_fdopendir(int f) { DIR *d = fdopendir(f); if (d) D().insert(d); return d; }
static std::string at(int d, const char *p) { if (d == AT_FDCWD || p[0] == '/') return p; char l[64], b[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", d); ssize_t k = readlink(l, b, sizeof b - 1); if (k < 0) return p; return std::string(b, (size_t)k) + "/" + p; }
int mcx_unlinkat(int d, const char *p, int fl) { std::string q = at(d, p); return (fl & AT_REMOVEDIR) ? mcx_rmdir(q.c_str()) : mcx_unlink(q.c_str()); }
int mcx_renameat(int d, const char *p, int e, const char *q) { return mcx_rename(at(d, p).c_str(), at(e, q).c_str()); }
int mcx_mkdirat(int d, const char *p, mode_t m) { return mcx_mkdir(at(d, p).c_str(), m); }
int mcx_truncate(const char *p, off_t n) { must_be_contained("truncate", p); return truncate(p, n); }
int mcx_chmod(const char *p, mode_t m) { must_be_contained("chmod", p); return chmod(p, m); }
int mcx_symlink(const char *a, const char *p) { must_be_contained("symlink", p); return symlink(a, p); }
int mcx_link(const char *a, const char *p) { must_be_contained("link", p); return link(a, p); }
int mcx_nftw(const char *p, int (*f)(const char *, const struct stat *, int, struct FTW *), int n, int fl) { return nftw(p, f, n, fl); }
int mcx_ftw(const char *p, int (*f)(const char *, const struct stat *, int), int n) { return ftw(p, f, n); }
int mcx_system(const char *c) { failf("library ran a shell command (suppressed): %s", c ? c : "(null)"); return -1; }
FILE *mcx_popen(const char *c, const char *) { failf("library ran a shell command (suppressed): %s", c); return nullptr; }
int mcx_kill(pid_t p, int s) { if (p == getpid() && s == SIGABRT) mcx_abort(); failf("library sent signal %d to process %d (suppressed)", s, (int)p); return -1; }
}

namespace mc {
// ------------------------------------------------------------------ scheduler
static void on_death() { if (g_jobidx >= 0) { put_desc(); flush_counters(); } }
static void on_usr1(int) { put_desc(); _exit(93); }

static void run_job_child(int i, const std::string &errfile) { prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_jobidx = i;
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); }
    int nul = open("/dev/null", O_RDWR); if (nul >= 0) { dup2(nul, 0); dup2(nul, 1); if (nul > 2) close(nul); }
    __sanitizer_set_death_callback(on_death);
    signal(SIGUSR1, on_usr1);
    signal(SIGPIPE, SIG_IGN);
    S->slot[i].status = 1;
    if (jobs()[i].first.compare(0, 7, "initial")) vt_debug_disable_output(true); // jobs called initial* see the library as a fresh process does
    live_reset(); g_huge = jobs()[i].first.compare(0, 4, "huge") == 0;
    jobs()[i].second();
    flush_counters();
    S->slot[i].status = 2;
    _exit(0);
}
static std::string slurp(const std::string &f, size_t max) {
    std::string r; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return r;
    char b[4096]; size_t n;
    while (r.size() < max && (n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n);
    fclose(fp); if (r.size() > max) r.resize(max); return r;
}
struct Res { bool ok; std::string why; };
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Res classify(int i, int st, bool hang, const std::string &errfile) {
    Slot &s = S->slot[i];
    bool huge = jobs()[i].first.compare(0, 4, "huge") == 0;
    if (huge && (hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))) return {true, ""}; // memory or time ran out: not explored
    if (hang) return {false, "no progress (hang) in the explored execution"};
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.status == 2) return {true, ""};
    if (s.status == 3) return {false, s.msg};
    std::string err = slurp(errfile, 3000);
    size_t k = err.find("ERROR: AddressSanitizer");
    if (k != std::string::npos) { size_t e = err.find("\n", k); std::string first = err.substr(k, e - k);
        size_t f = err.find("#0 "), cnt = 0; std::string frames;
        while (f != std::string::npos && cnt < 5) { size_t ee = err.find("\n", f); frames += " | " + err.substr(f, std::min<size_t>(ee - f, 120)); f = err.find("    #", ee); cnt++; }
        return {false, "memory error: " + first + frames}; }
    char b[96];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "explored execution died with signal %d", WTERMSIG(st));
    else snprintf(b, sizeof b, "explored execution ended the process (status %d)", WEXITSTATUS(st));
    return {false, std::string(b) + (err.empty() ? "" : ": " + err.substr(0, 300))};
}
static std::string jesc(const std::string &s) {
    std::string r; for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r;
}

// processor seconds used by a process so far
static double cpu_of(pid_t p, char *state = nullptr) {
    char nm[64]; snprintf(nm, sizeof nm, "/proc/%d/stat", (int)p); FILE *f = fopen(nm, "r"); if (!f) return -1;
    char b[1024]; size_t k = fread(b, 1, sizeof b - 1, f); fclose(f); b[k] = 0; char *q = strrchr(b, ')'); if (!q) return -1;
    if (state) *state = q[1] == ' ' ? q[2] : q[1]; unsigned long u = 0, s = 0; if (sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) != 2) return -1;
    return (double)(u + s) / (double)sysconf(_SC_CLK_TCK);
}
// no step finished while the process itself computed for `limit` seconds, or was blocked for much longer: a busy machine is not a hang
struct Watch { uint64_t beat = 0; double t = 0, cpu = 0; 
    bool hung(pid_t p, uint64_t b, double limit) { double t1 = now(); if (b != beat || !t) { beat = b; t = t1; cpu = -1; return false; } if (t1 - t <= limit) { if (cpu < 0 && t1 - t > 1) cpu = cpu_of(p); return false; } char st = 0; double c = cpu_of(p, &st), used = c - (cpu < 0 ? 0 : cpu); return c < 0 || used > limit || (t1 - t > 5 * limit && st != 'R' && st != 'T' && used < 1); } };

int run_main(int argc, char **argv, const char *prop) {
    g_prop = prop;
    prctl(PR_SET_PDEATHSIG, SIGKILL); // an exploration never outlives the check that started it
    std::string out = "/dev/stdout", only, knownf;
    int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN); if (ncpu < 1) ncpu = 1; if (ncpu > 8) ncpu = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") g_thorough = true; else if (a == "--deep") g_thorough = g_deep = true; else if (a == "--quick") g_cap = 45;
        else if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--scratch" && i + 1 < argc) g_scratch = argv[++i];
        else if (a == "--job" && i + 1 < argc) only = argv[++i];
        else if (a == "--known" && i + 1 < argc) knownf = argv[++i];
        else if (a == "-j" && i + 1 < argc) ncpu = atoi(argv[++i]);
    }
    if (g_scratch.empty()) { fprintf(stderr, "need --scratch DIR\n"); return 2; }
    { char r[PATH_MAX]; if (!realpath(g_scratch.c_str(), r)) { perror("scratch"); return 2; } g_scratch = g_scratch_real = r; }
    if (!knownf.empty()) { // lines: "known: property=<id> key=<key> ..."
        std::string t = slurp(knownf, 1 << 20); size_t p = 0;
        while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string ln = t.substr(p, e - p); p = e + 1;
            if (ln.compare(0, 6, "known:")) continue;
            size_t a = ln.find("property="), b = ln.find("key="); if (a == std::string::npos || b == std::string::npos) continue;
            std::string id = ln.substr(a + 9, ln.find(' ', a) - a - 9), key = ln.substr(b + 4, ln.find(' ', b) - b - 4);
            known_keys().insert(id + "/" + key); } }
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    // the long jobs first, so that they do not run alone at the end
    std::stable_partition(jobs().begin(), jobs().end(), [](const std::pair<std::string, std::function<void()>> &j) { size_t u = j.first.rfind('_'); long v = u == std::string::npos ? 0 : atol(j.first.c_str() + u + 1); return v >= 4000 || j.first == "flt_r" || j.first == "build_1"; });
    int n = (int)jobs().size();
    if (n > MAXJOBS) { fprintf(stderr, "too many jobs\n"); return 2; }
    struct Run { pid_t pid; double t; Watch w; };
    std::map<int, Run> running; std::vector<int> again_q; int next = 0, done = 0; double t0 = now();
    const double HANG = 25.0;
    int bad = -1; std::string why; bool confirmed = false; int unconfirmed = 0;
    auto errname = [&](int i) { return g_scratch + "/.err." + std::to_string(i); };
    auto launch = [&](int i) { fflush(nullptr); S->slot[i].beat = 0; S->slot[i].status = 0; S->slot[i].msg[0] = S->slot[i].desc[0] = 0;
        pid_t p = fork(); if (p == 0) { setpgid(0, 0); run_job_child(i, errname(i)); } return p; };
    std::vector<int> huge_q; auto is_huge = [](int i) { return jobs()[i].first.compare(0, 4, "huge") == 0; }; double rss_t = 0;
    auto too_big = [](pid_t p) { char nm[64]; snprintf(nm, sizeof nm, "/proc/%d/statm", (int)p); FILE *f = fopen(nm, "r"); if (!f) return false; double a = 0, r = 0; bool b = fscanf(f, "%lf %lf", &a, &r) == 2 && r * 4096 > 14e9; fclose(f); return b; };
    while (bad < 0 && (next < n || !running.empty() || !again_q.empty() || !huge_q.empty())) {
        while ((int)running.size() < ncpu && (next < n || !again_q.empty() || !huge_q.empty())) {
            bool huge_on = false; for (auto &r : running) huge_on |= is_huge(r.first); // one of them at a time
            int i; if (!huge_q.empty() && !huge_on) { i = huge_q.back(); huge_q.pop_back(); } else if (!again_q.empty()) { i = again_q.back(); again_q.pop_back(); } else if (next < n) i = next++; else break;
            if (!only.empty() && jobs()[i].first != only) continue;
            if (huge_on && is_huge(i)) { huge_q.push_back(i); continue; }
            running[i] = {launch(i), now(), Watch()};
        }
        int st; pid_t p;
        bool any = false;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
            any = true;
            int idx = -1; for (auto &r : running) if (r.second.pid == p) idx = r.first;
            if (idx < 0) continue;
            kill(-p, SIGKILL);
            if (getenv("MC_SLOW") && now() - running[idx].t > 3) fprintf(stderr, "slow: %s %.1fs\n", jobs()[idx].first.c_str(), now() - running[idx].t); running.erase(idx); done++;
            Res r = classify(idx, st, false, errname(idx));
            if (!r.ok && bad < 0) { bad = idx; why = r.why; }
            else if (r.ok) ::unlink(errname(idx).c_str());
        }
        if (!any) {
            for (auto &r : running) if (bad < 0 && r.second.w.hung(r.second.pid, S->slot[r.first].beat, jobs()[r.first].first.compare(0, 4, "huge") ? HANG : 4 * HANG)) { bad = r.first; why = "no progress (hang)"; }
            if (now() - rss_t > 0.1) { rss_t = now(); for (auto &r : running) if (is_huge(r.first) && (too_big(r.second.pid) || now() - r.second.t > (g_cap ? g_cap : g_thorough ? 240 : 45))) kill(r.second.pid, SIGKILL); } // ends unexplored
            usleep(2000);
        }
        if (bad >= 0) {
            for (auto &r : running) { kill(-r.second.pid, SIGKILL); kill(r.second.pid, SIGKILL); waitpid(r.second.pid, &st, 0); if (r.first != bad) again_q.push_back(r.first); }
            running.clear();
            // replay the failing job alone, with a longer limit, before reporting anything
            g_confirm = true;
            std::string why1 = why; bool again = false;
            for (int k = 0; k < 2 && !again; k++) {
                pid_t q = launch(bad); Watch wt; bool hang = false; int s2 = 0;
                for (;;) {
                    pid_t w = waitpid(q, &s2, WNOHANG); if (w == q) break;
                    if (wt.hung(q, S->slot[bad].beat, 1.5 * HANG)) { hang = true; kill(q, SIGUSR1); usleep(300000); kill(-q, SIGKILL); kill(q, SIGKILL); waitpid(q, &s2, 0); break; }
                    usleep(2000);
                }
                kill(-q, SIGKILL);
                Res r = classify(bad, s2, hang, errname(bad));
                if (!r.ok) { again = true; why = r.why; }
            }
            g_confirm = false;
            if (again) { confirmed = true; break; }
            unconfirmed++; fprintf(stderr, "note: job %s failed once (%s) but not when replayed\n", jobs()[bad].first.c_str(), why1.c_str());
            if (unconfirmed > 40) break;
            bad = -1; // the replay explored this job to its end; the others that were running are explored again
        }
    }
    FILE *f = fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; }
    const char *nm[C_N] = {"states", "transitions", "traces", "evaluations", "faults", "failstops", "a", "b"};
    fprintf(f, "{");
    for (int i = 0; i < C_N; i++) fprintf(f, "\"%s\": %llu, ", nm[i], (unsigned long long)S->ctr[i].load());
    fprintf(f, "\"distinct\": %llu, \"jobs\": %d, \"unconfirmed\": %d, \"wall\": %.3f, \"note\": \"%s\", \"samples\": [", (unsigned long long)S->distinct.load(), done, unconfirmed, now() - t0, jesc(g_note).c_str());
    int ns = std::min(24, (int)S->nsamples); for (int i = 0; i < ns; i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(S->samples[i]).c_str());
    fprintf(f, "], \"known\": [");
    int nk = std::min(64, (int)S->nknown); for (int i = 0; i < nk; i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(S->known[i]).c_str());
    fprintf(f, "], \"violation\": ");
    if (confirmed) fprintf(f, "{\"job\": \"%s\", \"why\": \"%s\", \"execution\": \"%s\", \"beat\": %llu}", jesc(jobs()[bad].first).c_str(), jesc(why).c_str(), jesc(S->slot[bad].desc).c_str(), (unsigned long long)S->slot[bad].beat.load());
    else fprintf(f, "null");
    fprintf(f, "}\n"); fclose(f);
    return confirmed ? 1 : 0;
}
} // namespace mc
