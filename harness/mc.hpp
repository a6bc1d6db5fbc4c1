// mc.hpp - small explicit-state / stateless exploration runtime shared by all checks.
//
// A check registers JOBS (independent shards of its bounded space). Every job runs in its own forked
// process; inside a job each explored execution is announced with mc::step() (heartbeat) and judged with
// CHECK(...). A crash (ASan report, signal), a hang, an unexpected exit() of the library or a failed CHECK
// ends the job; the parent re-runs that job alone and reports the violation only if it is reproduced.
#pragma once
#include <algorithm>
#include <array>
#include <cctype>
#include <cfloat>
#include <climits>
#include <clocale>
#include <cmath>
#include <csetjmp>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cinttypes>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <setjmp.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <ftw.h>
#include <sys/time.h>

namespace mc {

// ---------------------------------------------------------------- registration
void add_job(const std::string &name, std::function<void()> fn);
bool thorough();                      // the larger of the two bounds of most properties
bool deep();                          // beyond that, where the quick tier already explores the larger bound
void parse_args(int argc, char **argv);   // must run before jobs are registered
const char *scratch_dir();           // private scratch directory of this run (created and removed by check.py)
void set_level_note(const std::string &s); // bounds text that goes to the evidence file

// ---------------------------------------------------------------- inside a job
extern std::function<std::string()> describe;  // describes the current execution (called on failure only)
void step();                                   // one explored execution/transition starts (heartbeat)
[[noreturn]] void failf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) mc::failf(__VA_ARGS__); } while (0)

// counters (aggregated over all jobs)
enum Ctr { C_STATES, C_TRANS, C_TRACES, C_EVALS, C_FAULTS, C_STOPS, C_A, C_B, C_N };
void count(Ctr c, uint64_t n = 1);
void outcome(uint64_t h);            // record an observed outcome hash (distinct ones are counted)
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Known finding: `failed` says whether the listed defect still shows. Listed in known_findings.txt -> a
// KNOWN-FINDING line; not listed -> violation.
void known(const char *key, bool failed, const char *fmt, ...) __attribute__((format(printf, 3, 4)));

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
    uint64_t n = s.size();
    return hash_bytes(s.data(), s.size(), hash_bytes(&n, sizeof n, h));
}
std::string show(const std::string &s);   // printable form with escapes

// ---------------------------------------------------------------- fail-stop guard
// Runs f; the library's exit()/abort()/assert failures are turned into a return value.
enum Stop { RETURNED = 0, EXITED = 1, ABORTED = 2 };
struct GuardResult { Stop how; int code; };
extern sigjmp_buf g_jmp; extern volatile bool g_guard; extern volatile int g_code; extern volatile int g_how;
template <class F> GuardResult guard(F f) {
    g_guard = true;
    if (sigsetjmp(g_jmp, 0) == 0) { f(); g_guard = false; return {RETURNED, 0}; }
    g_guard = false;
    return {(Stop)g_how, g_code};
}
// true when the call stopped the program with a failure status (exit(non-zero) or abort)
inline bool stopped_with_failure(const GuardResult &r) { return r.how == ABORTED || (r.how == EXITED && r.code != 0); }

// ---------------------------------------------------------------- allocation seam
size_t live_count();                 // live allocations made by the library (malloc/calloc/realloc/strdup)
size_t live_bytes();
bool   is_live(const void *p, size_t *sz = nullptr);
void   live_reset();                 // forget everything (start of an execution)
void   set_fail_alloc(long k);       // make the k-th (0-based) allocation from now fail; -1 = never
long   allocs_seen();                // allocations seen since set_fail_alloc
bool   alloc_fault_fired();
void  *tracked_malloc(size_t n);     // harness-made allocation the library may take over / free
char  *tracked_strdup(const char *s);
size_t open_streams();               // FILE handles the library opened and has not closed
size_t open_dirs();                  // directory handles the library opened and has not closed
void   release_leaked();             // frees everything the library holds (after a simulated termination)
uint64_t alloc_events();             // total number of malloc/calloc/realloc/free calls by the library
bool   roomy(double gb);              // is that much memory available (for jobs called huge*)?
bool   mem_ok(const void *p, size_t n);   // p[0..n) is addressable (ASan)

// ---------------------------------------------------------------- environment seam
struct Hooks {
    time_t (*time)(time_t *) = nullptr;
    int (*socket)(int, int, int) = nullptr;
    int (*setsockopt)(int, int, int, const void *, socklen_t) = nullptr;
    int (*bind)(int, const struct sockaddr *, socklen_t) = nullptr;
    int (*listen)(int, int) = nullptr;
    int (*accept)(int, struct sockaddr *, socklen_t *) = nullptr;
    int (*connect)(int, const struct sockaddr *, socklen_t) = nullptr;
    ssize_t (*send)(int, const void *, size_t, int) = nullptr;
    ssize_t (*recv)(int, void *, size_t, int) = nullptr;
    ssize_t (*sendto)(int, const void *, size_t, int, const struct sockaddr *, socklen_t) = nullptr;
    ssize_t (*recvfrom)(int, void *, size_t, int, struct sockaddr *, socklen_t *) = nullptr;
    int (*shutdown)(int, int) = nullptr;
    int (*close)(int) = nullptr;
    int (*poll)(struct pollfd *, nfds_t, int) = nullptr;
    FILE *(*fopen)(const char *, const char *) = nullptr;
    int (*fclose)(FILE *) = nullptr;
    int (*unlink)(const char *) = nullptr;
    int (*rmdir)(const char *) = nullptr;
    int (*remove)(const char *) = nullptr;
    int (*rename)(const char *, const char *) = nullptr;
    int (*mkdir)(const char *, mode_t) = nullptr;
    ssize_t (*write)(int, const void *, size_t) = nullptr;
    ssize_t (*read)(int, void *, size_t) = nullptr;
    ssize_t (*readlink)(const char *, char *, size_t) = nullptr;
    DIR *(*opendir)(const char *) = nullptr;
    int (*stat)(const char *, struct stat *, bool nofollow) = nullptr;
    int (*fstat)(int, struct stat *) = nullptr;
};
extern Hooks hooks;

int run_main(int argc, char **argv, const char *prop);
} // namespace mc

extern "C" {
#include "vita/vita.h"
}
