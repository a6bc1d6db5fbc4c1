// C25: the random generator from every clock reading in the bound. Its state is static, so every seed runs in a process of its own.
#include "mc.hpp"
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; }
time_t SEED; int CLOCK; time_t clk(time_t *t) { time_t v = SEED + (CLOCK ? CLOCK * 977 : 0); CLOCK++; if (t) *t = v; return v; } // later readings differ: they must not matter
// runs `f` in a child that writes doubles to a pipe; a failing child is reported here
std::vector<double> child(time_t seed, const std::function<void(std::vector<double> &)> &f) {
    int p[2]; CHECK(pipe(p) == 0, "harness pipe"); pid_t pid = fork(); CHECK(pid >= 0, "harness fork");
    if (!pid) { ::close(p[0]); SEED = seed; CLOCK = 0; hooks.time = clk; std::vector<double> v; f(v); size_t n = v.size() * 8, o = 0; while (o < n) { ssize_t k = ::write(p[1], (char *)v.data() + o, n - o); if (k <= 0) break; o += (size_t)k; } ::_exit(0); }
    ::close(p[1]); std::vector<double> v; double buf[1024]; size_t have = 0; ssize_t k; std::vector<char> raw; char cb[8192]; while ((k = ::read(p[0], cb, sizeof cb)) > 0) raw.insert(raw.end(), cb, cb + k); (void)buf; (void)have; ::close(p[0]); int st; waitpid(pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the draws crashed (status %x)", st); v.resize(raw.size() / 8); memcpy(v.data(), raw.data(), v.size() * 8); return v;
}
std::vector<time_t> seeds() {
    std::vector<time_t> v; size_t n = thorough() ? 16384 : 1024; for (size_t i = 0; i < n; i++) v.push_back((time_t)i); for (size_t i = 0; i < n; i++) v.push_back((time_t)(1700000000 + i)); for (size_t i = 0; i < n; i++) v.push_back((time_t)((i * 2654435761ull) % 4294967296ull)); for (int b = 0; b < 63; b++) for (int d = -2; d <= 2; d++) { time_t t = (time_t)((1ull << b) + d); v.push_back(t); if (b < 40) v.push_back(-t); } for (time_t t : {(time_t)0xFFFFFFFE, (time_t)0xFFFFFFFF, (time_t)0x100000000, (time_t)0x7fffffff, (time_t)253402300799LL, (time_t)-1}) v.push_back(t); return v;
}
const uint32_t B[] = {0, 1, 2, 3, 10, 100, 255, 256, 1000, 65535, 65536, 16777215, 16777216, 16777217, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
const float UB[][2] = {{0, 1}, {-1, 1}, {5, 5}, {0, 0}, {-10, -3}, {1, 2}, {0, 1e6f}, {-1e-6f, 1e-6f}, {-1e30f, 1e30f}, {100, 100.5f}, {3, -3}, {-0.5f, 16777216.f}, {1e-30f, 2e-30f}, {0, 255}};
const float NM[][2] = {{0, 1}, {5, 1}, {0, 2}, {-3, 0.5f}, {100, 10}, {0, 0}, {7, 0}, {1, -1}, {1000, 0.5f}};
void u64_seq(size_t sh, size_t n) {
    auto sd = seeds(); const int DR = thorough() ? 1024 : 256; for (size_t i = sh; i < sd.size(); i += n) { step(); time_t s = sd[i]; D = "clock reads " + std::to_string((long long)s); auto draw = [&](std::vector<double> &v) { for (int k = 0; k < DR; k++) v.push_back((double)vt_math_random_u64()); }; auto a = child(s, draw); CHECK(a.size() == (size_t)DR, "draws lost"); std::set<double> dist; for (int k = 0; k < DR; k++) { CHECK(a[k] >= 0 && a[k] <= 32767 && a[k] == floor(a[k]), "draw %d is %.0f: outside 15 bits", k, a[k]); dist.insert(a[k]); if (k >= 4) CHECK(!(a[k] == a[k - 1] && a[k] == a[k - 2] && a[k] == a[k - 3] && a[k] == a[k - 4]), "the sequence stopped advancing at draw %d (%.0f)", k, a[k]); }
        for (int per = 1; per <= 8; per++) { bool cyc = true; for (int k = 64; k < 128 && cyc; k++) cyc = a[k] == a[k - per]; CHECK(!cyc, "the sequence repeats with period %d", per); }
        if (i % 8 == sh % 8) { auto b = child(s, [&](std::vector<double> &v) { std::vector<void *> junk; for (int q = 0; q < 5; q++) junk.push_back(malloc(100)); setenv("TZ", "Asia/Tokyo", 1); tzset(); srand(99); CLOCK = 0; for (int k = 0; k < DR; k++) { errno = k; rand(); v.push_back((double)vt_math_random_u64()); SEED += 1000003; } for (void *p : junk) free(p); }); CHECK(a == b, "two runs from the same clock reading differ"); }
        count(C_TRANS, DR); count(C_STATES, DR); count(C_TRACES); count(C_EVALS, DR); outcome(hash_bytes(a.data(), a.size() * 8)); }
}
// the kinds of draw, in every order: range of each, and reproducibility
double draw(int kind, size_t i) { switch (kind) { case 0: return (double)vt_math_random_u64(); case 1: return vt_math_random_f32(B[i % 18]); case 2: return vt_math_random_f32_uniform(UB[i % 14][0], UB[i % 14][1]); default: return vt_math_random_f32_normal(NM[i % 9][0], NM[i % 9][1]); } }
void judge(int kind, size_t i, double v) {
    switch (kind) {
    case 0: CHECK(v >= 0 && v <= 32767 && v == floor(v), "integer draw %.17g", v); break;
    case 1: { double b = B[i % 18]; CHECK(v >= 0 && (b == 0 ? v == 0 : v < (double)(float)b), "draw below %.0f gave %.17g", b, v); break; }
    case 2: { double l = UB[i % 14][0], u = UB[i % 14][1]; double lo = std::min(l, u), hi = std::max(l, u), ul = (hi - lo) * 1.2e-7; CHECK(v >= lo - ul && v <= hi + ul, "uniform draw in [%g,%g] gave %.17g", l, u, v); break; }
    default: { double m = NM[i % 9][0], s = fabs(NM[i % 9][1]); CHECK(std::isfinite(v), "normal draw is not finite"); CHECK(fabs(v - m) <= 9 * s + fabs(m) * 1e-6, "normal draw of mean %g, deviation %g gave %.9g", m, s, v); } }
}
void orders(size_t sh, size_t n) { // all orders of draw kinds of length L (parameters rotate), from a set of seeds
    const int L = thorough() ? 6 : 4; std::vector<time_t> sd{0, 1, 1700000000, 0x7fffffff, 0xFFFFFFFF, -1, 12345, 1684989609}; size_t total = 1; for (int i = 0; i < L; i++) total *= 4;
    for (size_t o = sh; o < total; o += n) for (time_t s : sd) { step(); int k[8]; size_t x = o; D = "clock " + std::to_string((long long)s) + " order"; for (int i = 0; i < L; i++) { k[i] = (int)(x % 4); x /= 4; D += " " + std::to_string(k[i]); } auto f = [&](std::vector<double> &v) { for (size_t r = 0; r < 20; r++) for (int i = 0; i < L; i++) v.push_back(draw(k[i], r * L + i + o)); }; auto a = child(s, f); CHECK(a.size() == 20u * L, "draws lost"); for (size_t r = 0; r < 20; r++) for (int i = 0; i < L; i++) judge(k[i], r * L + i + o, a[r * L + i]); auto b = child(s, f); CHECK(a == b, "two runs from the same clock reading differ"); count(C_TRANS, 40 * L); count(C_TRACES, 2); count(C_EVALS, 20 * L); outcome(hash_bytes(a.data(), a.size() * 8)); }
}
void ranges(size_t sh, size_t n) { // every bound class, thousands of draws: covers (nearly) all 2^15 generator outputs
    auto one = [&](int kind, size_t param, time_t s) { step(); D = "kind " + std::to_string(kind) + " parameter " + std::to_string(param) + " clock " + std::to_string((long long)s); const size_t K = thorough() ? 400000 : 40000; auto a = child(s, [&](std::vector<double> &v) { for (size_t i = 0; i < K; i++) { double x = draw(kind, param); v.push_back(x); } }); CHECK(a.size() == K, "draws lost"); double lo = 1e300, hi = -1e300; for (double x : a) { judge(kind, param, x); lo = std::min(lo, x); hi = std::max(hi, x); }
        if (kind == 1 && B[param % 18] > 1) CHECK(lo < 0.02 * B[param % 18] && hi > 0.98 * B[param % 18], "draws below %u only cover [%g,%g]", B[param % 18], lo, hi); if (kind == 2) { double l = UB[param % 14][0], u = UB[param % 14][1], w = fabs(u - l); CHECK(lo <= std::min(l, u) + 0.02 * w && hi >= std::max(l, u) - 0.02 * w, "uniform draws in [%g,%g] only cover [%g,%g]", l, u, lo, hi); }
        if (kind == 3) { double m = NM[param % 9][0], sd = fabs(NM[param % 9][1]), mean = 0; for (double x : a) mean += x; mean /= (double)K; CHECK(lo <= m && hi >= m && (sd == 0 || (hi - m >= sd && m - lo >= sd)), "normal draws do not spread around their mean"); CHECK(sd == 0 ? fabs(mean - m) <= 1e-6 * fabs(m) : fabs(mean - m) < 0.3 * sd + 1e-6 * fabs(m), "mean of draws %g, asked for %g", mean, m); double q = 0; for (double x : a) q += (x - mean) * (x - mean); q = sqrt(q / (double)K); CHECK(q >= 0.7 * sd - 1e-6 * fabs(m) && q <= 1.3 * sd + 1e-6 * fabs(m), "deviation of draws %g, asked for %g", q, sd); } count(C_TRANS, K); count(C_TRACES); count(C_EVALS, K); outcome(hash_bytes(a.data(), 800)); };
    size_t j = 0; for (time_t s : {(time_t)1, (time_t)1700000001}) { for (size_t p = 0; p < 18; p++) if (j++ % n == sh) one(1, p, s); for (size_t p = 0; p < 14; p++) if (j++ % n == sh) one(2, p, s); for (size_t p = 0; p < 9; p++) if (j++ % n == sh) one(3, p, s); }
}
void distinct_seeds(size_t sh) { // different clock readings start different sequences, and every one of the 15 bits is used
    std::map<std::vector<double>, time_t> seen; std::vector<time_t> sd; for (int i = 0; i < (thorough() ? 8192 : 700); i++) sd.push_back(sh == 0 ? 1700000000 + i : sh == 1 ? i : sh == 2 ? 1000000000 + (time_t)i * 86400 : 1700000000 + (time_t)i * 3600); unsigned ones = 0, zeros = 0;
    for (time_t s : sd) { step(); D = "clock " + std::to_string((long long)s); auto a = child(s, [](std::vector<double> &v) { for (int k = 0; k < 64; k++) v.push_back((double)vt_math_random_u64()); }); auto r = seen.insert({a, s}); CHECK(r.second, "the same sequence as from clock %lld", (long long)r.first->second); for (double v : a) { ones |= (unsigned)v; zeros |= ~(unsigned)v & 0x7fff; } count(C_TRANS, 64); count(C_STATES, 64); count(C_TRACES); count(C_EVALS); outcome(hash_bytes(a.data(), a.size() * 8)); }
    CHECK(ones == 0x7fff && zeros == 0x7fff, "some of the 15 bits never change (%04x %04x)", ones, zeros);
}
bool in_range(int kind, size_t i, double v) {
    switch (kind) {
    case 1: { double b = B[i % 18]; return v >= 0 && (b == 0 ? v == 0 : v < (double)(float)b); }
    case 2: { double l = UB[i % 14][0], u = UB[i % 14][1], lo = std::min(l, u), hi = std::max(l, u), ul = (hi - lo) * 1.2e-7; return v >= lo - ul && v <= hi + ul; }
    default: { double m = NM[i % 9][0], sd = fabs(NM[i % 9][1]); return std::isfinite(v) && fabs(v - m) <= 9 * sd + fabs(m) * 1e-6; } }
}
void longrun(int kind, time_t s) { // millions of draws in one process: every one in range, twice the same
    const size_t K = (size_t)(kind == 0 ? 4000000 : 700000) * (thorough() ? 20 : 1); step(); D = "a long run of kind " + std::to_string(kind) + ", clock " + std::to_string((long long)s);
    auto f = [&](std::vector<double> &v) { uint64_t h = 1; double bad = -1, bv = 0, bk = 0; for (size_t i = 0; i < K; i++) { int k = kind == 4 ? (int)(i * 7 / 5 % 4) : kind; double x = draw(k, i); uint64_t b; memcpy(&b, &x, 8); h = (h ^ b) * 1099511628211ull; bool ok = k == 0 ? x >= 0 && x <= 32767 && x == floor(x) : in_range(k, i, x); if (!ok && bad < 0) { bad = (double)i; bv = x; bk = k; } } v = {bad, bv, bk, (double)(h >> 12)}; };
    auto a = child(s, f); CHECK(a.size() == 4, "draws lost"); CHECK(a[0] < 0, "draw %.0f (kind %.0f) is %.17g, out of its range", a[0], a[2], a[1]); step(); auto b = child(s, f); CHECK(a == b, "two runs from the same clock reading differ"); count(C_TRANS, 2 * K); count(C_STATES, K); count(C_TRACES); count(C_EVALS, K); outcome(hash_bytes(&a[3], 8));
}
void scaling(size_t sh, size_t n) { // the same deviates, scaled: draw i with (mu_i, sd_i) is mu_i + sd_i * z_i; the same fractions for bounds
    std::vector<time_t> sd; for (int i = 0; i < (thorough() ? 4096 : 256); i++) sd.push_back(1600000000 + i * 77777); for (size_t i = sh; i < sd.size(); i += n) { time_t s = sd[i]; step(); D = "scaling, clock " + std::to_string((long long)s); auto z = child(s, [](std::vector<double> &v) { for (int k = 0; k < 64; k++) v.push_back(vt_math_random_f32_normal(0, 1)); });
        for (size_t rot = 0; rot < 9; rot++) { auto y = child(s, [&](std::vector<double> &v) { for (size_t k = 0; k < 64; k++) v.push_back(vt_math_random_f32_normal(NM[(k + rot) % 9][0], NM[(k + rot) % 9][1])); }); for (size_t k = 0; k < 64; k++) { double m = NM[(k + rot) % 9][0], d = NM[(k + rot) % 9][1], w = m + d * z[k]; CHECK(fabs(y[k] - w) <= 1e-6 * (fabs(m) + fabs(d * z[k]) + 1e-9), "deviate %zu with mean %g and deviation %g is %.9g, expected %.9g", k, m, d, y[k], w); } count(C_EVALS, 64); count(C_TRACES); }
        std::set<double> dz(z.begin(), z.end()); CHECK(dz.size() >= 32, "only %zu distinct deviates among 64", dz.size()); bool pos = false, neg = false; for (double v : z) { pos |= v > 0; neg |= v < 0; } CHECK(pos && neg, "all deviates on one side of the mean");
        auto f1 = child(s, [](std::vector<double> &v) { for (int k = 0; k < 64; k++) v.push_back(vt_math_random_f32(1)); }); auto fb = child(s, [](std::vector<double> &v) { for (size_t k = 0; k < 64; k++) v.push_back(vt_math_random_f32(B[k % 18])); }); for (size_t k = 0; k < 64; k++) CHECK(fabs(fb[k] - f1[k] * B[k % 18]) <= 2e-7 * B[k % 18], "draw %zu below %u is %.9g, expected %.9g", k, B[k % 18], fb[k], f1[k] * B[k % 18]);
        auto u1 = child(s, [](std::vector<double> &v) { for (int k = 0; k < 64; k++) v.push_back(vt_math_random_f32_uniform(0, 1)); }); auto ub = child(s, [](std::vector<double> &v) { for (size_t k = 0; k < 64; k++) v.push_back(vt_math_random_f32_uniform(UB[k % 14][0], UB[k % 14][1])); }); for (size_t k = 0; k < 64; k++) { double l = UB[k % 14][0], u = UB[k % 14][1], w = l + (u - l) * u1[k]; CHECK(fabs(ub[k] - w) <= 3e-7 * (fabs(l) + fabs(u)), "uniform draw %zu in [%g,%g] is %.9g, expected %.9g", k, l, u, ub[k], w); } count(C_TRANS, 64 * 14); outcome(hash_bytes(z.data(), z.size() * 8)); }
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); for (size_t i = 0; i < 16; i++) { S_ n = std::to_string(i); auto J = [&](const S_ &nm, std::function<void()> f) { add_job(nm + n, [=] { describe = desc; f(); }); }; if (i < 15) J("longrun_", [=] { longrun((int)(i % 5), i < 5 ? 1700000000 : i < 10 ? 7 : 3999999999LL); }); if (i < 4) J("distinct_", [=] { distinct_seeds(i); }); J("u64_", [=] { u64_seq(i, 16); }); J("orders_", [=] { orders(i, 16); }); J("ranges_", [=] { ranges(i, 16); }); J("scaling_", [=] { scaling(i, 16); }); }
    return run_main(argc, argv, "C25");
}
