// C22: destinations of log and debug messages, and which of them end the program.
#include "fileops.hpp"
#include "cal.hpp"
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; }
S_ DIRN; int ERRFD = -1; time_t NOW = 1684989609; time_t fake_time(time_t *t) { if (t) *t = NOW; return NOW; }
const S_ STAMP = "2023-05-25 04:40:09";
const char *LV[] = {"INFO", "WARN", "DEBUG", "ERROR", "FATAL", "ASSERT FAILURE"};
S_ path(const S_ &n) { return DIRN + "/" + n; }
const S_ BAD = "missing/dir/x"; bool AVAIL; // cannot be opened unless AVAIL
void enter(const S_ &job) { DIRN = S_(scratch_dir()) + "/" + job; ::mkdir(DIRN.c_str(), 0755); describe = desc; hooks.time = fake_time; zone("UTC0"); ERRFD = ::open(path("stderr").c_str(), O_RDWR | O_CREAT | O_APPEND | O_TRUNC, 0600); CHECK(ERRFD >= 0, "harness"); CHECK(dup2(ERRFD, 2) == 2, "harness"); }
// the world as it should be: contents of the files A, B, C and of standard error
struct World { std::map<S_, S_> f; };
World W; S_ START = "earlier\n"; bool ERR_LOOSE; // loose: a destination could not be opened, so what reaches standard error is not constrained
void reset_world() { W.f.clear(); W.f["A"] = START; W.f["B"] = ""; raw_write(path("A"), START); raw_write(path("B"), ""); ::unlink(path("C").c_str()); W.f["stderr"] = ""; if (ftruncate(ERRFD, 0)) {} ERR_LOOSE = false; vt_log_redirect_all_output(nullptr); vt_debug_redirect_output(nullptr); vt_debug_disable_output(false); }
void compare(const char *when) {
    for (const char *n : {"A", "B", "C", "missing/dir/x", "stderr"}) { S_ g; bool there = raw_read(path(n), g); if (!strcmp(n, "stderr") && ERR_LOOSE) continue; auto it = W.f.find(n); if (it == W.f.end()) CHECK(!there, "%s: %s was written: %s", when, n, brief(g).c_str()); else { CHECK(there, "%s: %s is missing", when, n); CHECK(g == it->second, "%s: %s holds %s, expected %s", when, n, brief(g.size() > 60 ? "..." + g.substr(g.size() - 56) : g).c_str(), brief(it->second.size() > 60 ? "..." + it->second.substr(it->second.size() - 56) : it->second).c_str()); } }
    CHECK(open_streams() == 0, "%s: a stream stayed open", when); CHECK(live_count() == 0, "%s: leak", when);
    if (ERR_LOOSE) { if (ftruncate(ERRFD, 0)) {} W.f["stderr"] = ""; ERR_LOOSE = false; }
    // standard error still works
    fprintf(stderr, "alive\n"); fflush(stderr); W.f["stderr"] += "alive\n"; S_ g; raw_read(path("stderr"), g); CHECK(g == W.f["stderr"], "%s: standard error is no longer usable: it holds %s", when, brief(g).c_str()); if (ftruncate(ERRFD, 0)) {} W.f["stderr"] = "";
}
// ---- log
const char *TGT[] = {"", "A", "B", "C", nullptr}; // model names: "" = standard error
struct Redir { int level; int target; }; // level 6 = all; target 0 none, 1 A, 2 B, 3 BAD, 4 empty string
S_ target_path(int t) { return t == 1 ? path("A") : t == 2 ? path("B") : t == 3 ? path(BAD) : S_(""); }
S_ redir_str(const Redir &r) { static const char *n[] = {"none", "A", "B", "an unopenable file", "\"\""}; return "redirect " + S_(r.level == 6 ? "all" : LV[r.level]) + " to " + n[r.target]; }
int TAB[6];
void redirect(const Redir &r) { S_ p = target_path(r.target); char *z = r.target == 0 ? nullptr : strdup(p.c_str()); if (r.level == 6) vt_log_redirect_all_output(z); else vt_log_redirect_level_output((VitaLogLevel)r.level, z); if (z) { memset(z, 'Z', strlen(z)); free(z); } for (int l = 0; l < 6; l++) if (r.level == 6 || r.level == l) TAB[l] = r.target; count(C_TRANS); }
void expect_line(const S_ &dest, const S_ &line) { W.f[dest] += line; }
// explicit target: 0 none, 1 A, 3 BAD, 5 C
void message(int level, bool expr, const char *zexpr, int expl, const S_ &text, size_t line = 77) {
    S_ p = expl == 5 ? path("C") : target_path(expl); Z z(text); D += S_("; log ") + LV[level] + (expr ? " (expression holds)" : "") + (expl ? " to explicit file " + p : "");
    GuardResult g = guard([&] { vt_log(expl ? p.c_str() : nullptr, (VitaLogLevel)level, expr, zexpr, "some_file.c", line, "%s|%d", (const char *)z, 42); }); count(C_TRANS);
    if (expr) { CHECK(g.how == RETURNED, "a message whose expression holds ended the program"); return; }
    bool fatal = level >= 4; if (fatal) { count(C_STOPS); CHECK(stopped_with_failure(g), "%s did not end the program with a failure status (how %d code %d)", LV[level], g.how, g.code); } else CHECK(g.how == RETURNED, "%s ended the program", LV[level]);
    int t = expl ? expl : TAB[level]; if (t == 3 && !AVAIL) { ERR_LOOSE = true; return; }
    char head[200]; if (zexpr) snprintf(head, sizeof head, "%s %5s [%s] some_file.c:%zu: ", STAMP.c_str(), LV[level], zexpr, line); else snprintf(head, sizeof head, "%s %5s some_file.c:%zu: ", STAMP.c_str(), LV[level], line);
    expect_line(t == 1 ? "A" : t == 2 ? "B" : t == 3 ? BAD : t == 5 ? "C" : "stderr", head + text + "|42\n");
}
void after_history(const std::vector<Redir> &h, bool rich) {
    auto fresh = [&] { reset_world(); for (int &t : TAB) t = 0; D = "history:"; for (auto &r : h) { redirect(r); D += " " + redir_str(r) + ";"; } };
    step(); fresh(); for (int l = 0; l < 6; l++) message(l, false, nullptr, 0, "m" + std::to_string(l)); bool loose = ERR_LOOSE; (void)loose; compare("after one message per level"); count(C_TRACES); count(C_EVALS); uint64_t o = 0; for (int t : TAB) o = o * 7 + t; outcome(o);
    if (!rich) return;
    for (int l = 0; l < 6; l++) for (bool ex : {false, true}) for (const char *ze : {(const char *)nullptr, "x == %d"}) for (int expl : {0, 1, 3, 5}) { step(); fresh(); message(l, ex, ze, expl, "text %s%d", 1234567); compare("after the message"); message(l, false, nullptr, expl, "again"); message((l + 1) % 6, false, nullptr, 0, "other level"); compare("after two more"); count(C_TRACES); count(C_EVALS); outcome(((((o * 6 + l) * 2 + ex) * 2 + !!ze) * 6 + expl) + 1000000); }
}
void rec_redir(std::vector<Redir> &h, size_t depth, size_t rich) { after_history(h, h.size() <= rich); if (h.size() == depth) return; for (int l = 0; l < 7; l++) for (int t = 0; t < 5; t++) { h.push_back({l, t}); rec_redir(h, depth, rich); h.pop_back(); } }
// redirections and messages interleaved
void interleaved(size_t first, size_t depth) {
    const size_t NA = 9; auto one = [&](size_t a, int i) { switch (a) { case 0: redirect({0, 1}); D += "; INFO to A"; break; case 1: redirect({6, 2}); D += "; all to B"; break; case 2: redirect({6, 0}); D += "; all to none"; break; case 3: redirect({4, 1}); D += "; FATAL to A"; break; case 4: message(0, false, nullptr, 0, "i" + std::to_string(i)); break; case 5: message(4, false, nullptr, 0, "f" + std::to_string(i)); break; case 6: message(1, false, "e", 5, "w" + std::to_string(i)); break; case 7: message(5, true, "t", 0, "never"); break; default: message(5, false, "a==b", 0, "as" + std::to_string(i)); } };
    std::vector<size_t> h{first}; std::function<void()> rec = [&] { step(); reset_world(); for (int &t : TAB) t = 0; D = "sequence"; for (size_t i = 0; i < h.size(); i++) one(h[i], (int)i); uint64_t o = 99; for (auto &kv : W.f) o = hash_str(kv.first + kv.second, o); outcome(o); compare("after the sequence"); count(C_TRACES); count(C_EVALS); if (h.size() < depth) for (size_t a = 0; a < NA; a++) { h.push_back(a); rec(); h.pop_back(); } };
    if (first < NA) rec();
}
// ---- debug output
struct Dbg { int target = 0; bool off = false; } DB; char *KEEP[3];
void dmessage(int kind, const S_ &text) { // 0 holds/quit, 1 fails/quit, 2 fails/no quit, 3 printf, 4 holds/no quit, 5 printf without a newline
    Z z(text); static const char *kn[] = {"assertion that holds", "failed assertion", "failed check", "print", "check that holds", "print without a newline"}; D += S_("; ") + kn[kind]; GuardResult g; S_ line;
    if (kind == 3) { g = guard([&] { vt_debug_printf("SUBJ", "%s#%d\n", (const char *)z, 7); }); line = STAMP + " SUBJ " + text + "#7\n"; }
    else if (kind == 5) { g = guard([&] { vt_debug_printf("S", "%s#%d", (const char *)z, 7); }); line = STAMP + " S " + text + "#7"; }
    else { bool holds = kind == 0 || kind == 4, quit = kind <= 1; g = guard([&] { vt_debug_assert(holds, "the expr", "SUBJ", quit, "fi.c", "fun", 123, "%s#%d", (const char *)z, 7); }); line = STAMP + " SUBJ [the expr] fi.c:fun:123: " + text + "#7\n"; }
    count(C_TRANS); if (kind == 1) { count(C_STOPS); CHECK(stopped_with_failure(g), "a failed assertion did not end the program"); } else CHECK(g.how == RETURNED, "the program was ended");
    if (kind == 0 || kind == 4 || DB.off) return; if (DB.target == 3 && !AVAIL) { ERR_LOOSE = true; return; } expect_line(DB.target == 1 ? "A" : DB.target == 2 ? "B" : DB.target == 3 ? BAD : "stderr", line);
}
void debug_seq(size_t first, size_t depth) {
    KEEP[0] = strdup(path("A").c_str()); KEEP[1] = strdup(path("B").c_str()); KEEP[2] = strdup(path(BAD).c_str()); const size_t NA = 12;
    auto one = [&](size_t a, int i) { switch (a) { case 0: vt_debug_redirect_output(nullptr); DB.target = 0; D += "; redirect to none"; break; case 1: vt_debug_redirect_output(KEEP[0]); DB.target = 1; D += "; redirect to A"; break; case 2: vt_debug_redirect_output(KEEP[1]); DB.target = 2; D += "; redirect to B"; break; case 3: vt_debug_redirect_output(KEEP[2]); DB.target = 3; D += "; redirect to an unopenable file"; break; case 4: vt_debug_disable_output(true); DB.off = true; D += "; off"; break; case 5: vt_debug_disable_output(false); DB.off = false; D += "; on"; break; default: dmessage((int)a - 6, "t" + std::to_string(i)); } };
    std::vector<size_t> h{first}; std::function<void()> rec = [&] { step(); reset_world(); DB = Dbg(); D = "debug sequence"; for (size_t i = 0; i < h.size(); i++) { one(h[i], (int)i); if (ERR_LOOSE) compare("after a message to an unopenable file"); } uint64_t o = 5; for (auto &kv : W.f) o = hash_str(kv.first + kv.second, o); outcome(o); compare("after the sequence"); count(C_TRACES); count(C_EVALS); if (h.size() < depth) for (size_t a = 0; a < NA; a++) { h.push_back(a); rec(); h.pop_back(); } };
    if (first < NA) rec(); vt_debug_redirect_output(nullptr);
}
// a destination that comes and goes: it receives exactly the messages sent while it can be opened
void avail(bool on) { if (on) { ::mkdir(path("missing").c_str(), 0755); ::mkdir(path("missing/dir").c_str(), 0755); } else { ::unlink(path(BAD).c_str()); ::rmdir(path("missing/dir").c_str()); ::rmdir(path("missing").c_str()); W.f.erase(BAD); } AVAIL = on; }
void flaky(bool dbg, size_t first, size_t depth) {
    static S_ bad, a; bad = path(BAD); a = path("A"); const size_t NA = 8;
    auto one = [&](size_t x, int i) { S_ t = "m" + std::to_string(i); switch (x) { case 0: avail(true); D += "; destination appears"; return; case 1: avail(false); D += "; destination disappears"; return; }
        if (dbg) switch (x) { case 2: vt_debug_redirect_output(bad.c_str()); DB.target = 3; D += "; redirect to it"; break; case 3: vt_debug_redirect_output(a.c_str()); DB.target = 1; D += "; redirect to A"; break; case 4: dmessage(1, t); break; case 5: dmessage(2, t); break; case 6: dmessage(3, t); break; default: dmessage(5, t); }
        else switch (x) { case 2: redirect({6, 3}); D += "; all to it"; break; case 3: redirect({1, 1}); D += "; WARN to A"; break; case 4: message(0, false, nullptr, 0, t); break; case 5: message(1, false, "e", 0, t); break; case 6: message(4, false, "x", 0, t); break; default: message(3, false, nullptr, 3, t); } };
    std::vector<size_t> h{2, first}; std::function<void()> rec = [&] { step(); reset_world(); avail(false); DB = Dbg(); for (int &t : TAB) t = 0; D = dbg ? "debug sequence" : "log sequence"; for (size_t i = 0; i < h.size(); i++) { one(h[i], (int)i); if (ERR_LOOSE) compare("after a message to an unopenable file"); } uint64_t o = 7; for (auto &kv : W.f) o = hash_str(kv.first + kv.second, o); outcome(o); compare("after the sequence"); count(C_TRACES); count(C_EVALS); if (h.size() < depth) for (size_t x = 0; x < NA; x++) { h.push_back(x); rec(); h.pop_back(); } };
    rec(); avail(false); vt_debug_redirect_output(nullptr); vt_log_redirect_all_output(nullptr);
}
// what the library itself says about misuse goes the same way
void own_messages() {
    for (int off = 0; off < 2; off++) for (int to = 0; to < 2; to++) { reset_world(); D = "the library's own assertion"; step(); static S_ pa; pa = path("A"); vt_debug_disable_output(off); if (to) vt_debug_redirect_output(pa.c_str()); GuardResult g = guard([] { vt_str_len(nullptr); }); CHECK(stopped_with_failure(g), "misuse did not end the program"); S_ a, e; raw_read(path("A"), a); raw_read(path("stderr"), e); CHECK((a != "earlier\n") == (to && !off), "redirected file holds %s", brief(a).c_str()); CHECK(e.empty() == (to || off), "standard error holds %s", brief(e).c_str()); vt_debug_redirect_output(nullptr); CHECK(open_streams() == 0, "stream left open"); count(C_TRACES); count(C_EVALS); count(C_TRANS); }
}
void initial(bool first_debug) { // nothing redirected yet in this process
    W.f.clear(); for (int &t : TAB) t = 0; D = "first message of the process"; step(); if (first_debug) { DB = Dbg(); for (int k = 0; k < 5; k++) dmessage(k, "very first"); compare("debug output before anything else"); } for (int l = 0; l < 6; l++) message(l, false, nullptr, 0, "first"); compare("before any redirection"); DB = Dbg(); for (int k = 0; k < 5; k++) dmessage(k, "dbg"); compare("debug before any redirection");
    for (int l = 0; l < 6; l++) { const char *n = vt_log_get_level_str((VitaLogLevel)l); CHECK(n && !strcmp(n, LV[l]), "level %d is called %s", l, n ? n : "(null)"); }
}
void sizes(size_t i0, size_t n) {
    for (size_t len = i0; len <= (thorough() ? 5000u : 1400u); len += n) { step(); reset_world(); for (int &t : TAB) t = 0; D = "message of " + std::to_string(len) + " bytes"; int l = (int)(len % 6); redirect({l, (int)(len % 3)}); S_ t = pattern(len, 1); std::replace(t.begin(), t.end(), '\n', '.'); message(l, false, len % 2 ? "e" : nullptr, 0, t, len * 100003); compare("after a long message"); DB = Dbg(); dmessage(2, t); dmessage(3, t); compare("after long debug messages"); count(C_TRACES); count(C_EVALS); outcome(len); }
    if (i0 == 0) { // names of every length: a shorter name after a longer one, and names that share a prefix
        S_ base = DIRN + "/"; for (size_t a = 1; a <= 120; a += 7) for (size_t b = 1; b <= 120; b += 5) { step(); reset_world(); for (int &t : TAB) t = 0; S_ pa = base + S_(a, 'p'), pb = base + S_(b, 'p'); D = "redirect to a name of " + std::to_string(a) + ", then of " + std::to_string(b); if (a != b) { ::unlink(pa.c_str()); ::unlink(pb.c_str()); int l = (int)(a % 4); vt_log_redirect_level_output((VitaLogLevel)l, pa.c_str()); vt_log_redirect_level_output((VitaLogLevel)l, pb.c_str()); vt_log(nullptr, (VitaLogLevel)l, false, nullptr, "f", 1, "x"); S_ g; CHECK(!raw_read(pa, g), "the earlier destination was used"); CHECK(raw_read(pb, g) && g.find("f:1: x\n") != S_::npos, "message missing"); ::unlink(pb.c_str()); vt_log_redirect_all_output(pa.c_str()); vt_log_redirect_all_output(pb.c_str()); for (int k = 0; k < 4; k++) vt_log(nullptr, (VitaLogLevel)k, false, nullptr, "f", 1, "x"); CHECK(!raw_read(pa, g), "the earlier destination was used"); CHECK(raw_read(pb, g) && std::count(g.begin(), g.end(), '\n') == 4, "messages missing"); ::unlink(pb.c_str()); } count(C_TRACES); }
        S_ longp = DIRN; while (longp.size() < 4000) { longp += "/" + S_(90, 'q'); ::mkdir(longp.c_str(), 0755); } S_ f = longp + "/log"; if (f.size() < PATH_MAX - 1) { reset_world(); D = "a destination with a path of " + std::to_string(f.size()); step(); ::unlink(f.c_str()); vt_log_redirect_all_output(f.c_str()); vt_log(nullptr, vt_log_warn, false, nullptr, "f", 1, "deep"); S_ g; CHECK(raw_read(f, g) && g.find("deep\n") != S_::npos, "message missing"); }
        // relative names, from one byte on
        CHECK(chdir(DIRN.c_str()) == 0, "harness"); for (size_t len = 1; len <= 255; len += len < 40 ? 1 : 9) for (const char *alpha : {"L", "0", ".x", " ", "%s"}) { static S_ nm; nm.clear(); while (nm.size() < len) nm += alpha[nm.size() % strlen(alpha)]; if (nm == "." || nm == "..") continue; for (int how = 0; how < 9; how++) { D = "a relative destination name of " + std::to_string(len) + " bytes: " + show(nm.substr(0, 20)) + ", way " + std::to_string(how); step(); reset_world(); for (int &t : TAB) t = 0; ::unlink(nm.c_str()); int lv = how < 6 ? how : (int)(len % 4); if (how < 6) vt_log_redirect_level_output((VitaLogLevel)how, nm.c_str()); else if (how == 6) vt_log_redirect_all_output(nm.c_str()); else if (how == 8) vt_debug_redirect_output(nm.c_str()); GuardResult r = guard([&] { if (how == 8) vt_debug_printf("S", "deep\n"); else vt_log(how == 7 ? nm.c_str() : nullptr, (VitaLogLevel)lv, false, nullptr, "f", 1, "deep"); }); (void)r; S_ g, e; CHECK(raw_read(nm, g) && g.size() > 5 && g.compare(g.size() - 5, 5, "deep\n") == 0 && std::count(g.begin(), g.end(), '\n') == 1, "the file holds %s", brief(g).c_str()); raw_read(path("stderr"), e); CHECK(e.empty(), "standard error got %s", brief(e).c_str()); ::unlink(nm.c_str()); count(C_TRACES); count(C_TRANS); count(C_EVALS); } }
        vt_debug_redirect_output(nullptr);
        // a name too long for the system: that level's messages cannot be delivered, the others are not affected
        for (size_t len : {(size_t)PATH_MAX, (size_t)PATH_MAX + 1, (size_t)PATH_MAX + 100, (size_t)3 * PATH_MAX}) for (int lv = 0; lv < 6; lv++) { step(); reset_world(); for (int &t : TAB) t = 0; D = "level " + std::to_string(lv) + " to a name of " + std::to_string(len) + " bytes, others to B"; S_ lp = DIRN; lp += S_(len - 4 - lp.size(), '/') + "LOGX"; for (int k = 0; k < 6; k++) if (k != lv) redirect({k, 2}); { Z z(lp); vt_log_redirect_level_output((VitaLogLevel)lv, z); } for (int k = 0; k < 6; k++) if (k != lv) message(k, false, nullptr, 0, "other"); compare("other levels"); redirect({lv, 1}); message(lv, false, nullptr, 0, "back"); compare("redirected again"); count(C_TRACES); count(C_EVALS); }
        // names of any length up to the limit of the system: every level alone, all levels, an explicit file, debug output
        for (size_t len = DIRN.size() + 8; len < PATH_MAX; len += len < 300 ? 1 : len < 1100 ? 7 : len + 20 < PATH_MAX ? 97 : 1) { if (len > 300 && len + 97 >= PATH_MAX && len < PATH_MAX - 12) len = PATH_MAX - 12; static S_ lp; lp = DIRN; for (int q = 0; lp.size() + 4 < len; q++) lp += q % 3 == 1 && lp.back() == '/' ? "." : "/"; if (lp.back() == '.') lp.back() = '/'; lp += "/LOG"; D = "a destination name of " + std::to_string(lp.size()) + " bytes"; if (lp.size() >= PATH_MAX) continue; S_ real = DIRN + "/LOG", g; for (int how = 0; how < 9; how++) { step(); reset_world(); for (int &t : TAB) t = 0; ::unlink(real.c_str()); int lv = how < 6 ? how : (int)(len % 4); if (how < 6) vt_log_redirect_level_output((VitaLogLevel)how, lp.c_str()); else if (how == 6) vt_log_redirect_all_output(lp.c_str()); else if (how == 8) vt_debug_redirect_output(lp.c_str()); GuardResult r = guard([&] { if (how == 8) vt_debug_printf("S", "deep\n"); else vt_log(how == 7 ? lp.c_str() : nullptr, (VitaLogLevel)lv, false, nullptr, "f", 1, "deep"); }); (void)r; CHECK(raw_read(real, g) && g.size() > 5 && g.compare(g.size() - 5, 5, "deep\n") == 0 && std::count(g.begin(), g.end(), '\n') == 1, "way %d: the file holds %s", how, brief(g).c_str()); S_ e; raw_read(path("stderr"), e); CHECK(e.empty(), "way %d: standard error got %s", how, brief(e).c_str()); CHECK(open_streams() == 0, "stream left open"); count(C_TRACES); count(C_TRANS); count(C_EVALS); outcome(len * 16 + how); } ::unlink(real.c_str()); }
        vt_debug_redirect_output(nullptr);
        vt_log_redirect_all_output(nullptr); }
}
void large(size_t len) { for (int l = 0; l < 6; l++) for (int tgt : {0, 1}) { step(); reset_world(); for (int &t : TAB) t = 0; D = "message of " + std::to_string(len) + " bytes"; redirect({l, tgt}); S_ t = pattern(len, 1); std::replace(t.begin(), t.end(), '\n', '.'); message(l, false, nullptr, 0, t, 7); message(l, false, "e", 3, t, 8); message(l, false, nullptr, 0, "short"); compare("after long messages"); DB = Dbg(); if (tgt) { static S_ pa; pa = path("A"); vt_debug_redirect_output(pa.c_str()); DB.target = 1; } for (int k : {2, 3, 5, 2}) dmessage(k, t); compare("after long debug messages"); count(C_TRACES); count(C_EVALS); outcome(len * 16 + l * 2 + tgt); } vt_debug_redirect_output(nullptr); }
// every part of a message's head, of every length and with directives in it: nothing is cut, nothing is interpreted
void fields(size_t i0, size_t n) {
    std::vector<size_t> lens; for (size_t k = 1; k <= 300; k++) lens.push_back(k); for (size_t k : {511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9000}) lens.push_back(k);
    for (size_t j = i0; j < lens.size(); j += n) for (int which = 0; which < 8; which++) for (int tgt = 0; tgt < 3; tgt++) {
        size_t len = lens[j]; static const char *alpha[] = {"abcdefghij", "%s%d%n%%", "a b]c[d", "\\\t\"{}"}; S_ w; const char *al = alpha[(len + which) % 4]; while (w.size() < len) w += al[w.size() % strlen(al)];
        size_t line = len % 5 == 0 ? 0 : len % 5 == 1 ? SIZE_MAX - len : len % 5 == 2 ? (size_t)INT_MAX + len : len; int lv = (int)((len + which) % 6); step(); reset_world(); for (int &t : TAB) t = 0; DB = Dbg(); static const char *wn[] = {"log expression", "log file", "log file and expression", "debug expression", "debug file", "debug function", "debug subject", "debug print subject"}; D = S_(wn[which]) + " of " + std::to_string(len) + " bytes: " + show(w.substr(0, 20)) + ", line " + std::to_string(line) + ", destination " + std::to_string(tgt);
        S_ ex = which == 0 || which == 2 ? w : "e", fi = which == 1 || which == 2 ? w : "f.c", dest = tgt == 0 ? "stderr" : tgt == 1 ? "A" : "B", want, ls = std::to_string(line); static S_ dp; dp = path(dest);
        if (which < 3) { redirect({lv, tgt}); GuardResult g = guard([&] { vt_log(nullptr, (VitaLogLevel)lv, false, ex.c_str(), fi.c_str(), line, "%s", "body"); }); CHECK(lv >= 4 ? stopped_with_failure(g) : g.how == RETURNED, "wrong outcome"); char h[64]; snprintf(h, sizeof h, "%s %5s ", STAMP.c_str(), LV[lv]); want = h + S_("[") + ex + "] " + fi + ":" + ls + ": body\n"; }
        else { if (tgt) vt_debug_redirect_output(dp.c_str()); S_ de = which == 3 ? w : "e", df = which == 4 ? w : "f.c", dn = which == 5 ? w : "fn", ds = which >= 6 ? w : "SUBJ"; bool q = len % 2; GuardResult g = guard([&] { if (which == 7) vt_debug_printf(ds.c_str(), "%s\n", "body"); else vt_debug_assert(false, de.c_str(), ds.c_str(), q, df.c_str(), dn.c_str(), line, "%s", "body"); }); CHECK(q && which != 7 ? stopped_with_failure(g) : g.how == RETURNED, "wrong outcome"); want = STAMP + " " + ds + (which == 7 ? S_(" ") : " [" + de + "] " + df + ":" + dn + ":" + ls + ": ") + "body\n"; }
        expect_line(dest, want); compare("after the message"); vt_debug_redirect_output(nullptr); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(want));
    }
}
void macros() {
    S_ p = path("C"); struct M { const char *name; std::function<void(size_t &)> f; bool quits; S_ has; bool debug; bool expl; };
    std::vector<M> ms{
#define LN ln = __LINE__;
        {"VT_LOG_INFO", [](size_t &ln) { LN VT_LOG_INFO("v %d", 5); }, false, " INFO ", false, false}, {"VT_LOG_WARN", [](size_t &ln) { LN VT_LOG_WARN("v %d", 5); }, false, " WARN ", false, false}, {"VT_LOG_DEBUG", [](size_t &ln) { LN VT_LOG_DEBUG("v %d", 5); }, false, " DEBUG ", false, false}, {"VT_LOG_ERROR", [](size_t &ln) { LN VT_LOG_ERROR("v %d", 5); }, false, " ERROR ", false, false}, {"VT_LOG_FATAL", [](size_t &ln) { LN VT_LOG_FATAL("v %d", 5); }, true, " FATAL ", false, false},
        {"VT_LOG_ASSERT", [](size_t &ln) { LN VT_LOG_ASSERT(1 == 2, "v %d", 5); }, true, "[1 == 2]", false, false}, {"VT_LOG_ASSERT", [](size_t &ln) { LN VT_LOG_ASSERT(1 == 1, "v %d", 5); }, false, "", false, false},
        {"VT_LOGF_INFO", [=](size_t &ln) { LN VT_LOGF_INFO(p.c_str(), "v %d", 5); }, false, " INFO ", false, true}, {"VT_LOGF_WARN", [=](size_t &ln) { LN VT_LOGF_WARN(p.c_str(), "v %d", 5); }, false, " WARN ", false, true}, {"VT_LOGF_DEBUG", [=](size_t &ln) { LN VT_LOGF_DEBUG(p.c_str(), "v %d", 5); }, false, " DEBUG ", false, true}, {"VT_LOGF_ERROR", [=](size_t &ln) { LN VT_LOGF_ERROR(p.c_str(), "v %d", 5); }, false, " ERROR ", false, true}, {"VT_LOGF_FATAL", [=](size_t &ln) { LN VT_LOGF_FATAL(p.c_str(), "v %d", 5); }, true, " FATAL ", false, true},
        {"VT_LOGF_ASSERT", [=](size_t &ln) { LN VT_LOGF_ASSERT(p.c_str(), 1 == 2, "v %d", 5); }, true, "[1 == 2]", false, true}, {"VT_LOGF_ASSERT", [=](size_t &ln) { LN VT_LOGF_ASSERT(p.c_str(), 1 == 1, "v %d", 5); }, false, "", false, true},
        {"VT_DEBUG_ASSERT", [](size_t &ln) { LN VT_DEBUG_ASSERT(3 < 2, "v %d", 5); }, true, "DEBUG ASSERTION FAILURE [3 < 2]", true, false}, {"VT_DEBUG_ASSERT", [](size_t &ln) { LN VT_DEBUG_ASSERT(3 > 2, "v %d", 5); }, false, "", true, false}, {"VT_CHECK", [](size_t &ln) { LN VT_CHECK(3 < 2, "v %d", 5); }, false, "CHECK FAILURE [3 < 2]", true, false}, {"VT_CHECK", [](size_t &ln) { LN VT_CHECK(3 > 2, "v %d", 5); }, false, "", true, false}, {"VT_ENFORCE", [](size_t &ln) { LN VT_ENFORCE(3 < 2, "v %d", 5); }, true, "ENFORCE FAILURE [3 < 2]", true, false}, {"VT_ENFORCE", [](size_t &ln) { LN VT_ENFORCE(3 > 2, "v %d", 5); }, false, "", true, false},
        {"VT_NOTE", [](size_t &ln) { LN VT_NOTE("v %d", 5); }, false, "NOTE", true, false}, {"VT_REQUIRED", [](size_t &ln) { LN VT_REQUIRED("v %d", 5); }, true, "REQUIRED", true, false}, {"VT_TODO", [](size_t &ln) { LN VT_TODO("v %d", 5); }, true, "TODO", true, false}, {"VT_UNIMPLEMENTED", [](size_t &ln) { LN VT_UNIMPLEMENTED("v %d", 5); }, true, "UNIMPLEMENTED", true, false},
    };
    static S_ pa; pa = path("A");
    for (auto &m : ms) for (int redir = 0; redir < 2; redir++) for (int off = 0; off < 2; off++) {
        reset_world(); D = S_(m.name) + (redir ? " redirected to A" : "") + (off ? ", debug output off" : ""); step(); if (redir) { vt_log_redirect_all_output(pa.c_str()); vt_debug_redirect_output(pa.c_str()); } vt_debug_disable_output(off); size_t ln = 0; GuardResult g = guard([&] { m.f(ln); });
        CHECK(m.quits ? stopped_with_failure(g) : g.how == RETURNED, "%s", m.quits ? "did not end the program with a failure" : "ended the program"); S_ dest = m.expl ? "C" : redir ? "A" : "stderr", got; for (const char *n : {"A", "B", "C", "stderr"}) { got.clear(); raw_read(path(n), got); if (!strcmp(n, "A")) { CHECK(got.compare(0, 8, "earlier\n") == 0, "earlier content lost"); got = got.substr(8); } bool speaks = !m.has.empty() && !(m.debug && off) && dest == n; if (!speaks) CHECK(got.empty(), "%s was written: %s", n, brief(got).c_str()); else { char pos[64]; snprintf(pos, sizeof pos, "c22.cpp:%s%zu: v 5\n", m.debug ? "operator():" : "", ln); CHECK(got.compare(0, STAMP.size(), STAMP) == 0 && got.find(m.has) != S_::npos && got.find(pos) != S_::npos && got.size() >= strlen(pos) && got.compare(got.size() - strlen(pos), S_::npos, pos) == 0, "%s holds %s", n, brief(got).c_str()); } }
        CHECK(open_streams() == 0, "stream left open"); vt_debug_redirect_output(nullptr); count(C_TRACES); count(C_EVALS); count(C_TRANS); outcome(hash_str(D));
    }
}
// line numbers at the edges of narrower types, at every level, with and without an expression, to every kind of destination
void lines(int lv) {
    for (size_t line : {(size_t)0, (size_t)1, (size_t)9, (size_t)10, (size_t)99, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)999, (size_t)1000, (size_t)9999, (size_t)10000, (size_t)32767, (size_t)32768, (size_t)65535, (size_t)65536, (size_t)99999, (size_t)100000, (size_t)INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX}) for (const char *ze : {(const char *)nullptr, "", "x"}) for (int tgt : {0, 1}) for (int expl : {0, 1, 3, 5}) for (bool ex : {false, true}) {
        step(); reset_world(); for (int &t : TAB) t = 0; D = "line " + std::to_string(line) + (ze ? ", expression " + S_(ze) : ""); redirect({lv, tgt}); message(lv, ex, ze, expl, "at", line); compare("after the message"); message(lv, false, nullptr, 0, "next"); compare("after the next"); count(C_TRACES); count(C_EVALS); outcome(hash_str(D, lv * 64 + tgt * 32 + expl * 2 + ex));
        if (lv < 2 && !expl && !ex && ze) { DB = Dbg(); static S_ pa; pa = path("A"); if (tgt) { vt_debug_redirect_output(pa.c_str()); DB.target = 1; } GuardResult g = guard([&] { vt_debug_assert(false, ze, "SUBJ", lv, "fi.c", "fun", line, "body"); }); CHECK(lv ? stopped_with_failure(g) : g.how == RETURNED, "wrong outcome"); expect_line(tgt ? "A" : "stderr", STAMP + " SUBJ [" + ze + "] fi.c:fun:" + std::to_string(line) + ": body\n"); compare("after the assertion"); vt_debug_redirect_output(nullptr); }
    }
    vt_log_redirect_all_output(nullptr);
}
// more messages than 8- or 16-bit counters hold, to one destination, in one process
void crowd(int kind) { // 0 log to a redirected file, 1 log to an explicit file, 2 debug print, 3 failed check, 4 log levels in rotation
    step(); reset_world(); for (int &t : TAB) t = 0; D = "70,001 messages of kind " + std::to_string(kind); S_ A = path("A"), want = START; if (kind == 0 || kind == 4) vt_log_redirect_all_output(A.c_str()); if (kind == 2 || kind == 3) { vt_debug_disable_output(false); vt_debug_redirect_output(A.c_str()); }
    for (int i = 0; i < 70001; i++) { if (!(i & 255)) step(); char t[64]; snprintf(t, sizeof t, "%d", i); int lv = kind == 4 ? i % 4 : 1; if (kind <= 1 || kind == 4) vt_log(kind == 1 ? A.c_str() : nullptr, (VitaLogLevel)lv, false, nullptr, "f.c", 5, "m%d", i); else if (kind == 2) vt_debug_printf("S", "m%d\n", i); else vt_debug_assert(false, "e", "S", false, "f.c", "fn", 5, "m%d", i);
        char h[128]; if (kind <= 1 || kind == 4) snprintf(h, sizeof h, "%s %5s f.c:5: m%d\n", STAMP.c_str(), LV[lv], i); else if (kind == 2) snprintf(h, sizeof h, "%s S m%d\n", STAMP.c_str(), i); else snprintf(h, sizeof h, "%s S [e] f.c:fn:5: m%d\n", STAMP.c_str(), i); want += h; }
    S_ g; raw_read(A, g); size_t k = 0; while (k < g.size() && k < want.size() && g[k] == want[k]) k++; CHECK(g == want, "the file differs from what was sent at byte %zu: %s, expected %s", k, show(g.substr(k > 30 ? k - 30 : 0, 90)).c_str(), show(want.substr(k > 30 ? k - 30 : 0, 90)).c_str()); CHECK(open_streams() == 0 && live_count() == 0, "something stayed open"); count(C_TRANS, 70001); count(C_TRACES); outcome(kind + 9000); vt_debug_redirect_output(nullptr); vt_log_redirect_all_output(nullptr);
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough();
    for (int l = 0; l < 7; l++) for (int t = 0; t < 5; t++) add_job("redirect_" + std::to_string(l) + "_" + std::to_string(t), [=] { enter("r" + std::to_string(l) + std::to_string(t)); std::vector<Redir> h{{l, t}}; rec_redir(h, T ? 4 : 3, T ? 2 : 1); });
    add_job("redirect_none", [] { enter("r"); std::vector<Redir> h; after_history(h, true); });
    for (size_t a = 0; a < 12; a++) { if (a < 9) add_job("inter_" + std::to_string(a), [=] { enter("i" + std::to_string(a)); interleaved(a, T ? 6 : 5); }); add_job("debug_" + std::to_string(a), [=] { enter("d" + std::to_string(a)); debug_seq(a, T ? 5 : 4); }); 
        for (size_t st = 0; st < 5; st++) { static const S_ starts[] = {S_(""), S_("no newline"), S_("\n"), S_("x\0y\xff", 4), pattern(70001, 3)}; add_job("start_" + std::to_string(st) + "_" + std::to_string(a), [=] { enter("st" + std::to_string(st) + "_" + std::to_string(a)); START = starts[st]; debug_seq(a, st == 4 ? 2 : 3); if (a < 9) interleaved(a, st == 4 ? 2 : 3); }); } }
    for (size_t n : {4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 70001}) add_job("large_" + std::to_string(n), [=] { enter("l" + std::to_string(n)); large(n); });
    for (size_t i = 0; i < 8; i++) add_job("sizes_" + std::to_string(i), [=] { enter("s" + std::to_string(i)); sizes(i, 8); });
    for (size_t i = 0; i < 8; i++) add_job("fields_" + std::to_string(i), [=] { enter("f" + std::to_string(i)); fields(i, 8); });
    for (size_t a = 0; a < 8; a++) for (int d = 0; d < 2; d++) add_job("flaky_" + std::to_string(d) + std::to_string(a), [=] { enter("fl" + std::to_string(d) + std::to_string(a)); flaky(d, a, T ? 7 : 6); });
    for (int l = 0; l < 6; l++) add_job("lines_" + std::to_string(l), [=] { enter("ln" + std::to_string(l)); lines(l); });
    for (int k = 0; k < 5; k++) add_job("crowd_" + std::to_string(k), [=] { enter("cr" + std::to_string(k)); crowd(k); });
    add_job("initial", [] { enter("initial"); initial(false); }); add_job("initial_debug", [] { enter("initialdbg"); initial(true); }); add_job("own", [] { enter("own"); own_messages(); }); add_job("macros", [] { enter("macros"); macros(); });
    return run_main(argc, argv, "C22");
}
