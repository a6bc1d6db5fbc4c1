// C21: directory operations on a real scratch directory. Every tree is built twice: the library works on tree A, an
// independent reference (plain system calls following the documented semantics) on its twin B; both must end up equal.
#include "strutil.hpp"
#include <ftw.h>
#include <sys/resource.h>
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; }
enum Kind { FILE_, DIR_, LFILE, LDIR, LDANG, LUP, LSELF, FIFO_, SOCK_, LFIFO, EFILE, NK };
const char *KN[] = {"file", "dir", "link to outside file", "link to outside dir", "dangling link", "link to parent dir", "link to itself", "fifo", "socket", "link to a fifo", "empty file"};
struct Ent { S_ path; Kind k; bool operator<(const Ent &o) const { return path < o.path; } };
typedef std::vector<Ent> Tree;
S_ tree_str(const Tree &t) { S_ r = "{"; for (auto &e : t) r += e.path + " (" + KN[e.k] + ") "; return r + "}"; }
// ---- building and observing
int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
void wipe(const S_ &p) { nftw(p.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS); }
void put_file(const S_ &p, const S_ &c) { int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); CHECK(fd >= 0, "harness: %s: %s", p.c_str(), strerror(errno)); if (!c.empty() && ::write(fd, c.data(), c.size()) < 0) {} ::close(fd); }
void build(const S_ &top, const Tree &t) { // top/R is the tree, top/OUT must never change
    ::mkdir(top.c_str(), 0755); ::mkdir((top + "/R").c_str(), 0755); ::mkdir((top + "/OUT").c_str(), 0755); put_file(top + "/OUT/f", "outside"); ::mkdir((top + "/OUT/d").c_str(), 0755); put_file(top + "/OUT/d/g", "deep"); ::mkdir((top + "/OUT/d/.e").c_str(), 0755);
    for (auto &e : t) { S_ p = top + "/R/" + e.path, up; for (char c : e.path) if (c == '/') up += "../"; up += "../"; switch (e.k) { case FILE_: put_file(p, "c" + e.path); break; case EFILE: put_file(p, ""); break; case DIR_: CHECK(::mkdir(p.c_str(), 0755) == 0, "harness mkdir %s", p.c_str()); break; case LFILE: ::symlink((up + "OUT/f").c_str(), p.c_str()); break; case LDIR: ::symlink((up + "OUT/d").c_str(), p.c_str()); break; case LDANG: ::symlink("no-such", p.c_str()); break; case LUP: ::symlink("..", p.c_str()); break; case FIFO_: CHECK(::mkfifo(p.c_str(), 0644) == 0, "harness mkfifo"); break; case SOCK_: CHECK(::mknod(p.c_str(), S_IFSOCK | 0644, 0) == 0, "harness mknod"); break; case LFIFO: ::mkfifo((top + "/OUT/p").c_str(), 0644); ::symlink((up + "OUT/p").c_str(), p.c_str()); break; default: ::symlink(p.substr(p.rfind('/') + 1).c_str(), p.c_str()); } }
}
void snap_rec(const S_ &p, const S_ &rel, std::vector<S_> &out) {
    DIR *d = ::opendir(p.c_str()); if (!d) return; struct dirent *e; std::vector<S_> names; while ((e = ::readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name); ::closedir(d); std::sort(names.begin(), names.end());
    for (auto &n : names) { S_ q = p + "/" + n, r = rel + "/" + n; struct stat st; if (lstat(q.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { { char m[16]; snprintf(m, sizeof m, " d%03o", (unsigned)(st.st_mode & 07777)); out.push_back(r + m); } snap_rec(q, r, out); } else if (S_ISLNK(st.st_mode)) { char b[4200]; ssize_t k = ::readlink(q.c_str(), b, sizeof b); out.push_back(r + " -> " + S_(b, k > 0 ? k : 0)); } else if (!S_ISREG(st.st_mode)) out.push_back(r + (S_ISFIFO(st.st_mode) ? " p" : " s")); else { int fd = ::open(q.c_str(), O_RDONLY); char b[256]; ssize_t k = fd >= 0 ? ::read(fd, b, sizeof b) : 0; if (fd >= 0) ::close(fd); { char m[16]; snprintf(m, sizeof m, " f%03o ", (unsigned)(st.st_mode & 07777)); out.push_back(r + m + S_(b, k > 0 ? k : 0)); } } }
}
S_ snap(const S_ &p) { std::vector<S_> v; snap_rec(p, "", v); S_ r; for (auto &x : v) r += x + "\n"; return r; }
bool st_ok(const S_ &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
bool is_link(const S_ &p) { struct stat s; return lstat(p.c_str(), &s) == 0 && S_ISLNK(s.st_mode); }
bool is_dir(const S_ &p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
bool is_real_dir(const S_ &p) { struct stat s; return lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
// ---- reference semantics
bool ref_mkdir(const S_ &p) { return st_ok(p) || ::mkdir(p.c_str(), 0775) == 0; }
bool ref_mkdir_parents(const S_ &p) { if (st_ok(p)) return true; if (p.empty()) return false; for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { S_ q = p.substr(0, i); if (q.empty() || q.back() == '/') continue; if (is_dir(q)) continue; if (::mkdir(q.c_str(), 0775)) return false; } return true; }
bool ref_rmdir(const S_ &p) { return st_ok(p) && ::rmdir(p.c_str()) == 0; }
bool ref_rmdir_recurse(const S_ &p) { if (!st_ok(p)) return false; if (is_link(p)) return ::unlink(p.c_str()) == 0; if (!is_real_dir(p)) return false; wipe(p); return !st_ok(p); }
bool ref_rename(const S_ &a, const S_ &b) { return ::rename(a.c_str(), b.c_str()) == 0; }
void queries(const S_ &p) {
    struct stat s; bool ok = stat(p.c_str(), &s) == 0; CHECK(vt_path_exists(p.c_str()) == ok, "exists(%s) is %d", p.c_str(), !ok); CHECK(vt_path_is_dir(p.c_str()) == (ok && S_ISDIR(s.st_mode)), "is_dir(%s)", p.c_str()); CHECK(vt_path_is_file(p.c_str()) == (ok && S_ISREG(s.st_mode)), "is_file(%s)", p.c_str());
    if (!ok || S_ISREG(s.st_mode)) { int64_t z = vt_path_get_file_size(p.c_str()); CHECK(z == (ok ? (int64_t)s.st_size : -1), "file size of %s is %ld", p.c_str(), (long)z); } count(C_TRANS, 4);
}
S_ squeeze(const S_ &p) { S_ r; for (char c : p) if (c != '/' || r.empty() || r.back() != '/') r += c; return r; }
void walk(const S_ &p, bool hide, std::multiset<S_> &out, bool deep) { DIR *d = ::opendir(p.c_str()); if (!d) return; struct dirent *e; std::vector<S_> n; while ((e = ::readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && !(hide && e->d_name[0] == '.')) n.push_back(e->d_name); ::closedir(d); for (auto &x : n) { if (!deep) { out.insert(x); continue; } S_ q = squeeze(p + "/" + x); out.insert(q); if (is_real_dir(q)) walk(q, hide, out, true); } }
S_ setstr(const std::multiset<S_> &s) { S_ r; for (auto &x : s) r += x + " "; return r; }
void listing(const S_ &p, bool deep, bool hide, int dest) { // dest 0 none, 1 given, 2 given with allocator
    D = (deep ? "recursive listing of " : "listing of ") + p + (hide ? " without hidden entries" : "") + " in " + D; step();
    vt_mallocator_t *al = dest == 2 ? vt_mallocator_create() : nullptr; vt_plist_t *pl = dest ? vt_plist_create(1, al) : nullptr; static int stale; if (pl && !deep) for (size_t i = 0; i < p.size() % 3; i++) vt_plist_push_back(pl, &stale); // a plain listing replaces what the list held
    size_t pre = pl ? vt_plist_len(pl) : 0;
    vt_plist_t *r = deep ? vt_path_dir_list_recurse(pl, p.c_str(), hide) : vt_path_dir_list(pl, p.c_str(), hide); count(C_TRANS); count(C_TRACES); count(C_EVALS);
    if (!is_dir(p)) { CHECK(!r, "listing something that is not a directory gave a list"); if (pl) { CHECK(vt_plist_len(pl) <= pre, "a failed listing filled the list"); vt_plist_destroy(pl); } }
    else { CHECK(r && (!pl || r == pl), "no list returned"); std::multiset<S_> got, want; for (size_t i = 0; i < vt_plist_len(r); i++) { vt_str_t *s = (vt_str_t *)vt_plist_get(r, i); CHECK((void *)s != &stale, "the listing still holds what the list held before"); S_ x = str(s); check_str(s, x, "entry"); got.insert(deep ? squeeze(x) : x); } walk(p, hide, want, deep); CHECK(got == want, "listed %s; expected %s", setstr(got).c_str(), setstr(want).c_str()); outcome(hash_str(setstr(got), deep * 2 + hide)); vt_path_dir_free(r); }
    if (al) vt_mallocator_destroy(al); CHECK(live_count() == 0, "leak"); CHECK(open_dirs() == 0, "a directory stayed open");
}
enum Op { O_MKDIR, O_MKDIRP, O_RMDIR, O_RMREC, O_REMOVE, O_RENAME };
const char *ON[] = {"mkdir", "mkdir_parents", "rmdir", "rmdir_recurse", "remove", "rename"};
struct Act { Op op; S_ a, b; };
S_ act_str(const Act &x) { return S_(ON[x.op]) + "(" + x.a + (x.op == O_RENAME ? ", " + x.b : "") + ")"; }
bool lib(const Act &x, const S_ &top) { S_ a = top + x.a, b = top + x.b; switch (x.op) { case O_MKDIR: return vt_path_mkdir(a.c_str()); case O_MKDIRP: return vt_path_mkdir_parents(a.c_str()); case O_RMDIR: return vt_path_rmdir(a.c_str()); case O_RMREC: return vt_path_rmdir_recurse(a.c_str()); case O_REMOVE: return vt_path_remove(a.c_str()); default: return vt_path_rename(a.c_str(), b.c_str()); } }
// performs x on both trees; the outcome of both must agree
void act(const Act &x, const S_ &A, const S_ &B) {
    S_ a = A + x.a; bool was = st_ok(a) || is_link(a), wasdir = is_real_dir(a), dang = is_link(a) && !st_ok(a); S_ before; if (x.op == O_REMOVE && wasdir) before = snap(A); if (x.op == O_RENAME && dang) before = snap(A);
    bool r = lib(x, A); count(C_TRANS); CHECK(live_count() == 0, "%s leaked", act_str(x).c_str()); CHECK(open_dirs() == 0 && open_streams() == 0, "%s left a handle open", act_str(x).c_str());
    S_ b = B + x.a; bool w;
    switch (x.op) {
    case O_MKDIR: w = ref_mkdir(b); break; case O_MKDIRP: w = ref_mkdir_parents(b); break; case O_RMDIR: w = ref_rmdir(b); break; case O_RMREC: w = ref_rmdir_recurse(b); break;
    case O_REMOVE: if (wasdir && !r) { CHECK(snap(A) == before, "remove of a directory failed but changed something"); w = false; } else w = ::remove(b.c_str()) == 0; break; // whether an (empty) directory counts as a file to delete is left open
    default: if (dang) { if (!r) { CHECK(snap(A) == before, "a failed rename changed something"); w = false; break; } } w = ref_rename(b, B + x.b); }
    CHECK(r == w, "%s reported %s, expected %s", act_str(x).c_str(), r ? "success" : "failure", w ? "success" : "failure");
    S_ sa = snap(A), sb = snap(B); CHECK(sa == sb, "after %s the tree is\n%sexpected\n%s", act_str(x).c_str(), sa.c_str(), sb.c_str()); outcome(hash_str(sa, x.op * 2 + r));
    (void)was;
}
// ---- all trees
const std::vector<S_> NAMES{"a", "b", ".h"};
void gen(Tree &cur, size_t from, const std::vector<std::pair<S_, Kind>> &, size_t maxn, size_t maxdepth, const std::vector<Kind> &kinds, const std::function<void(const Tree &)> &f) {
    // canonical: entries in increasing path order of (parent, name); parents before children
    f(cur); if (cur.size() == maxn) return; (void)from;
    std::vector<S_> dirs{""}; for (auto &e : cur) if (e.k == DIR_) dirs.push_back(e.path + "/");
    S_ last = cur.empty() ? "" : cur.back().path;
    auto key = [](const S_ &p) { S_ k = std::to_string(std::count(p.begin(), p.end(), '/')); return k + p; };
    for (auto &d : dirs) { if ((size_t)std::count(d.begin(), d.end(), '/') >= maxdepth) continue; for (auto &n : NAMES) { S_ p = d + n; if (!cur.empty() && key(p) <= key(last)) continue; for (Kind k : kinds) { cur.push_back({p, k}); gen(cur, 0, {}, maxn, maxdepth, kinds, f); cur.pop_back(); } } }
}
void on_tree(const Tree &t, const S_ &dir, bool rich) {
    S_ A = dir + "/A", B = dir + "/B"; std::vector<S_> targets{"/R", "/R/new"}; for (auto &e : t) { targets.push_back("/R/" + e.path); if (rich && (e.k == DIR_ || e.k == LDIR || e.k == FILE_ || e.k == EFILE || e.k == LDANG)) targets.push_back("/R/" + e.path + "/new"); if (rich && e.k == LDIR) targets.push_back("/R/" + e.path + "/g"); }
    auto fresh = [&] { wipe(A); wipe(B); build(A, t); build(B, t); };
    fresh(); for (auto &x : targets) { D = tree_str(t); step(); queries(A + x); for (int deep = 0; deep < 2; deep++) for (int hide = 0; hide < 2; hide++) { D = tree_str(t); listing(A + x, deep, hide, (int)(hash_str(x) + deep + hide) % 3); } }
    { D = tree_str(t); listing(A + "/R/", true, false, 0); D = tree_str(t); listing(A + "/R/", false, false, 1); }
    S_ s0 = snap(A); CHECK(s0 == snap(B), "queries or listings changed the tree"); bool dirty = false;
    auto go = [&](const Act &x) { if (dirty) fresh(); D = act_str(x) + " on " + tree_str(t); step(); act(x, A, B); count(C_TRACES); count(C_EVALS); dirty = snap(A) != s0; };
    for (auto &x : targets) for (Op o : {O_RMREC, O_RMDIR, O_REMOVE, O_MKDIR, O_MKDIRP}) go({o, x, ""});
    for (auto &x : targets) { go({O_MKDIRP, x + "/p/q", ""}); if (rich) { go({O_MKDIRP, x + "/p/", ""}); go({O_MKDIRP, x + "//p//.q//r/", ""}); if (!is_link(A + x)) go({O_RMREC, x + "/", ""}); } }
    if (rich) for (auto &x : targets) { for (auto &y : targets) go({O_RENAME, x, y}); go({O_RENAME, x, "/R/moved"}); go({O_RENAME, x, "/none/moved"}); go({O_RENAME, x, "/OUT/d/moved"}); }
    wipe(A); wipe(B);
}
// ---- histories
void histories(const Tree &t, size_t depth, size_t first, const S_ &dir) {
    std::vector<Act> acts; for (S_ p : {"/R/a", "/R/a/b", "/R/.h"}) { acts.push_back({O_MKDIR, p, ""}); acts.push_back({O_RMDIR, p, ""}); acts.push_back({O_RMREC, p, ""}); acts.push_back({O_REMOVE, p, ""}); }
    acts.push_back({O_MKDIRP, "/R/a/b/a", ""}); acts.push_back({O_MKDIRP, "/R/.h/b", ""}); acts.push_back({O_RENAME, "/R/a", "/R/b"}); acts.push_back({O_RENAME, "/R/b", "/R/.h"}); acts.push_back({O_RENAME, "/R/.h", "/R/a/b"}); acts.push_back({O_RENAME, "/R/a/b", "/R/a"}); acts.push_back({O_RMREC, "/R/b", ""}); acts.push_back({O_REMOVE, "/R/b", ""});
    S_ A = dir + "/A", B = dir + "/B"; std::vector<size_t> h{first};
    std::function<void()> rec = [&] {
        wipe(A); wipe(B); build(A, t); build(B, t); D = tree_str(t); for (size_t i : h) D += "; " + act_str(acts[i]); step();
        for (size_t i : h) act(acts[i], A, B);
        for (S_ p : {"/R", "/R/a", "/R/a/b", "/R/b", "/R/.h", "/R/.h/b"}) queries(A + p); S_ keep = D; if (h.size() == depth) { listing(A + "/R", true, false, 0); D = keep; } count(C_TRACES); count(C_EVALS);
        if (h.size() < depth) for (size_t i = 0; i < acts.size(); i++) { h.push_back(i); rec(); h.pop_back(); }
    };
    if (first < acts.size()) rec(); wipe(A); wipe(B);
}
const size_t NACT = 20;
// ---- the k-th removal / creation is refused
long LEFT; int f_unlink(const char *p) { if (LEFT-- == 0) { errno = EACCES; return -1; } return ::unlink(p); } int f_rmdir(const char *p) { if (LEFT-- == 0) { errno = EACCES; return -1; } return ::rmdir(p); } int f_remove(const char *p) { if (LEFT-- == 0) { errno = EACCES; return -1; } return ::remove(p); } int f_mkdir(const char *p, mode_t m) { struct stat st; if (lstat(p, &st) == 0) { errno = EEXIST; return -1; } if (LEFT-- == 0) { errno = EACCES; return -1; } return ::mkdir(p, m); }
bool inside(const char *p) { S_ x = p; return x.find("..") == S_::npos && x.compare(0, strlen(scratch_dir()), scratch_dir()) == 0; }
void refusals(const S_ &dir) {
    std::vector<Tree> ts{{{"a", FILE_}}, {{"a", DIR_}, {"a/a", FILE_}, {"a/b", DIR_}, {"b", LDIR}}, {{".h", DIR_}, {"a", DIR_}, {"b", DIR_}, {".h/a", DIR_}, {"a/a", FILE_}, {".h/a/b", LDANG}}, {}, {{"a", DIR_}, {"a/a", DIR_}, {"a/a/a", DIR_}, {"a/a/a/a", DIR_}}}; S_ A = dir + "/A";
    for (auto &t : ts) for (long k = 0; k < 12; k++) {
        wipe(A); build(A, t); S_ out = snap(A + "/OUT"), before = snap(A); D = "rmdir_recurse of " + tree_str(t) + " where removal number " + std::to_string(k) + " is refused"; step(); LEFT = k;
        hooks.unlink = f_unlink; hooks.rmdir = f_rmdir; hooks.remove = f_remove; bool r = vt_path_rmdir_recurse((A + "/R").c_str()); hooks.unlink = nullptr; hooks.rmdir = nullptr; hooks.remove = nullptr; bool fired = LEFT < 0; count(C_TRANS); count(C_TRACES); count(C_EVALS);
        if (fired) count(C_FAULTS); bool gone = !st_ok(A + "/R"); CHECK(r == gone, "reported %s but the directory %s", r ? "success" : "failure", gone ? "is gone" : "is still there"); if (fired) CHECK(!r, "a refused removal was reported as success"); CHECK(snap(A + "/OUT") == out, "something outside changed"); CHECK(live_count() == 0 && open_dirs() == 0, "leak"); outcome(hash_str(snap(A), k)); if (!fired) break;
    }
    for (S_ p : {"/R/x", "/R/x/y/z", "/R/x/y/z/w/v"}) for (long k = 0; k < 6; k++) { wipe(A); build(A, {}); D = "mkdir_parents(" + p + ") where creation number " + std::to_string(k) + " is refused"; step(); LEFT = k; hooks.mkdir = f_mkdir; bool r = vt_path_mkdir_parents((A + p).c_str()); hooks.mkdir = nullptr; bool fired = LEFT < 0; bool there = is_dir(A + p); CHECK(r == there, "reported %s but the directory is %s", r ? "success" : "failure", there ? "there" : "missing"); if (fired) { count(C_FAULTS); CHECK(!r, "a refused creation was reported as success"); } CHECK(live_count() == 0, "leak"); count(C_TRANS); count(C_TRACES); count(C_EVALS); if (!fired) break; }
    wipe(A);
}
// every single system call that changes the tree is refused (or would cross a device): failure is reported, nothing has changed
int ERR; int r_rename(const char *, const char *) { errno = ERR; return -1; } int r_path(const char *) { errno = ERR; return -1; } int r_mkdir(const char *p, mode_t) { struct stat st; errno = lstat(p, &st) == 0 ? EEXIST : ERR; return -1; }
void refused_calls(const S_ &dir) {
    S_ A = dir + "/A"; std::vector<Kind> ks{FILE_, EFILE, DIR_, LFILE, LDIR, LUP, FIFO_};
    for (int err : {EACCES, EXDEV, EIO, EBUSY, ENOSPC, EPERM, EROFS, EINTR, ENOENT, EEXIST, ENOTEMPTY}) for (Kind k : ks) for (Kind k2 : ks) {
        Tree t{{"a", k}, {"b", k2}}; if (k == DIR_) t.push_back({"a/x", FILE_}); wipe(A); build(A, t); S_ before = snap(A); ERR = err;
        for (const Act &x : {Act{O_RENAME, "/R/a", "/R/b"}, Act{O_RENAME, "/R/a", "/R/new"}, Act{O_RENAME, "/R/a", "/R/a"}, Act{O_REMOVE, "/R/a", ""}, Act{O_RMDIR, "/R/b", ""}, Act{O_RMREC, "/R/b", ""}, Act{O_MKDIR, "/R/n", ""}, Act{O_MKDIRP, "/R/n/m", ""}}) {
            D = act_str(x) + " on " + tree_str(t) + " where the system refuses (" + strerror(err) + ")"; step(); hooks.rename = r_rename; hooks.unlink = r_path; hooks.rmdir = r_path; hooks.remove = r_path; hooks.mkdir = r_mkdir; bool r = lib(x, A); hooks.rename = nullptr; hooks.unlink = nullptr; hooks.rmdir = nullptr; hooks.remove = nullptr; hooks.mkdir = nullptr; count(C_FAULTS); count(C_TRANS); count(C_TRACES); count(C_EVALS);
            bool same = x.op == O_RENAME && x.a == x.b; CHECK(!r || same, "reported success"); CHECK(snap(A) == before, "the refused operation changed the tree"); CHECK(live_count() == 0 && open_dirs() == 0 && open_streams() == 0, "leak"); outcome(hash_str(D)); }
        // only the rename itself is refused: removals and creations would work, and must not have been used
        for (S_ to : {"/R/b", "/R/new"}) { D = "rename(/R/a, " + to + ") on " + tree_str(t) + " where only renaming is refused (" + strerror(err) + ")"; step(); hooks.rename = r_rename; bool r = vt_path_rename((A + "/R/a").c_str(), (A + to).c_str()); hooks.rename = nullptr; count(C_FAULTS); count(C_TRANS); count(C_EVALS); if (!r) CHECK(snap(A) == before, "the refused rename changed the tree"); else if (err != EXDEV) CHECK(!is_real_dir(A + "/R/a") && !st_ok(A + "/R/a"), "reported success but the old path is there"); }
    }
    wipe(A);
}
// directories that cannot be opened: they hide their own contents from a listing and nothing else
std::set<S_> SHUT; bool shut_fired; DIR *shut_opendir(const char *p) { if (SHUT.count(squeeze(p))) { shut_fired = true; errno = EACCES; return nullptr; } return ::opendir(p); }
void walk_open(const S_ &p, bool hide, std::multiset<S_> &out) { std::multiset<S_> here; walk(p, hide, here, false); for (auto &x : here) { S_ q = squeeze(p + "/" + x); out.insert(q); if (is_real_dir(q) && !SHUT.count(q)) walk_open(q, hide, out); } }
void unreadable(const S_ &dir) {
    S_ A = dir + "/A"; std::vector<Tree> ts{{{"a", DIR_}, {"a/x", FILE_}, {"b", DIR_}, {"b/y", FILE_}, {"c", FILE_}, {".h", DIR_}, {".h/z", FILE_}}, {{"a", DIR_}, {"b", FILE_}, {"c", DIR_}}, {{"a", DIR_}, {"a/a", DIR_}, {"a/a/a", DIR_}, {"a/a/b", FILE_}, {"a/b", FILE_}, {"b", LDIR}}, {{"d", DIR_}, {"d/e", DIR_}, {"d/f", DIR_}, {"d/e/x", FILE_}, {"d/f/x", DIR_}, {"d/g", FILE_}, {"e", DIR_}}};
    for (auto &t : ts) {
        std::vector<S_> ds{A + "/R"}; for (auto &e : t) if (e.k == DIR_) ds.push_back(A + "/R/" + e.path);
        for (size_t m = 1; m < (size_t)1 << ds.size(); m++) {
            std::set<S_> shut; S_ names; for (size_t i = 0; i < ds.size(); i++) if (m >> i & 1) { shut.insert(squeeze(ds[i])); names += ds[i].substr(A.size()) + " "; }
            for (int op = 0; op < 5; op++) { // listing, recursive listing (all / without hidden), recursive listing into a given list, removal
                wipe(A); build(A, t); S_ all = snap(A), out = snap(A + "/OUT"); D = S_(op == 0 ? "listing" : op == 4 ? "rmdir_recurse" : "recursive listing") + " of " + tree_str(t) + " where " + names + "cannot be opened"; step(); shut_fired = false; SHUT = shut;
                if (op == 4) { hooks.opendir = shut_opendir; bool r = vt_path_rmdir_recurse((A + "/R").c_str()); hooks.opendir = nullptr; bool gone = !st_ok(A + "/R"); CHECK(r == gone, "reported %s but the directory %s", r ? "success" : "failure", gone ? "is gone" : "is still there"); CHECK(snap(A + "/OUT") == out, "something outside changed"); }
                else { vt_plist_t *pl = op == 3 ? vt_plist_create(2, nullptr) : nullptr; bool hide = op == 2; hooks.opendir = shut_opendir; vt_plist_t *r = op ? vt_path_dir_list_recurse(pl, (A + "/R").c_str(), hide) : vt_path_dir_list(nullptr, (A + "/R").c_str(), hide); hooks.opendir = nullptr;
                    if (!shut_fired) SHUT.clear(); if (SHUT.count(squeeze(A + "/R"))) { CHECK(!r, "a directory that cannot be opened was listed"); if (pl) { CHECK(vt_plist_len(pl) == 0, "a failed listing filled the list"); vt_plist_destroy(pl); } }
                    else { CHECK(r && (!pl || r == pl), "no list returned"); std::multiset<S_> got, want; for (size_t i = 0; i < vt_plist_len(r); i++) { vt_str_t *s = (vt_str_t *)vt_plist_get(r, i); S_ x = str(s); check_str(s, x, "entry"); got.insert(op ? squeeze(x) : x); } if (op) walk_open(A + "/R", hide, want); else walk(A + "/R", hide, want, false); CHECK(got == want, "listed %s; expected %s", setstr(got).c_str(), setstr(want).c_str()); vt_path_dir_free(r); }
                    CHECK(snap(A) == all, "a listing changed the tree"); }
                CHECK(live_count() == 0, "leak"); CHECK(open_dirs() == 0, "a directory stayed open"); if (shut_fired) count(C_FAULTS); count(C_TRANS); count(C_TRACES); count(C_EVALS); outcome(hash_str(D));
            }
        }
    }
    wipe(A);
}
void shapes(const S_ &dir, bool T) {
    S_ A = dir + "/A", B = dir + "/B";
    for (size_t n = 0; n <= (T ? 400u : 70u); n++) { // wide: n files, every third a directory with a file in it
        if (n > 40 && n % 7) continue; Tree t; for (size_t i = 0; i < n; i++) { S_ nm = (i % 5 == 4 ? "." : "") + S_("n") + std::to_string(i); t.push_back({nm, i % 3 ? FILE_ : DIR_}); if (i % 3 == 0) t.push_back({nm + "/x", FILE_}); }
        wipe(A); wipe(B); build(A, t); build(B, t); for (int deep = 0; deep < 2; deep++) for (int hide = 0; hide < 2; hide++) { D = std::to_string(n) + " entries"; listing(A + "/R", deep, hide, 0); } D = "rmdir_recurse of a directory with " + std::to_string(n) + " entries"; step(); act({O_RMREC, "/R", ""}, A, B); count(C_TRACES);
    }
    for (size_t n = 1; n <= (T ? 150u : 40u); n++) { // deep
        Tree t; S_ p; for (size_t i = 0; i < n; i++) { p += (i ? "/" : "") + S_(i % 4 == 3 ? ".d" : "d"); t.push_back({p, DIR_}); } t.push_back({p + "/end", FILE_}); wipe(A); wipe(B); build(A, t); build(B, t); D = "a chain of " + std::to_string(n); listing(A + "/R", true, n % 2, 0); D = "rmdir_recurse of a chain of " + std::to_string(n); step(); act({O_RMREC, "/R", ""}, A, B); S_ q = "/R"; for (size_t i = 0; i < n; i++) q += "/m" + std::to_string(i % 10); D = "mkdir_parents of depth " + std::to_string(n); step(); act({O_MKDIRP, q, ""}, A, B); act({O_MKDIRP, q + "/", ""}, A, B); act({O_RMREC, "/R", ""}, A, B); count(C_TRACES, 2);
    }
    for (size_t l = 1; l <= 255; l += (T || l < 20 || l > 240) ? 1 : 11) { S_ nm(l, 'n'); wipe(A); wipe(B); build(A, {{nm, DIR_}, {nm + "/" + nm, FILE_}}); build(B, {{nm, DIR_}, {nm + "/" + nm, FILE_}}); D = "names of " + std::to_string(l) + " bytes"; listing(A + "/R", true, true, 0); D = "names of " + std::to_string(l) + " bytes"; step(); act({O_RENAME, "/R/" + nm, "/R/z"}, A, B); act({O_MKDIRP, "/R/" + nm + "/" + nm, ""}, A, B); act({O_RMREC, "/R", ""}, A, B); count(C_TRACES); }
    wipe(A); wipe(B); build(A, {}); build(B, {}); for (S_ p : {S_("/R/") + S_(256, 'n'), S_("/R/ok/") + S_(300, 'n') + "/x"}) { D = "mkdir_parents of an impossible name"; step(); S_ q = A + p; CHECK(!vt_path_mkdir_parents(q.c_str()), "reported success"); CHECK(!vt_path_mkdir(q.c_str()), "mkdir reported success"); CHECK(live_count() == 0, "leak"); }
    for (S_ p : {""}) { D = "empty path"; step(); CHECK(!vt_path_mkdir_parents(p.c_str()) && !vt_path_mkdir(p.c_str()) && !vt_path_rmdir(p.c_str()) && !vt_path_rmdir_recurse(p.c_str()) && !vt_path_remove(p.c_str()) && !vt_path_exists(p.c_str()), "an operation on an empty path succeeded"); }
    // relative paths from inside the tree
    wipe(A); build(A, {}); CHECK(chdir((A + "/R").c_str()) == 0, "harness"); D = "relative paths"; step(); CHECK(vt_path_mkdir_parents("r1/r2/r3") && is_dir(A + "/R/r1/r2/r3"), "relative mkdir_parents"); CHECK(vt_path_mkdir_parents("single") && is_dir(A + "/R/single"), "single component"); CHECK(vt_path_mkdir_parents("t/") && is_dir(A + "/R/t"), "single component with a separator"); CHECK(vt_path_rename("r1/r2", "r1/q") && is_dir(A + "/R/r1/q/r3"), "relative rename"); CHECK(vt_path_rmdir_recurse("r1") && !st_ok(A + "/R/r1"), "relative rmdir_recurse"); CHECK(vt_path_rmdir("single") && !st_ok(A + "/R/single"), "relative rmdir"); CHECK(chdir(dir.c_str()) == 0, "harness"); wipe(A); wipe(B);
}
// directories and chains larger than any table of a fixed size would hold
void wide(const S_ &dir, size_t n) {
    S_ A = dir + "/A", B = dir + "/B"; Tree t; for (size_t i = 0; i < n; i++) t.push_back({(i % 5 == 4 ? ".n" : "n") + std::to_string(i), i % 97 == 3 ? DIR_ : FILE_}); S_ w = std::to_string(n) + " entries";
    build(A, t); for (int deep = 0; deep < 2; deep++) for (int hide = 0; hide < 2; hide++) { D = w; listing(A + "/R", deep, hide, deep + hide); } Tree sub{{"s", DIR_}, {"z", FILE_}}; for (auto &e : t) sub.push_back({"s/" + e.path, e.k}); wipe(A); build(A, sub); build(B, sub); D = w; listing(A + "/R", true, false, 1); D = w; listing(A + "/R", true, true, 0);
    D = "rmdir_recurse of a directory below which there are " + w; step(); act({O_RMREC, "/R", ""}, A, B); count(C_TRACES); wipe(A); wipe(B);
}
void chain(const S_ &dir, size_t n) { struct rlimit rl; if (!getrlimit(RLIMIT_NOFILE, &rl)) { rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_cur < n + 64) return; }
    S_ A = dir + "/A", B = dir + "/B"; Tree t; S_ p; for (size_t i = 0; i < n; i++) { p += (i ? "/" : "") + S_("d"); t.push_back({p, DIR_}); if (i % 16 == 7) t.push_back({p + "/f", FILE_}); } t.push_back({p + "/end", FILE_}); S_ w = "a chain of " + std::to_string(n) + " directories";
    build(A, t); build(B, t); for (int hide = 0; hide < 2; hide++) { D = w; listing(A + "/R", true, hide, hide); } queries(A + "/R/" + p + "/end"); D = "rmdir_recurse of " + w; step(); act({O_RMREC, "/R", ""}, A, B); count(C_TRACES);
    build(A, {}); build(B, {}); S_ q = "/R"; for (size_t i = 0; i < n; i++) q += "/m"; D = "mkdir_parents of " + w; step(); act({O_MKDIRP, q, ""}, A, B); D = "relative mkdir_parents of " + w; CHECK(chdir((A + "/R").c_str()) == 0, "harness"); bool r = vt_path_mkdir_parents(("k" + q.substr(2)).c_str()); CHECK(chdir((B + "/R").c_str()) == 0, "harness"); bool r2 = ref_mkdir_parents("k" + q.substr(2)); CHECK(chdir(dir.c_str()) == 0, "harness"); CHECK(r == r2 && snap(A) == snap(B), "wrong tree (status %d)", r); act({O_RMREC, "/R", ""}, A, B); count(C_TRACES); wipe(A); wipe(B);
}
void long_paths(const S_ &dir) { // every operation on a path of a chosen length, up to the longest the system takes
    S_ A = dir + "/A", B = dir + "/B"; for (size_t len : {200, 254, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 4000, 4090, 4091, 4092, 4093, 4094, 4095}) { wipe(A); wipe(B); S_ base = A + "/R"; if (base.size() + 20 > len) continue; size_t rest = len - base.size(); S_ rel; while (rest > 0) { size_t k = rest > 220 ? 101 : rest > 102 ? rest / 2 : rest; rel += "/" + S_(k - 1, 'p'); rest -= k; } CHECK(base.size() + rel.size() == len, "harness"); S_ up = rel.substr(0, rel.rfind('/')), leaf = rel.substr(rel.rfind('/')), R = "/R";
        auto fresh = [&] { wipe(A); wipe(B); build(A, {}); build(B, {}); }; S_ w = "a path of " + std::to_string(len) + " bytes"; fresh(); D = "mkdir_parents of " + w; step(); act({O_MKDIRP, R + rel, ""}, A, B); queries(A + R + rel); act({O_MKDIRP, R + rel, ""}, A, B); D = w; listing(A + R, true, false, 0); D = w; listing(A + R + up, false, true, 1); D = w; listing(A + R + up, true, true, 0);
        D = "rmdir of " + w; act({O_RMDIR, R + rel, ""}, A, B); D = "mkdir of " + w; act({O_MKDIR, R + rel, ""}, A, B); D = "rename to and from " + w; act({O_RENAME, R + rel, R + "/z"}, A, B); act({O_RENAME, R + "/z", R + rel}, A, B); D = "rmdir_recurse of " + w; act({O_RMREC, R + rel, ""}, A, B); put_file(A + R + rel, "x"); put_file(B + R + rel, "x"); queries(A + R + rel); D = "remove of " + w; act({O_REMOVE, R + rel, ""}, A, B); put_file(A + R + rel, "x"); put_file(B + R + rel, "x"); D = "rmdir_recurse above " + w; act({O_RMREC, R, ""}, A, B); count(C_TRACES, 8); count(C_EVALS, 8); }
    wipe(A); wipe(B);
}
// unusual names: every name over {'.', 'a', ' '} of up to four bytes, and every byte value, alone and around a letter
void names(const S_ &dir, size_t shard, size_t nsh) {
    S_ A = dir + "/A", B = dir + "/B"; std::vector<S_> ns; for (auto &w : words(".a ", 1, 4)) if (w != "." && w != "..") ns.push_back(w); for (int c = 1; c < 256; c++) if (c != '/') for (S_ w : {S_(1, (char)c), S_("a") + (char)c, S_(1, (char)c) + "a", S_("..") + (char)c}) if (w != "." && w != "..") ns.push_back(w);
    for (size_t i = shard; i < ns.size(); i += nsh) { const S_ &n = ns[i]; for (const Tree &t : {Tree{{n, FILE_}}, Tree{{n, DIR_}}, Tree{{n, DIR_}, {n + "/" + n, FILE_}}, Tree{{n, DIR_}, {n + "/" + n, DIR_}, {n + "/" + n + "/f", FILE_}}, Tree{{"d", DIR_}, {"d/" + n, LDIR}, {"d/" + n + "x", FILE_}}}) {
        auto fresh = [&] { wipe(A); wipe(B); build(A, t); build(B, t); }; fresh(); for (int deep = 0; deep < 2; deep++) for (int hide = 0; hide < 2; hide++) { D = "name " + show(n) + " in " + show(tree_str(t)); listing(A + "/R", deep, hide, (int)i % 3); } for (auto &e : t) queries(A + "/R/" + e.path);
        for (const Act &x : {Act{O_RMREC, "/R", ""}, Act{O_RMREC, "/R/" + t[0].path, ""}, Act{O_REMOVE, "/R/" + t.back().path, ""}, Act{O_RMDIR, "/R/" + t.back().path, ""}, Act{O_RENAME, "/R/" + t[0].path, "/R/" + n + "2"}, Act{O_MKDIRP, "/R/q/" + n + "/" + n, ""}, Act{O_MKDIR, "/R/" + n + "y", ""}}) { fresh(); D = show(act_str(x)) + " on " + show(tree_str(t)); step(); act(x, A, B); count(C_TRACES); count(C_EVALS); } } }
    wipe(A); wipe(B);
}
void name_lengths(const S_ &dir, size_t shard, size_t nsh) { // names of every length the system takes, at both levels
    S_ A = dir + "/A", B = dir + "/B"; for (size_t l = 1 + shard; l <= 255; l += nsh) { S_ n(l, 'n'), h = l > 1 ? "." + S_(l - 1, 'h') : S_("h"); Tree t{{n, FILE_}, {h, FILE_}, {"d2", DIR_}, {"d2/" + n, DIR_}, {"d2/" + n + "/" + n, FILE_}}; auto fresh = [&] { wipe(A); wipe(B); build(A, t); build(B, t); }; S_ w = "names of " + std::to_string(l) + " bytes"; fresh();
        for (int deep = 0; deep < 2; deep++) for (int hide = 0; hide < 2; hide++) { D = w; listing(A + "/R", deep, hide, (int)l % 3); } for (auto &e : t) queries(A + "/R/" + e.path);
        for (const Act &x : {Act{O_RMREC, "/R", ""}, Act{O_RMREC, "/R/d2", ""}, Act{O_RMREC, "/R/d2/" + n, ""}, Act{O_REMOVE, "/R/" + n, ""}, Act{O_RENAME, "/R/" + n, "/R/z"}, Act{O_RENAME, "/R/d2", "/R/z"}, Act{O_MKDIRP, "/R/q/" + n + "/" + n, ""}, Act{O_MKDIR, "/R/d2/" + h, ""}}) { fresh(); D = act_str(x) + ", " + w; step(); act(x, A, B); count(C_TRACES); count(C_EVALS); } }
    wipe(A); wipe(B);
}
void big_files(const S_ &dir) { // sizes around the widths of the integer types (sparse files), queried directly, through a link, and after a rename
    S_ f = dir + "/big", l = dir + "/link"; ::symlink("big", l.c_str()); put_file(f, ""); std::vector<int64_t> zs; for (int sh : {7, 8, 15, 16, 30, 31, 32, 33, 40}) for (int64_t d = -2; d <= 2; d++) zs.push_back(((int64_t)1 << sh) + d); zs.push_back(((int64_t)3 << 31) + 5); for (int64_t z = 0; z <= (thorough() ? 70000 : 5000); z++) zs.push_back(z);
    for (int64_t z : zs) { if (::truncate(f.c_str(), z)) continue; D = "a file of " + std::to_string(z) + " bytes"; step(); queries(f); queries(l); CHECK(vt_path_rename(f.c_str(), (dir + "/big2").c_str()), "rename failed"); queries(dir + "/big2"); queries(f); CHECK(vt_path_rename((dir + "/big2").c_str(), f.c_str()), "rename failed"); outcome((uint64_t)z); count(C_TRACES); count(C_EVALS); }
    CHECK(vt_path_remove(f.c_str()), "remove failed"); queries(f); for (S_ p : {"/dev/null", "/dev/zero", "/dev", "/"}) { D = "query of " + p; step(); queries(p); count(C_TRACES); } wipe(l);
}
S_ enter(const S_ &n) { S_ d = S_(scratch_dir()) + "/" + n; ::mkdir(d.c_str(), 0755); CHECK(chdir(d.c_str()) == 0, "harness"); ::umask(0); describe = desc; return d; }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); bool T = thorough(); const size_t N = 32;
    std::vector<Kind> all{FILE_, DIR_, LFILE, LDIR, LDANG, LUP, LSELF}, some{FILE_, DIR_, LDIR}, odd{FILE_, DIR_, FIFO_, SOCK_, LFIFO, EFILE}, few{FILE_, DIR_};
    for (size_t i = 0; i < N; i++) {
        add_job("trees_" + std::to_string(i), [=] { S_ d = enter("t" + std::to_string(i)); size_t k = 0; Tree c; gen(c, 0, {}, T ? 3 : 2, 3, all, [&](const Tree &t) { if (k++ % N == i) on_tree(t, d, true); }); });
        if (i < 8) add_job("odd_" + std::to_string(i), [=] { S_ d = enter("o" + std::to_string(i)); size_t k = 0; Tree c; gen(c, 0, {}, 2, 2, odd, [&](const Tree &t) { bool x = T; for (auto &e : t) x |= e.k >= FIFO_; if (x && k++ % 8 == i) on_tree(t, d, true); }); });
        add_job("trees3_" + std::to_string(i), [=] { S_ d = enter("u" + std::to_string(i)); size_t k = 0; Tree c; gen(c, 0, {}, 3, 3, some, [&](const Tree &t) { if (t.size() == 3 && k++ % N == i) on_tree(t, d, T); }); if (T) gen(c, 0, {}, 4, 4, some, [&](const Tree &t) { if (t.size() == 4 && k++ % N == i) on_tree(t, d, false); }); });
        if (!T) add_job("trees4_" + std::to_string(i), [=] { S_ d = enter("v" + std::to_string(i)); size_t k = 0; Tree c; gen(c, 0, {}, 4, 4, few, [&](const Tree &t) { if (t.size() == 4 && t.back().path.size() >= 5 && k++ % N == i) on_tree(t, d, false); }); });
    }
    std::vector<Tree> starts{{}, {{"a", DIR_}, {"b", LDIR}, {"a/b", FILE_}}, {{"a", DIR_}, {".h", LUP}, {"a/b", DIR_}}};
    for (size_t s = 0; s < starts.size(); s++) for (size_t i = 0; i < NACT; i++) add_job("hist_" + std::to_string(s) + "_" + std::to_string(i), [=] { S_ d = enter("h" + std::to_string(s) + "_" + std::to_string(i)); histories(starts[s], T ? 4 : 3, i, d); });
    for (size_t i = 0; i < 8; i++) add_job("names_" + std::to_string(i), [=] { S_ d = enter("n" + std::to_string(i)); names(d, i, 8); });
    for (size_t n : {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8193, 20000, 66001}) add_job("wide_" + std::to_string(n), [=] { S_ d = enter("w" + std::to_string(n)); wide(d, n); });
    for (size_t n : {48, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 400, 511, 513}) add_job("chain_" + std::to_string(n), [=] { S_ d = enter("c" + std::to_string(n)); chain(d, n); });
    for (size_t i = 0; i < 8; i++) add_job("name_lengths_" + std::to_string(i), [=] { S_ d = enter("nl" + std::to_string(i)); name_lengths(d, i, 8); });
    add_job("long_paths", [] { S_ d = enter("lp"); long_paths(d); });
    add_job("refusals", [] { S_ d = enter("refuse"); refusals(d); }); add_job("unreadable", [] { S_ d = enter("shut"); unreadable(d); }); add_job("refused_calls", [] { S_ d = enter("refuse2"); refused_calls(d); }); add_job("big_files", [] { S_ d = enter("big"); big_files(d); }); add_job("shapes", [=] { S_ d = enter("shapes"); shapes(d, T); });
    return run_main(argc, argv, "C21");
}
