// C24: socket operations under every answer of the system, and real loopback conversations.
#include "fileops.hpp"
#include <netinet/tcp.h>
using namespace mc;
namespace {
typedef std::string S_; S_ D; S_ desc() { return D; }
// ---- a scripted kernel: answers are consumed in call order, every call is recorded
struct Ans { long ret; int err; short revents; };
struct Call { S_ name; int fd; };
std::vector<Call> CALLS; int NFD; std::multiset<int> OPEN; bool FAILSTEP[8]; int ERRNO; bool CLOSEFAIL;
enum { SOCKET, OPT, BIND, LISTEN, CONNECT, ACCEPT };
struct Seen { int domain, type, backlog, optlev, optname, optval; struct sockaddr_in bound, conn; } SEEN;
bool fails(int s) { if (FAILSTEP[s]) { errno = ERRNO; return true; } return false; }
void rec(const char *n, int fd) { CALLS.push_back({n, fd}); count(C_TRANS); }
void must_open(const char *n, int fd) { CHECK(OPEN.count(fd), "%s on descriptor %d which is not open", n, fd); }
int k_socket(int d, int t, int) { rec("socket", -1); if (fails(SOCKET)) return -1; SEEN.domain = d; SEEN.type = t; OPEN.insert(NFD); return NFD; }
int k_setsockopt(int s, int l, int o, const void *v, socklen_t n) { rec("setsockopt", s); must_open("setsockopt", s); if (fails(OPT)) return -1; SEEN.optlev = l; SEEN.optname = o; if (n == sizeof(int)) memcpy(&SEEN.optval, v, n); return 0; }
int k_bind(int s, const struct sockaddr *a, socklen_t n) { rec("bind", s); must_open("bind", s); CHECK(n == sizeof(struct sockaddr_in), "bind: address length %u", n); memcpy(&SEEN.bound, a, n); return fails(BIND) ? -1 : 0; }
int k_listen(int s, int b) { rec("listen", s); must_open("listen", s); SEEN.backlog = b; return fails(LISTEN) ? -1 : 0; }
int k_connect(int s, const struct sockaddr *a, socklen_t n) { rec("connect", s); must_open("connect", s); CHECK(n == sizeof(struct sockaddr_in), "connect: address length %u", n); memcpy(&SEEN.conn, a, n); return fails(CONNECT) ? -1 : 0; }
int k_accept(int s, struct sockaddr *a, socklen_t *n) { rec("accept", s); must_open("accept", s); if (fails(ACCEPT)) return -1; if (a) { CHECK(n && *n >= sizeof(struct sockaddr_in), "accept: address length"); struct sockaddr_in p = {}; p.sin_family = AF_INET; p.sin_port = htons(4242); memcpy(a, &p, sizeof p); *n = sizeof p; } OPEN.insert(NFD); return NFD; }
int k_close(int s) { rec("close", s); auto it = OPEN.find(s); CHECK(it != OPEN.end(), "close of descriptor %d which is not open", s); OPEN.erase(it); if (CLOSEFAIL) { errno = EIO; return -1; } return 0; }
int k_shutdown(int s, int) { rec("shutdown", s); return 0; }
// data transfer
Ans XFER, POLL; int DFD; const char *DATA; size_t DLEN; bool TOUCH; struct sockaddr_in PEER, TO; S_ INCOMING; struct { int n, timeout, fd; short ev; } PSEEN;
ssize_t xret() { if (XFER.ret < 0) errno = XFER.err; return XFER.ret; }
ssize_t k_send(int s, const void *b, size_t n, int f) { rec("send", s); CHECK(!(f & ~MSG_NOSIGNAL), "send with flags %#x", f); CHECK(s == DFD, "send on descriptor %d, given %d", s, DFD); CHECK(n == DLEN, "send of %zu bytes, given %zu", n, DLEN); CHECK(n > INCOMING.size() || (mem_ok(b, n) && (n == 0 || memcmp(b, INCOMING.data(), n) == 0)), "send of other data than given"); return xret(); }
ssize_t k_sendto(int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { if (!a) return k_send(s, b, n, f); CHECK(l == sizeof(struct sockaddr_in), "sendto: address length %u", l); memcpy(&TO, a, l); return k_send(s, b, n, f); }
ssize_t k_recv(int s, void *b, size_t n, int f) { rec("recv", s); CHECK(!(f & ~(MSG_NOSIGNAL | MSG_CMSG_CLOEXEC)), "receive with flags %#x", f); CHECK(s == DFD, "recv on descriptor %d, given %d", s, DFD); CHECK(n == DLEN, "recv into %zu bytes, given %zu", n, DLEN); CHECK(n > ((size_t)1 << 30) || mem_ok(b, n), "recv buffer is smaller than its length"); if (XFER.ret > 0) memcpy(b, INCOMING.data(), (size_t)XFER.ret); return xret(); }
ssize_t k_recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { if (XFER.ret >= 0 && a) { CHECK(l && *l >= sizeof(struct sockaddr_in), "recvfrom: no room for the peer address"); memcpy(a, &PEER, sizeof PEER); *l = sizeof PEER; } return k_recv(s, b, n, f); }
int k_poll(struct pollfd *p, nfds_t n, int t) { rec("poll", n ? p[0].fd : -1); PSEEN = {(int)n, t, n ? p[0].fd : -1, (short)(n ? p[0].events : 0)}; for (nfds_t i = 0; i < n; i++) p[i].revents = i == 0 ? POLL.revents : 0; if (POLL.ret < 0) errno = POLL.err; return (int)POLL.ret; }
void install() { hooks.socket = k_socket; hooks.setsockopt = k_setsockopt; hooks.bind = k_bind; hooks.listen = k_listen; hooks.accept = k_accept; hooks.connect = k_connect; hooks.send = k_send; hooks.recv = k_recv; hooks.sendto = k_sendto; hooks.recvfrom = k_recvfrom; hooks.shutdown = k_shutdown; hooks.close = k_close; hooks.poll = k_poll; describe = desc; }
void fresh(int fd) { CALLS.clear(); OPEN.clear(); NFD = fd; memset(FAILSTEP, 0, sizeof FAILSTEP); memset(&SEEN, 0, sizeof SEEN); CLOSEFAIL = false; ERRNO = ECONNREFUSED; }
void seq(std::initializer_list<const char *> want) { S_ g, w; for (auto &c : CALLS) g += c.name + " "; for (auto c : want) w += S_(c) + " "; CHECK(g == w, "system calls made: %s; expected: %s", g.c_str(), w.c_str()); }
void note(int64_t r) { count(C_TRACES); count(C_EVALS); uint64_t h = hash_str(D); outcome(hash_bytes(&r, 8, h)); }
const int FDS[] = {0, 1, 3, 7, 1023, INT_MAX}; const int ERRS[] = {EINTR, ECONNREFUSED, EADDRINUSE, EMFILE, ETIMEDOUT};
void startup() {
    for (int fd : FDS) for (int type : {SOCK_STREAM, SOCK_DGRAM}) for (int fs = -1; fs < 4; fs++) for (int e : ERRS) for (int cf = 0; cf < 2; cf++) for (int backlog : {0, 1, 5, 128, INT_MAX}) {
        if (fs < 0 && (e != ERRS[0] || cf)) continue; if (fs == LISTEN && type == SOCK_DGRAM) continue; step(); fresh(fd); D = S_("startup_server ") + (type == SOCK_STREAM ? "TCP" : "UDP") + " descriptor " + std::to_string(fd) + " failing step " + std::to_string(fs) + " errno " + std::to_string(e) + " backlog " + std::to_string(backlog) + (cf ? " close fails" : ""); if (fs >= 0) { FAILSTEP[fs] = true; count(C_FAULTS); } ERRNO = e; CLOSEFAIL = cf;
        vt_socket_t r = vt_socket_startup_server((VitaSocketType)type, 4242, backlog); static const long want[] = {-1, -1, -2, -3}; CHECK(r == (fs < 0 ? (vt_socket_t)fd : want[fs]), "returned %lld", (long long)r);
        switch (fs) { case 0: seq({"socket"}); break; case 1: seq({"socket", "setsockopt", "close"}); break; case 2: seq({"socket", "setsockopt", "bind", "close"}); break; case 3: seq({"socket", "setsockopt", "bind", "listen", "close"}); break; default: if (type == SOCK_STREAM) seq({"socket", "setsockopt", "bind", "listen"}); else seq({"socket", "setsockopt", "bind"}); }
        CHECK(OPEN.size() == (fs < 0 ? 1u : 0u), "%zu descriptors left open", OPEN.size()); if (fs != 0) CHECK(SEEN.domain == AF_INET && SEEN.type == type, "socket kind"); if (fs < 0 && type == SOCK_STREAM) CHECK(SEEN.backlog == backlog, "backlog %d, given %d", SEEN.backlog, backlog); if (fs != 0 && fs != 1) CHECK(SEEN.optlev == SOL_SOCKET && SEEN.optname == SO_REUSEADDR && SEEN.optval != 0, "address reuse was not enabled"); note(r);
    }
    for (int fd : FDS) for (int type : {SOCK_STREAM, SOCK_DGRAM}) for (int fs : {-1, (int)SOCKET, (int)CONNECT}) for (int e : ERRS) for (int cf = 0; cf < 2; cf++) { if (fs < 0 && (e != ERRS[0] || cf)) continue; step(); fresh(fd); D = S_("startup_client ") + (type == SOCK_STREAM ? "TCP" : "UDP") + " descriptor " + std::to_string(fd) + " failing step " + std::to_string(fs) + " errno " + std::to_string(e) + (cf ? " close fails" : ""); if (fs >= 0) { FAILSTEP[fs] = true; count(C_FAULTS); } ERRNO = e; CLOSEFAIL = cf;
        VitaSocketAddress a{htons(4242), htonl(0x7f000001)}; vt_socket_t r = vt_socket_startup_client((VitaSocketType)type, a); CHECK(r == (fs < 0 ? fd : fs == SOCKET ? -1 : -4), "returned %lld", (long long)r); if (fs == SOCKET) seq({"socket"}); else if (fs < 0) seq({"socket", "connect"}); else seq({"socket", "connect", "close"}); CHECK(OPEN.size() == (fs < 0 ? 1u : 0u), "%zu descriptors left open", OPEN.size()); if (fs != SOCKET) CHECK(SEEN.domain == AF_INET && SEEN.type == type, "socket kind"); note(r); }
    for (int fd : FDS) for (int lf : FDS) for (int fs = 0; fs < 2; fs++) for (int e : ERRS) { if (lf == fd) continue; step(); fresh(fd); OPEN.insert(lf); D = "accept_client on " + std::to_string(lf) + " giving " + std::to_string(fs ? -1 : fd); if (fs) { FAILSTEP[ACCEPT] = true; count(C_FAULTS); } ERRNO = e; vt_socket_t r = vt_socket_accept_client(lf); CHECK(r == (fs ? -1 : fd), "returned %lld", (long long)r); seq({"accept"}); CHECK(OPEN.size() == (fs ? 1u : 2u), "descriptors"); note(r); }
    for (int fd : FDS) for (int cf = 0; cf < 2; cf++) { step(); fresh(fd); OPEN.insert(fd); CLOSEFAIL = cf; if (cf) count(C_FAULTS); D = "close " + std::to_string(fd); bool r = vt_socket_close(fd); CHECK(r == !cf, "returned %d", r); seq({"close"}); CHECK(CALLS[0].fd == fd, "closed %d", CALLS[0].fd); note(r); }
    D = "init/quit"; step(); CHECK(vt_socket_init() && vt_socket_quit(), "init/quit failed"); note(1);
}
void ports(int sh, int n) { // every port number, both directions
    for (int p = sh; p < 65536; p += n) { step(); fresh(5); D = "port " + std::to_string(p); VitaSocketAddress a = vt_socket_make_address((int16_t)(uint16_t)p, "10.20.30.40"); unsigned char *pb = (unsigned char *)&a.port, *ab = (unsigned char *)&a.addr; CHECK(pb[0] == p >> 8 && pb[1] == (p & 255), "make_address: port bytes %d %d", pb[0], pb[1]); CHECK(ab[0] == 10 && ab[1] == 20 && ab[2] == 30 && ab[3] == 40, "make_address: address bytes");
        for (int type : {SOCK_STREAM, SOCK_DGRAM}) { vt_socket_t r = vt_socket_startup_server((VitaSocketType)type, p, 3); CHECK(r == 5, "server"); unsigned char *sp = (unsigned char *)&SEEN.bound.sin_port; CHECK(SEEN.bound.sin_family == AF_INET && sp[0] == p >> 8 && sp[1] == (p & 255) && SEEN.bound.sin_addr.s_addr == INADDR_ANY, "server bound elsewhere"); r = vt_socket_startup_client((VitaSocketType)type, a); CHECK(r == 5, "client"); CHECK(SEEN.conn.sin_family == AF_INET && SEEN.conn.sin_port == a.port && SEEN.conn.sin_addr.s_addr == a.addr, "client connected elsewhere"); }
        INCOMING = "data"; DFD = 5; DLEN = 4; XFER = {4, 0, 0}; char b[5] = "data"; CHECK(vt_socket_send_to(5, a, b, 4) == 4 && TO.sin_family == AF_INET && TO.sin_port == a.port && TO.sin_addr.s_addr == a.addr, "send_to elsewhere");
        PEER = {}; PEER.sin_family = AF_INET; PEER.sin_port = htons((uint16_t)p); PEER.sin_addr.s_addr = htonl(0x01020300u + (p & 255)); VitaSocketAddress f{1, 2}; CHECK(vt_socket_receive_from(5, &f, b, 4) == 4 && f.port == PEER.sin_port && f.addr == PEER.sin_addr.s_addr, "receive_from: peer address"); POLL = {1, 0, POLLIN}; f = {1, 2}; CHECK(vt_socket_receive_timed_from(5, &f, b, 4, 10) == 4 && f.port == PEER.sin_port && f.addr == PEER.sin_addr.s_addr, "receive_timed_from: peer address"); count(C_TRACES, 8); count(C_EVALS, 8); outcome(p); }
}
void addresses() { const int o[] = {0, 1, 9, 10, 99, 100, 127, 192, 255}; for (int a : o) for (int b : o) for (int c : o) for (int d : o) { step(); char t[32]; snprintf(t, sizeof t, "%d.%d.%d.%d", a, b, c, d); D = S_("address ") + t; Z z(t); VitaSocketAddress r = vt_socket_make_address(80, z); unsigned char *x = (unsigned char *)&r.addr; CHECK(x[0] == a && x[1] == b && x[2] == c && x[3] == d && r.port == htons(80), "make_address gives %d.%d.%d.%d", x[0], x[1], x[2], x[3]); count(C_TRACES); count(C_EVALS); count(C_TRANS); outcome(hash_str(t)); } }
// op: 0 send 1 send_to 2 receive 3 receive_from 4 receive_timed 5 receive_timed_from
int32_t call(int op, vt_socket_t fd, VitaSocketAddress *a, char *buf, size_t len, uint32_t to) { switch (op) { case 0: return vt_socket_send(fd, buf, len); case 1: return vt_socket_send_to(fd, *a, buf, len); case 2: return vt_socket_receive(fd, buf, len); case 3: return vt_socket_receive_from(fd, a, buf, len); case 4: return vt_socket_receive_timed(fd, buf, len, to); default: return vt_socket_receive_timed_from(fd, a, buf, len, to); } }
const char *ON[] = {"send", "send_to", "receive", "receive_from", "receive_timed", "receive_timed_from"};
void transfers(int op) {
    std::vector<size_t> lens; for (size_t n = 0; n <= (thorough() ? 200u : 40u); n++) lens.push_back(n); for (size_t n : {255, 256, 257, 1023, 1024, 1025, 4096, 65507, 65536, 100000}) lens.push_back(n);
    struct P { Ans a; uint32_t to; }; std::vector<P> polls; if (op < 4) polls.push_back({{1, 0, POLLIN}, 0}); else for (uint32_t to : {0u, 1u, 1000u, 0x7fffffffu, 0xffffffffu}) { for (int e : ERRS) polls.push_back({{-1, e, 0}, to}); polls.push_back({{0, 0, 0}, to}); for (int re : {POLLIN, POLLHUP, POLLERR, POLLNVAL, POLLIN | POLLHUP, POLLIN | POLLERR, POLLHUP | POLLERR, POLLIN | POLLPRI, POLLIN | POLLHUP | POLLERR}) polls.push_back({{1, 0, (short)re}, to}); }
    for (size_t len : lens) { S_ data = pattern(len, 5); std::vector<long> rets{-1, 0, (long)len}; if (len > 1) { rets.push_back(1); rets.push_back((long)len - 1); rets.push_back((long)len / 2); }
        for (auto &p : polls) for (long ret : rets) for (int e : ERRS) for (int fd : FDS) { if (ret >= 0 && e != ERRS[0]) continue; if (len > 3 && fd != 3 && fd != 0) continue; step(); CALLS.clear(); DFD = fd; DLEN = len; POLL = p.a; XFER = {ret, e, 0}; INCOMING = data; PEER = {}; PEER.sin_family = AF_INET; PEER.sin_port = htons(777); PEER.sin_addr.s_addr = htonl(0x7f000002); VitaSocketAddress a{htons(99), htonl(0x01020304)}; D = S_(ON[op]) + " of " + std::to_string(len) + " on descriptor " + std::to_string(fd) + ", answer " + std::to_string(ret) + " errno " + std::to_string(e) + (op >= 4 ? ", poll answers " + std::to_string(p.a.ret) + " events " + std::to_string(p.a.revents) + " timeout " + std::to_string(p.to) : "");
            char *buf = (char *)malloc(len ? len : 1); if (op < 2) memcpy(buf, data.data(), len); else memset(buf, 0x5a, len); S_ before(buf, len); int32_t r = call(op, fd, &a, buf, len, p.to); bool ready = op < 4 || (p.a.ret > 0 && (p.a.revents & POLLIN)); long want = op >= 4 && p.a.ret < 0 ? -7 : !ready ? 0 : ret < 0 ? (op < 2 ? -5 : -6) : ret; if (ret < 0 && ready) count(C_FAULTS); if (op >= 4 && p.a.ret < 0) count(C_FAULTS); CHECK(r == want, "returned %d, expected %ld", r, want);
            S_ exp = before; if (op >= 2 && ready && ret > 0) memcpy(&exp[0], data.data(), (size_t)ret); CHECK(S_(buf, len) == exp, "the buffer holds something else than what was received"); bool fromop = op == 3 || op == 5; if (fromop && ready && ret >= 0) CHECK(a.port == PEER.sin_port && a.addr == PEER.sin_addr.s_addr, "peer address"); else CHECK(a.port == htons(99) && a.addr == htonl(0x01020304), "the caller's address was changed"); if (op == 1) CHECK(TO.sin_port == a.port && TO.sin_addr.s_addr == a.addr && TO.sin_family == AF_INET, "sent to another address");
            const char *x = op < 2 ? "send" : "recv"; if (op < 4) seq({x}); else if (ready) seq({"poll", x}); else seq({"poll"}); if (op >= 4) CHECK(PSEEN.n == 1 && PSEEN.fd == fd && (PSEEN.ev & POLLIN) && PSEEN.timeout == (int)p.to, "polled %d descriptors (first %d) for %d ms", PSEEN.n, PSEEN.fd, PSEEN.timeout); free(buf); note(r); } }
}
// lengths no narrower type holds: the stand-ins for the system calls only note what they were given
void wide_lengths(int op) { for (size_t len : {(size_t)INT_MAX - 1, (size_t)INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 17, (size_t)1 << 40, (size_t)SSIZE_MAX}) for (long ret : {-1L, 0L, 1L, 7L}) { step(); CALLS.clear(); DFD = 3; DLEN = len; POLL = {1, 0, POLLIN}; XFER = {ret, EINTR, 0}; INCOMING = "abcdefg"; PEER = {}; PEER.sin_family = AF_INET; VitaSocketAddress a{htons(99), htonl(0x01020304)}; char buf[8] = "1234567"; D = S_(ON[op]) + " of " + std::to_string(len) + " bytes, answer " + std::to_string(ret); int32_t r = call(op, 3, &a, buf, len, 5); CHECK(r == (ret < 0 ? (op < 2 ? -5 : -6) : ret), "returned %d", r); const char *x = op < 2 ? "send" : "recv"; if (op < 4) seq({x}); else seq({"poll", x}); note(r); } }
void all_lengths(int op) { std::string big(thorough() ? 20000 : 5000, 0); for (size_t i = 0; i < big.size(); i++) big[i] = (char)(i * 31 + 7); for (size_t len = 1; len <= big.size(); len++) for (long ret : {(long)len, (long)(len - 1), -1L}) { step(); CALLS.clear(); DFD = 3; DLEN = len; POLL = {1, 0, POLLIN}; XFER = {ret, EINTR, 0}; INCOMING = big.substr(0, ret > 0 ? (size_t)ret : 0); PEER = {}; PEER.sin_family = AF_INET; VitaSocketAddress a{htons(99), htonl(0x01020304)}; std::string buf(big.rbegin(), big.rbegin() + len); std::string old = buf; if (op < 2) INCOMING = buf; D = S_(ON[op]) + " of " + std::to_string(len) + " bytes, answer " + std::to_string(ret); int32_t r = call(op, 3, &a, &buf[0], len, 5); CHECK(r == (ret < 0 ? (op < 2 ? -5 : -6) : ret), "returned %d", r); const char *x = op < 2 ? "send" : "recv"; if (op < 4) seq({x}); else seq({"poll", x}); if (op >= 2 && ret > 0) old.replace(0, (size_t)ret, INCOMING); CHECK(buf == old, "the buffer holds something else"); note(r); } }
void polls() { for (size_t n : {0, 1, 2, 3, 4, 5, 6, 127, 128, 129, 255, 256, 257, 300, 1024, 32767, 32768, 65535, 65536, 70000}) for (long ret = -1; ret <= (long)n; ret = n <= 1024 || ret < 2 ? ret + 1 : ret == (long)n ? ret + 1 : std::min<long>((long)n, ret + 1021)) for (int e : ERRS) for (uint32_t to : {0u, 5u, 0xffffffffu}) { if (ret >= 0 && e != ERRS[0]) continue; step(); D = "poll of " + std::to_string(n) + " answering " + std::to_string(ret); CALLS.clear(); POLL = {ret, e, POLLIN | POLLHUP}; struct pollfd *p = (struct pollfd *)calloc(n ? n : 1, sizeof *p); for (size_t i = 0; i < n; i++) { p[i].fd = (int)i + 3; p[i].events = (short)(i % 2 ? POLLIN : POLLOUT); } int32_t r = vt_socket_poll(p, n, to); CHECK(r == (ret < 0 ? -7 : ret), "returned %d", r); seq({"poll"}); CHECK(PSEEN.n == (int)n && PSEEN.timeout == (int)to, "polled %d for %d", PSEEN.n, PSEEN.timeout); for (size_t i = 0; i < n; i++) CHECK(p[i].fd == (int)i + 3 && p[i].events == (i % 2 ? POLLIN : POLLOUT) && p[i].revents == (i == 0 ? (POLLIN | POLLHUP) : 0), "the poll set was changed"); free(p); note(r); } }
// ---- histories of start-ups, accepts and closes: the set of open descriptors is exactly what succeeded and was not closed
void histories(size_t first, size_t depth) {
    const size_t NA = 14; std::vector<size_t> h{first};
    std::function<void()> go = [&] { step(); fresh(3); std::set<int> model; std::vector<int> order; D = "history"; bool ok = true;
        for (size_t a : h) { memset(FAILSTEP, 0, sizeof FAILSTEP); CLOSEFAIL = false; int f = 0; while (OPEN.count(f)) f++; NFD = f; vt_socket_t r; auto got = [&](bool fail, long code) { CHECK(r == (fail ? code : f), "returned %lld", (long long)r); if (!fail) { model.insert(f); order.push_back(f); } };
            VitaSocketAddress ad{htons(1), htonl(0x7f000001)}; static const long sc[] = {-1, -1, -2, -3};
            if (a < 6) { int fs = (int)a - 1; if (a == 5) fs = -1; D += "; server step " + std::to_string(fs); if (fs >= 0) FAILSTEP[fs] = true; r = vt_socket_startup_server(a == 5 ? VT_SOCKET_TYPE_UDP : VT_SOCKET_TYPE_TCP, 80, 2); got(fs >= 0, fs >= 0 ? sc[fs] : 0); }
            else if (a < 9) { int fs = a == 6 ? -1 : a == 7 ? SOCKET : CONNECT; D += "; client step " + std::to_string(fs); if (fs >= 0) FAILSTEP[fs] = true; r = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, ad); got(fs >= 0, fs == SOCKET ? -1 : -4); }
            else if (a < 11) { if (order.empty()) { ok = false; break; } D += "; accept"; FAILSTEP[ACCEPT] = a == 10; r = vt_socket_accept_client(order[0]); got(a == 10, -1); }
            else { if (order.empty()) { ok = false; break; } size_t i = a == 11 ? 0 : order.size() - 1; CLOSEFAIL = a == 13; D += "; close " + std::to_string(order[i]); bool c = vt_socket_close(order[i]); CHECK(c == !CLOSEFAIL, "close returned %d", c); model.erase(order[i]); order.erase(order.begin() + i); }
            CHECK(std::set<int>(OPEN.begin(), OPEN.end()) == model && OPEN.size() == model.size(), "%zu descriptors open, expected %zu", OPEN.size(), model.size()); }
        if (!ok) return; uint64_t o = hash_str(D); outcome(o); count(C_TRACES); count(C_EVALS); if (h.size() < depth) for (size_t a = 0; a < NA; a++) { h.push_back(a); go(); h.pop_back(); } };
    if (first < NA) go();
}
// ---- real loopback
int port_of(int fd) { struct sockaddr_in a; socklen_t n = sizeof a; CHECK(getsockname(fd, (struct sockaddr *)&a, &n) == 0, "harness getsockname"); return ntohs(a.sin_port); }
VitaSocketAddress lo(int p) { return vt_socket_make_address((int16_t)(uint16_t)p, "127.0.0.1"); }
std::vector<size_t> sizes() { std::vector<size_t> v; for (size_t n = 1; n <= (thorough() ? 2000u : 64u); n++) v.push_back(n); for (size_t n : {255, 256, 257, 511, 1024, 1460, 4096, 8192, 16384, 30000}) v.push_back(n); return v; }
void loop_tcp() {
    hooks = Hooks(); describe = desc; signal(SIGPIPE, SIG_IGN); D = "TCP loopback"; step(); size_t fds = fd_count();
    vt_socket_t s = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 4); CHECK(s >= 0, "server did not start: %lld", (long long)s); int p = port_of((int)s); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, lo(p)); CHECK(c >= 0, "client: %lld", (long long)c); vt_socket_t a = vt_socket_accept_client(s); CHECK(a >= 0, "accept: %lld", (long long)a); int one = 1; ::setsockopt((int)c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); ::setsockopt((int)a, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    for (size_t n : sizes()) for (int dir = 0; dir < 2; dir++) for (int timed = 0; timed < 3; timed++) { D = "TCP " + std::to_string(n) + " bytes, direction " + std::to_string(dir) + ", receive kind " + std::to_string(timed); step(); vt_socket_t tx = dir ? a : c, rx = dir ? c : a; S_ d = pattern(n, dir); char *b = (char *)malloc(n); memcpy(b, d.data(), n); int32_t r = vt_socket_send(tx, b, n); CHECK(r == (int32_t)n, "sent %d", r); memset(b, 0x5a, n); S_ got; while (got.size() < n) { VitaSocketAddress f{9, 9}; size_t room = n - got.size(); char *q = (char *)malloc(room); int32_t k = timed == 0 ? vt_socket_receive(rx, q, room) : timed == 1 ? vt_socket_receive_timed(rx, q, room, 5000) : vt_socket_receive_timed(rx, q, room, (uint32_t)-1); CHECK(k > 0 && (size_t)k <= room, "received %d", k); got.append(q, (size_t)k); free(q); } CHECK(got == d, "received other data than sent"); free(b); count(C_TRANS, 2); count(C_TRACES); count(C_EVALS); outcome(hash_str(D)); }
    for (uint32_t to : {0u, 1u, 30u}) { D = "TCP timed receive with nothing to read"; step(); char b[8] = "1234567"; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); CHECK(vt_socket_receive_timed(a, b, 8, to) == 0 && !strcmp(b, "1234567"), "something was received"); clock_gettime(CLOCK_MONOTONIC, &t1); double ms = (t1.tv_sec - t0.tv_sec) * 1e3 + (t1.tv_nsec - t0.tv_nsec) / 1e6; CHECK(ms >= to * 0.9 - 1, "gave up after %.2f ms instead of %u", ms, to); VitaSocketAddress f{9, 9}; CHECK(vt_socket_receive_timed_from(a, &f, b, 8, to) == 0 && !strcmp(b, "1234567") && f.port == 9 && f.addr == 9, "timed_from"); }
    D = "TCP hang-up"; step(); CHECK(vt_socket_close(c), "close"); char b[4] = "abc"; CHECK(vt_socket_receive(a, b, 4) == 0, "receive after hang-up"); CHECK(vt_socket_receive_timed(a, b, 4, 1000) == 0 && !strcmp(b, "abc"), "timed receive after hang-up"); 
    D = "TCP send on a closed connection"; step(); char big[8] = "x"; int32_t r = 0; for (int i = 0; i < 200 && r >= 0; i++) { r = vt_socket_send(a, big, 1); usleep(1000); } CHECK(r == -5, "send on a closed connection gave %d", r); CHECK(vt_socket_close(a) && vt_socket_close(s), "close"); CHECK(!vt_socket_close(s), "second close of the same socket succeeded"); CHECK(fd_count() == fds, "descriptors leaked");
    D = "reuse of a port in TIME_WAIT"; step(); s = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 4); p = port_of((int)s); c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, lo(p)); a = vt_socket_accept_client(s); vt_socket_close(a); usleep(2000); vt_socket_close(c); usleep(2000);
    D = "port in use"; step(); vt_socket_t s2 = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, p, 4); CHECK(s2 == -2, "second server on a listening port: %lld", (long long)s2); vt_socket_close(s); CHECK(fd_count() == fds, "descriptors leaked by a failed start-up"); D = "reuse of a port in TIME_WAIT"; s = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, p, 4); CHECK(s >= 0, "restart on the port just left: %lld", (long long)s); vt_socket_close(s);
    D = "connection refused"; for (int i = 0; i < 20; i++) { step(); c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, lo(p)); if (c >= 0 && port_of((int)c) == p) { ::close((int)c); continue; } /* the kernel picked this very port: a self-connection */ CHECK(c == -4, "client to a closed port: %lld", (long long)c); CHECK(fd_count() == fds, "descriptor leaked"); } count(C_TRACES, 30); count(C_EVALS, 30);
    D = "bad descriptors"; step(); char q[4]; VitaSocketAddress f{9, 9}; CHECK(vt_socket_send(-1, q, 4) == -5 && vt_socket_receive(-1, q, 4) == -6 && vt_socket_receive_from(-1, &f, q, 4) == -6 && f.port == 9 && vt_socket_accept_client(-1) == -1 && !vt_socket_close(-1) && vt_socket_send_to(-1, f, q, 4) == -5, "operations on an invalid descriptor");
    D = "no descriptors left"; step(); { struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &lim); vt_socket_t x = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 1), y = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, lo(9)); setrlimit(RLIMIT_NOFILE, &old); CHECK(x == -1 && y == -1, "without descriptors: %lld %lld", (long long)x, (long long)y); }
}
void loop_udp() {
    hooks = Hooks(); describe = desc; D = "UDP loopback"; step(); size_t fds = fd_count(); vt_socket_t s = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, 0, 0); CHECK(s >= 0, "server: %lld", (long long)s); int p = port_of((int)s); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, lo(p)); CHECK(c >= 0, "client: %lld", (long long)c); int cp = port_of((int)c);
    for (size_t n : sizes()) for (int kind = 0; kind < 4; kind++) { D = "UDP " + std::to_string(n) + " bytes, kind " + std::to_string(kind); step(); S_ d = pattern(n, kind); char *b = (char *)malloc(n); memcpy(b, d.data(), n); CHECK(vt_socket_send(c, b, n) == (int32_t)n, "send"); memset(b, 0x5a, n); VitaSocketAddress f{9, 9}; size_t room = kind == 3 ? (n + 1) / 2 : n; int32_t k = kind == 0 ? vt_socket_receive(s, b, n) : kind == 1 ? vt_socket_receive_from(s, &f, b, n) : vt_socket_receive_timed_from(s, &f, b, room, 5000); CHECK(k == (int32_t)room, "received %d of %zu", k, room); CHECK(S_(b, room) == d.substr(0, room), "other data"); for (size_t i = room; i < n; i++) CHECK(b[i] == 0x5a, "written past the given length"); if (kind) CHECK(f.port == htons((uint16_t)cp) && f.addr == htonl(0x7f000001), "peer address %x:%d", f.addr, ntohs(f.port)); else f = lo(cp);
        S_ d2 = pattern(n, kind + 9); memcpy(b, d2.data(), n); CHECK(vt_socket_send_to(s, f, b, n) == (int32_t)n, "send_to"); memset(b, 0, n); CHECK(vt_socket_receive_timed(c, b, n, 5000) == (int32_t)n && S_(b, n) == d2, "reply"); free(b); count(C_TRANS, 4); count(C_TRACES); count(C_EVALS); outcome(hash_str(D)); }
    D = "UDP empty datagram"; step(); char b[4] = "abc"; VitaSocketAddress f{9, 9}; CHECK(vt_socket_send(c, b, 0) == 0, "send"); CHECK(vt_socket_receive_timed_from(s, &f, b, 4, 5000) == 0 && f.port == htons((uint16_t)cp) && !strcmp(b, "abc"), "an empty datagram"); f = {9, 9}; CHECK(vt_socket_receive_timed_from(s, &f, b, 4, 10) == 0 && f.port == 9 && !strcmp(b, "abc"), "nothing to read");
    D = "UDP too large"; step(); { std::vector<char> big(70000, 'x'); CHECK(vt_socket_send(c, big.data(), big.size()) == -5, "an oversized datagram was reported as sent"); CHECK(vt_socket_send_to(s, lo(cp), big.data(), big.size()) == -5, "an oversized datagram was reported as sent"); }
    D = "UDP port in use"; step(); size_t now = fd_count(); int blk = ::socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; ::bind(blk, (struct sockaddr *)&a, sizeof a); int bp = port_of(blk); CHECK(vt_socket_startup_server(VT_SOCKET_TYPE_UDP, bp, 0) == -2, "server on a taken port"); ::close(blk); CHECK(fd_count() == now, "descriptor leaked"); CHECK(vt_socket_close(s) && vt_socket_close(c) && fd_count() == fds, "close"); count(C_TRACES, 5); count(C_EVALS, 5);
}
}
int main(int argc, char **argv) {
    parse_args(argc, argv); auto J = [](const S_ &n, std::function<void()> f) { add_job(n, [=] { install(); f(); }); };
    J("startup", startup); J("addresses", addresses); J("polls", polls); for (int o = 0; o < 6; o++) J(S_("transfer_") + ON[o], [=] { transfers(o); wide_lengths(o); }); for (int o = 0; o < 6; o++) J(S_("lengths_") + ON[o], [=] { all_lengths(o); }); for (int i = 0; i < 8; i++) J("ports_" + std::to_string(i), [=] { ports(i, 8); });
    for (size_t a = 0; a < 14; a++) J("history_" + std::to_string(a), [=] { histories(a, thorough() ? 6 : 5); }); J("loop_tcp", loop_tcp); J("loop_udp", loop_udp);
    return run_main(argc, argv, "C24");
}
