// A simulated stream and fault injection below the socket classes: the driver's own definitions of the system
// call wrappers take the place of libc's for the code under test.
#pragma once
#include "common.h"
#include <cerrno>
#include <cstdarg>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
namespace sim {
inline bool on = false;
inline drv::Rng R(drv::seed());
struct Stream { std::string sent, tosend; size_t rd = 0; bool shut = false; int err = 0; size_t errat = ~0ul; int pct = 30; int calls = 0; bool fatal = false, ended = false, strict = false; };
inline std::map<int, Stream> streams;      // simulated descriptors
inline std::map<int, int> opened, closed;  // real descriptors made while `on`
inline std::map<std::string, int> failat;  // call -> countdown to an injected failure (errno in failno)
inline int failno = 0, closeerr = 0;
inline std::set<int> extra;                // descriptors owned by objects, not made through socket()
inline bool inject(const char *w) { auto i = failat.find(w); if (i == failat.end() || i->second < 0) return false; if (i->second-- > 0) return false; errno = failno; return true; }
}
extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
    auto i = sim::streams.find(fd);
    if (!sim::on || i == sim::streams.end()) return syscall(SYS_write, fd, b, n);
    auto &s = i->second; s.calls++;
    if (s.fatal) drv::fail("write after an error that cannot be retried");
    if (s.shut) drv::fail("write after shutdown");
    if (s.sent.size() >= s.errat) { s.fatal = true; errno = s.err; return -1; }
    if (sim::R.chance(s.pct)) { errno = sim::R.chance(50) ? EINTR : EAGAIN; return -1; }
    size_t k = n ? 1 + sim::R.below(n) : 0; if (sim::R.chance(30)) k = n; if (n > 1 && sim::R.chance(20)) k = 1;
    if (k > s.errat - s.sent.size()) k = s.errat - s.sent.size();
    s.sent.append((const char *) b, k); return k;
}
ssize_t send(int fd, const void *b, size_t n, int f) { return sim::streams.count(fd) && sim::on ? write(fd, b, n) : syscall(SYS_sendto, fd, b, n, f, 0, 0); }
ssize_t read(int fd, void *b, size_t n) {
    auto i = sim::streams.find(fd);
    if (!sim::on || i == sim::streams.end()) return syscall(SYS_read, fd, b, n);
    auto &s = i->second; s.calls++;
    if (s.fatal) drv::fail("read after an error that cannot be retried");
    if (s.ended && n) { if (s.strict) drv::fail("read after the end of the stream"); return 0; }
    if (s.rd >= s.errat) { s.fatal = s.err != ECONNRESET && s.err != ENOTCONN; s.ended = !s.fatal; errno = s.err; return -1; }
    if (sim::R.chance(s.pct)) { int e[] = {EINTR, EAGAIN, ETIMEDOUT}; errno = e[sim::R.below(3)]; return -1; }
    size_t left = std::min(s.tosend.size(), s.errat) - s.rd;
    if (!left && s.errat == ~0ul) { s.ended = n > 0; return 0; }
    size_t k = std::min(n, left); if (k > 1 && sim::R.chance(70)) k = 1 + sim::R.below(k); if (k > 1 && sim::R.chance(20)) k = 1;
    memcpy(b, s.tosend.data() + s.rd, k); s.rd += k; return k;
}
ssize_t recv(int fd, void *b, size_t n, int f) { return sim::streams.count(fd) && sim::on ? read(fd, b, n) : syscall(SYS_recvfrom, fd, b, n, f, 0, 0); }
int shutdown(int fd, int how) {
    auto i = sim::streams.find(fd);
    if (!sim::on || i == sim::streams.end()) return syscall(SYS_shutdown, fd, how);
    if (how != SHUT_WR) drv::fail("shutdown(%d)", how);
    if (sim::inject("shutdown")) return -1;
    i->second.shut = true; return 0;
}
int close(int fd) {
    if (!sim::on) return syscall(SYS_close, fd);
    if (sim::streams.count(fd) || sim::extra.count(fd)) {
        if (sim::closed[fd]++) drv::fail("descriptor %d closed twice", fd);
        if (sim::closeerr) { errno = sim::closeerr; return -1; }
        errno = sim::R.chance(50) ? EIO : errno; return 0;
    }
    if (!sim::opened.count(fd)) drv::fail("close of a descriptor that is not owned: %d", fd);
    if (sim::closed[fd]++) drv::fail("descriptor %d closed twice", fd);
    int r = syscall(SYS_close, fd);
    if (sim::closeerr) { errno = sim::closeerr; return -1; }
    return r;
}
int socket(int d, int t, int p) { if (sim::on && sim::inject("socket")) return -1; int r = syscall(SYS_socket, d, t, p); if (sim::on && r >= 0) { sim::opened[r] = 1; sim::closed.erase(r); } return r; }
int bind(int fd, const struct sockaddr *a, socklen_t n) { if (sim::on && sim::inject("bind")) return -1; return syscall(SYS_bind, fd, a, n); }
int listen(int fd, int n) { if (sim::on && sim::inject("listen")) return -1; return syscall(SYS_listen, fd, n); }
int connect(int fd, const struct sockaddr *a, socklen_t n) { if (sim::on && sim::inject("connect")) return -1; return syscall(SYS_connect, fd, a, n); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { if (sim::on && sim::inject("accept")) return -1; int r = syscall(SYS_accept4, fd, a, n, fl); if (sim::on && r >= 0) { sim::opened[r] = 1; sim::closed.erase(r); } return r; }
int accept(int fd, struct sockaddr *a, socklen_t *n) { return accept4(fd, a, n, 0); }
}
namespace sim {
inline int leaks() { int n = 0; for (auto &p : opened) if (!closed.count(p.first)) n++; return n; }
inline void reset() { streams.clear(); opened.clear(); closed.clear(); failat.clear(); extra.clear(); closeerr = 0; }
}
