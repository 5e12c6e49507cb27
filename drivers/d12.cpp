// Bounded driver for descriptor ownership: random histories of socket objects, injected failures of every system call.
#include "sock.h"
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/server_socket.h>
#include <memory>
#include <chrono>
using namespace kpsr::socket_mdlw;
static drv::Rng &R = sim::R;
template<class F> static std::string attempt(F f) {
    try { f(); return ""; } catch (const std::domain_error &) { return "domain"; } catch (const std::logic_error &) { return "logic"; } catch (const std::runtime_error &) { return "runtime"; }
    catch (...) { return "other"; }
}
static void history() {
    sim::reset();
    int n = 2 + R.below(4), steps = 1 + R.below(12); std::string h;
    drv::kase("history of %d sockets", n);
    std::vector<std::unique_ptr<DataSocket>> v; std::vector<int> own; // -1: owns nothing
    sim::on = true;
    for (int i = 0; i < n; i++) { int fd = R.chance(10) && !i ? 0 : 6000 + i; sim::extra.insert(fd); v.emplace_back(new DataSocket(fd)); own.push_back(fd); }
    CHECK(attempt([] { DataSocket d(-1); }) == "runtime", "an invalid descriptor is not refused");
    int ncl = 0;
    for (int q = 0; q < steps; q++) {
        int i = R.below(v.size()), j = R.below(v.size()); errno = R.chance(50) ? EIO : EBADF;
        if (!v[i]) continue;
        switch (R.below(6)) {
        case 0: if (v[j]) { h += " a" + std::to_string(i) + "=move(a" + std::to_string(j) + ")"; drv::kase("history:%s", h.c_str()); int cl = sim::closed.size(); *v[i] = std::move(*v[j]); if (i != j) { if ((int) sim::closed.size() == cl) std::swap(own[i], own[j]); else { own[i] = own[j]; own[j] = -1; } } } break;
        case 1: if (v[j]) { h += " swap(a" + std::to_string(i) + ",a" + std::to_string(j) + ")"; drv::kase("history:%s", h.c_str()); v[i]->swap(*v[j]); std::swap(own[i], own[j]); } break;
        case 2: { h += " a" + std::to_string(v.size()) + "(move(a" + std::to_string(i) + "))"; drv::kase("history:%s", h.c_str()); v.emplace_back(new DataSocket(std::move(*v[i]))); own.push_back(own[i]); own[i] = -1; } break;
        case 3: case 4: {
            int er[] = {0, 0, EINTR, EIO, EBADF, ENOSPC}; sim::closeerr = er[R.below(6)];
            h += " a" + std::to_string(i) + ".close() (errno " + std::to_string(sim::closeerr) + ")"; drv::kase("history:%s", h.c_str());
            auto r = attempt([&] { v[i]->close(); });
            if (own[i] < 0) CHECK(r == "logic", "closing a closed or moved socket: '%s'", r.c_str());
            else { CHECK(sim::closed[own[i]] == 1, "descriptor %d closed %d times", own[i], sim::closed[own[i]]);
                   if (sim::closeerr == 0 || sim::closeerr == EINTR) CHECK(r == "", "a successful close is reported as '%s'", r.c_str()); else CHECK(r == "domain" || r == "runtime", "a failed close is reported as '%s'", r.c_str()); }
            own[i] = -1; sim::closeerr = 0; break; }
        case 5: h += " destroy a" + std::to_string(i); drv::kase("history:%s", h.c_str()); sim::closeerr = R.chance(30) ? EIO : 0; v[i].reset(); if (own[i] >= 0) CHECK(sim::closed[own[i]] == 1, "descriptor %d not closed by its owner's destruction", own[i]); own[i] = -1; sim::closeerr = 0; break;
        }
        for (size_t k = 0; k < own.size(); k++) if (own[k] >= 0) CHECK(!sim::closed.count(own[k]), "descriptor %d closed while its owner lives", own[k]);
        (void) ncl;
    }
    v.clear();
    for (int fd : sim::extra) CHECK(sim::closed[fd] == 1, "descriptor %d closed %d times in the end", fd, sim::closed[fd]);
    sim::on = false;
}
static void net() {
    sim::reset();
    std::string path = drv::tmpdir() + "/k" + std::to_string(drv::ncases); unlink(path.c_str());
    const char *w[] = {"", "socket", "bind", "listen", "connect", "accept"}; int k = R.below(6); int ce = R.chance(20) ? EIO : 0;
    bool unx = R.chance(70); int port = 20000 + R.below(20000); int which = R.below(3);
    drv::kase("%s server and client, failure of '%s' (%d), close error %d", unx ? "unix" : "internet", w[k], which, ce);
    sim::on = true; sim::failno = EACCES;
    if (k) sim::failat[w[k]] = k == 1 ? which : 0;
    sim::closeerr = ce;
    std::string r; int alive = 0;
    auto mk = [&](int p) { return unx ? new ServerSocket(path) : new ServerSocket(p); };
    {
        std::unique_ptr<ServerSocket> s; std::unique_ptr<ConnectSocket> c; std::shared_ptr<DataSocket> a;
        r = attempt([&] { s.reset(mk(port)); });
        bool sf = k == 2 || k == 3 || (k == 1 && which == 0);
        if (sf) { CHECK(r == "runtime" || r == "domain", "a failed server is reported as '%s'", r.c_str()); CHECK(sim::leaks() == 0, "a failed server leaks %d descriptors", sim::leaks()); }
        else if (r != "") { CHECK(!unx, "cannot serve: %s", r.c_str()); CHECK(sim::leaks() == 0, "a failed server leaks"); } // port in use
        else {
            alive = 1; int fl = fcntl(sim::opened.rbegin()->first, F_GETFL); CHECK(fl & O_NONBLOCK, "the server socket blocks");
            auto t0 = std::chrono::steady_clock::now();
            if (R.chance(20)) { auto e = attempt([&] { s->accept(0); }); CHECK(e == "runtime", "accept without a client: '%s'", e.c_str()); CHECK(std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(900), "accept(0) waits"); if (k == 5) sim::failat["accept"] = 0; }
            r = attempt([&] { unx ? c.reset(new ConnectSocket(path)) : c.reset(new ConnectSocket("127.0.0.1", port)); });
            bool cfail = k == 4 || (k == 1 && which == 1);
            if (cfail) { CHECK(r == "runtime" || r == "domain", "a failed client is reported as '%s'", r.c_str()); CHECK(sim::leaks() == 1, "a failed client leaks"); }
            else {
                CHECK(r == "", "cannot connect: %s", r.c_str()); CHECK(sim::leaks() == 2, "%d descriptors after connecting", sim::leaks());
                r = attempt([&] { a = s->accept(5); });
                if (k == 5) { CHECK(r == "runtime", "a failed accept is reported as '%s'", r.c_str()); CHECK(sim::leaks() == 2, "a failed accept leaks"); a = s->accept(5); }
                else CHECK(r == "", "cannot accept: %s", r.c_str());
                CHECK(sim::leaks() == 3, "%d descriptors after accepting", sim::leaks());
                c->putMessageData("hello", 5); char b[5]; CHECK(a->getMessageData(b, 5, [](size_t) { return false; }) == 5 && !memcmp(b, "hello", 5), "the accepted socket is not the client's");
                a.reset(); CHECK(sim::leaks() == 2, "%d descriptors after dropping the accepted socket", sim::leaks());
                if (R.chance(50)) { ServerSocket m(std::move(*s)); auto e = attempt([&] { s->accept(0); }); CHECK(e == "logic", "accept on a moved server: '%s'", e.c_str()); s->swap(m); }
                if (R.chance(50)) { sim::closeerr = 0; s->close(); auto e = attempt([&] { s->accept(0); }); CHECK(e == "logic", "accept on a closed server: '%s'", e.c_str()); }
            }
        }
    }
    (void) alive;
    CHECK(sim::leaks() == 0, "%d descriptors leaked in the end", sim::leaks());
    sim::on = false; sim::closeerr = 0; unlink(path.c_str());
}
static void paths() {
    for (int n : {1, 50, 90, 106, 107, 108, 109, 200}) {
        drv::kase("unix socket path of %d characters", n); sim::reset();
        std::string d = drv::tmpdir(); if (d.size() > 80) { if (chdir(d.c_str())) return; d = "."; }
        std::string p = d + "/"; while ((int) p.size() < n) p += 'p'; if (p.back() == '/') p += 'q'; std::string cut = p.substr(0, 107);
        unlink(p.c_str()); unlink(cut.c_str());
        sim::on = true;
        auto r = attempt([&] { ServerSocket s(p); CHECK(!access(p.c_str(), F_OK), "the socket is not where it was asked for"); ConnectSocket c(p); s.accept(5); });
        CHECK((r == "") == (p.size() <= 107), "reported as '%s'", r.c_str()); CHECK(sim::leaks() == 0, "leaks %d", sim::leaks());
        sim::on = false; unlink(p.c_str()); unlink(cut.c_str());
    }
}
static void many() {
    drv::kase("server with a descriptor of 1024 and above");
    struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = std::min<rlim_t>(l.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &l); if (l.rlim_cur < 3000) return;
    std::vector<int> f; for (int i = 0; i < 1500; i++) { int d = dup(0); if (d < 0) break; f.push_back(d); }
    if (f.size() == 1500) {
        std::string path = drv::tmpdir() + "/many"; unlink(path.c_str());
        { ServerSocket s(path); auto r = attempt([&] { s.accept(0); }); CHECK(r == "runtime", "no client: '%s'", r.c_str()); ConnectSocket c(path); auto a = s.accept(5); c.putMessageData("x", 1); char b; CHECK(a->getMessageData(&b, 1, [](size_t) { return false; }) == 1, "no data"); }
        unlink(path.c_str());
    }
    for (int d : f) syscall(SYS_close, d);
}
static void zero() {
    for (int which = 0; which < 3; which++) { // standard input is closed: the server, the client or the accepted socket gets descriptor 0
        drv::kase("%s with descriptor 0", which == 0 ? "server" : which == 1 ? "client" : "accepted client"); sim::reset();
        std::string path = drv::tmpdir() + "/zero"; unlink(path.c_str());
        auto free0 = [] { syscall(SYS_close, 0); };
        auto r = attempt([&] {
            if (which == 0) free0();
            ServerSocket s(path);
            if (which == 1) free0();
            ConnectSocket c(path);
            if (which == 2) free0();
            auto a = s.accept(5); c.putMessageData("x", 1); char b; CHECK(a->getMessageData(&b, 1, [](size_t) { return false; }) == 1 && b == 'x', "no data");
        });
        CHECK(r == "", "reported as '%s'", r.c_str()); CHECK(fcntl(0, F_GETFD) == -1, "the descriptor is still open in the end");
        int n = open("/dev/null", O_RDONLY); (void) n; unlink(path.c_str());
    }
}
int main() {
    drv::init(); signal(SIGPIPE, SIG_IGN);
    many(); paths(); zero();
    drv::kase("time-out"); { std::string path = drv::tmpdir() + "/t"; unlink(path.c_str()); ServerSocket s(path); auto t0 = std::chrono::steady_clock::now(); auto r = attempt([&] { s.accept(1); });
        double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); CHECK(r == "runtime" && d > 0.9 && d < 20, "accept(1) without a client: '%s' after %f s", r.c_str(), d); unlink(path.c_str()); }
    while (drv::more()) { history(); if (R.chance(20)) net(); }
    return drv::done();
}
