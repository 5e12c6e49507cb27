// Bounded driver for the transfers: simulated streams with partial transfers, interruptions and errors.
#include "sock.h"
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/server_socket.h>
#include <thread>
using namespace kpsr::socket_mdlw;
static drv::Rng &R = sim::R;
static std::string text(size_t n) { std::string s(n, 0); for (auto &c : s) c = (char) R.below(256); return s; }
static size_t len() { size_t f[] = {0, 1, 2, 13, 14, 15, 16, 17, 29, 30, 31, 32, 33, 100, 4096, 65536}; return R.chance(60) ? f[R.below(16)] : R.below(5000); }
template<class F> static std::string attempt(F f) {
    try { f(); return ""; } catch (const std::domain_error &) { return "domain"; } catch (const std::logic_error &) { return "logic"; } catch (const std::runtime_error &) { return "runtime"; }
    catch (...) { return "other"; }
}
static void put() {
    size_t n = len(); std::string m = text(n);
    int errs[] = {EPIPE, EBADF, EINVAL, ENXIO, ECONNRESET, EIO, ENOSPC, EFBIG, EDQUOT, ENETDOWN, ENETUNREACH, EACCES};
    bool bad = R.chance(30) && n; size_t at = R.below(n); int er = errs[R.below(12)];
    drv::kase("putMessageData of %zu bytes%s", n, bad ? (", failing with errno " + std::to_string(er) + " after " + std::to_string(at)).c_str() : "");
    sim::reset(); auto &s = sim::streams[5001]; s.pct = R.below(60); if (bad) { s.err = er; s.errat = at; }
    bool simple = R.chance(50), sh = R.chance(10);
    if (sh) { sim::failat["shutdown"] = 0; sim::failno = ENOTCONN; }
    sim::on = true;
    { auto d = std::make_shared<DataSocket>(5001);
      std::string r;
      if (simple) { ProtocolSimple p(d); Protocol &q = p; r = attempt([&] { q.sendMessage(m); }); } else r = attempt([&] { d->putMessageData(m.data(), n); if (R.chance(50)) { d->putMessageClose(); } });
      if (bad) { CHECK(r == "domain" || r == "runtime", "the error is reported as '%s'", r.c_str()); CHECK(s.sent == m.substr(0, at), "the bytes before the error differ"); }
      else { CHECK(s.sent == m, "sent %zu bytes of %zu, %s", s.sent.size(), n, s.sent == m.substr(0, s.sent.size()) ? "incomplete" : "different");
             if (!sh) { CHECK(r == "", "fails with %s", r.c_str()); if (simple) CHECK(s.shut, "the end is not marked"); } else if (simple) CHECK(r == "domain" || r == "runtime", "failed shutdown is reported as '%s'", r.c_str()); }
    }
    sim::on = false;
}
static void get() {
    size_t n = len(), size = R.chance(50) ? n : len(); std::string m = text(n);
    int errs[] = {EBADF, EFAULT, EINVAL, ENXIO, EIO, ENOBUFS, ENOMEM, EPERM, ECONNRESET, ENOTCONN};
    bool bad = R.chance(40); size_t at = R.below(n + 1); int er = errs[R.below(10)]; bool broken = bad && er >= 0 && (er == ECONNRESET || er == ENOTCONN);
    int stop = R.chance(30) ? (int) R.below(n + 1) : -1;
    drv::kase("getMessageData into %zu bytes of a stream of %zu%s, scan stops at %d", size, n, bad ? (", errno " + std::to_string(er) + " after " + std::to_string(at)).c_str() : "", stop);
    sim::reset(); auto &s = sim::streams[5002]; s.strict = true; s.pct = R.below(60); s.tosend = m; if (bad) { s.err = er; s.errat = at; }
    sim::on = true;
    { DataSocket d(5002); std::vector<char> b(size + 1, 'x'); size_t got = 0, seen = 0; bool stopped = false;
      auto r = attempt([&] { got = d.getMessageData(b.data(), size, [&](size_t k) { if (stopped) drv::fail("scan called again after it found the end"); if (k <= seen) drv::fail("scan told %zu after %zu", k, seen); if (k != s.rd) drv::fail("scan told %zu of %zu", k, s.rd); seen = k; return stopped = stop >= 0 && (int) k >= stop; }); });
      size_t expect = std::min(size, bad ? std::min(at, n) : n);
      bool fails = bad && !broken && at < size && !(stopped);
      if (fails) CHECK(r == "domain" || r == "runtime", "the error is reported as '%s'", r.c_str());
      else { CHECK(r == "", "fails with %s", r.c_str()); CHECK(got == s.rd, "returns %zu, %zu received", got, s.rd); CHECK(stopped || got == expect, "stops after %zu of %zu", got, expect);
             CHECK(!memcmp(b.data(), m.data(), got), "the bytes differ"); CHECK(seen == got || got == 0, "the last piece was not shown"); }
      CHECK(b[size] == 'x', "written past the buffer");
    }
    sim::on = false;
}
static void recvm() {
    size_t n = R.chance(5) ? R.below(300000) : len(); std::string m = text(n);
    bool bad = R.chance(30); size_t at = R.below(n + 1); int er = R.chance(50) ? ECONNRESET : EIO;
    std::string out = text(R.chance(50) ? 0 : len()), o0 = out;
    drv::kase("recvMessage of a stream of %zu%s into a string of %zu", n, bad ? (", errno " + std::to_string(er) + " after " + std::to_string(at)).c_str() : "", out.size());
    sim::reset(); auto &s = sim::streams[5003]; s.pct = R.below(40); s.tosend = m; if (bad) { s.err = er; s.errat = at; }
    sim::on = true;
    { ProtocolSimple p(std::make_shared<DataSocket>(5003)); Protocol &q = p;
      auto r = attempt([&] { q.recvMessage(out); });
      if (bad && er == EIO) CHECK(r == "domain" || r == "runtime", "the error is reported as '%s'", r.c_str());
      else { CHECK(r == "", "fails with %s", r.c_str()); auto w = bad ? m.substr(0, at) : m; CHECK(out.size() == w.size(), "%zu bytes of %zu received", out.size(), w.size()); CHECK(out == w, "the bytes differ"); }
    }
    CHECK(sim::closed[5003] == 1, "closed %d times", sim::closed[5003]);
    sim::on = false;
}
static void gone() {
    drv::kase("transfers on a moved, closed or lowest descriptor");
    sim::reset(); sim::streams[5004].tosend = "abc"; sim::streams[5005]; sim::streams[0].tosend = "xyz"; sim::streams[0].pct = 0; sim::streams[5004].pct = 0;
    sim::on = true;
    { DataSocket a(5004), b(std::move(a)); char c[8];
      auto f = [](size_t) { return false; };
      CHECK(attempt([&] { a.getMessageData(c, 3, f); }) == "logic", "reading from a moved socket is not refused");
      CHECK(attempt([&] { a.putMessageData("abc", 3); }) != "", "writing to a moved socket is not refused");
      CHECK(b.getMessageData(c, 3, f) == 3, "reading from the target of a move");
      b.close();
      CHECK(attempt([&] { b.getMessageData(c, 3, f); }) == "logic", "reading from a closed socket is not refused");
      DataSocket z(0);
      std::string r = attempt([&] { CHECK(z.getMessageData(c, 3, f) == 3 && !memcmp(c, "xyz", 3), "reading from descriptor 0"); });
      CHECK(r == "", "reading from descriptor 0 is refused (%s)", r.c_str());
      z.close();
    }
    sim::on = false;
}
static void real() {
    size_t n = R.chance(30) ? R.below(2000000) : len(), k = R.chance(30) ? R.below(500000) : len(); std::string m = text(n), w = text(k);
    drv::kase("%zu bytes to a server over a unix socket and %zu back", n, k);
    std::string path = drv::tmpdir() + "/s" + std::to_string(drv::ncases); unlink(path.c_str());
    ServerSocket srv(path); std::string got, back, err;
    std::thread t([&] { try { ProtocolSimple p(std::make_shared<ConnectSocket>(path)); p.sendMessage(m); p.recvMessage(back); } catch (std::exception &e) { err = e.what(); } });
    try { ProtocolSimple p(srv.accept(5)); p.recvMessage(got); p.sendMessage(w); } catch (std::exception &e) { t.join(); drv::fail("server: %s", e.what()); }
    t.join(); unlink(path.c_str());
    CHECK(err == "", "client: %s", err.c_str());
    CHECK(got == m, "the server received %zu bytes of %zu", got.size(), n); CHECK(back == w, "the client received %zu bytes of %zu", back.size(), k);
}
int main() {
    drv::init(); signal(SIGPIPE, SIG_IGN);
    gone();
    while (drv::more()) { put(); get(); recvm(); if (R.chance(5)) real(); }
    return drv::done();
}
