// Bounded driver for the serialisation mappers: random events through every mapper and back, messages cut anywhere.
#include "common.h"
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <cereal/types/map.hpp>
#include <cereal/types/vector.hpp>
#include <klepsydra/serialization/identity_mapper.h>
#undef IDENTITY_MAPPER_H
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/core/non_copying_stream_buffer.h>
using V = std::vector<unsigned char>;
struct Raw { int id; float f; double d; char t[13]; };
struct Odd { unsigned char b[7]; };
struct In { std::string name; double x; template<class A> void serialize(A &a) { a(CEREAL_NVP(name), CEREAL_NVP(x)); } bool operator==(const In &o) const { return name == o.name && x == o.x; } };
struct Ev {
    std::string s; long long l; unsigned u; double d; float f; bool b; std::vector<int> v; std::vector<In> in; std::map<std::string, std::string> m;
    template<class A> void serialize(A &a) { a(CEREAL_NVP(s), CEREAL_NVP(l), CEREAL_NVP(u), CEREAL_NVP(d), CEREAL_NVP(f), CEREAL_NVP(b), CEREAL_NVP(v), CEREAL_NVP(in), CEREAL_NVP(m)); }
    bool operator==(const Ev &o) const { return s == o.s && l == o.l && u == o.u && d == o.d && f == o.f && b == o.b && v == o.v && in == o.in && m == o.m; }
};
static std::string text(drv::Rng &R) { std::string s; static const char *bits[] = {"a", "\"", "\\", "\n", "\t", "{", "}", ":", ",", " ", "\x01", "\xc3\xa9", "0", "null", "/"}; for (int n = R.below(R.chance(10) ? 400 : 9); n > 0; n--) s += bits[R.below(15)]; return s; }
static double num(drv::Rng &R) { switch (R.below(7)) { case 0: return 0.1 + R.below(10); case 1: return std::numeric_limits<double>::max(); case 2: return -std::numeric_limits<double>::min(); case 3: return 1e-300; case 4: return -0.0; case 5: return (double) (int64_t) R.next() / 3; default: return R.below(100); } }
static Ev ev(drv::Rng &R) {
    Ev e; e.s = text(R); e.l = R.chance(20) ? std::numeric_limits<long long>::min() : (long long) R.next(); e.u = R.chance(20) ? 4294967295u : R.below(9); e.d = num(R); e.f = R.chance(50) ? 0.1f : 16777216.f; e.b = R.chance(50);
    for (int n = R.below(4); n > 0; n--) e.v.push_back(R.next()); for (int n = R.below(3); n > 0; n--) e.in.push_back({text(R), num(R)}); for (int n = R.below(3); n > 0; n--) e.m[text(R)] = text(R); return e;
}
template<class T> static void raw(drv::Rng &R) {
    kpsr::Mapper<T, V> m; auto mk = [&] { std::unique_ptr<T> p(new T); for (size_t i = 0; i < sizeof(T); i++) ((unsigned char *) p.get())[i] = R.next(); return p; };
    auto e = mk(); V msg(R.below(2 * sizeof(T) + 3), 0xEE); if (R.chance(30)) msg.reserve(200); drv::kase("raw event of %zu bytes into a message of %zu", sizeof(T), msg.size());
    T keep; memcpy(&keep, e.get(), sizeof(T)); m.toMiddleware(*e, msg);
    CHECK(msg.size() == sizeof(T) && !memcmp(msg.data(), e.get(), sizeof(T)) && !memcmp(&keep, e.get(), sizeof(T)), "the message is %zu bytes and not the event", msg.size());
    auto d = mk(); m.fromMiddleware(msg, *d); CHECK(!memcmp(d.get(), e.get(), sizeof(T)), "the event does not come back");
    V cut(msg.begin(), msg.begin() + R.below(sizeof(T) + 1)); cut.shrink_to_fit(); if (R.chance(20)) { cut = msg; cut.push_back(7); cut.shrink_to_fit(); }
    auto q = mk(); memcpy(&keep, q.get(), sizeof(T)); drv::kase("raw message of %zu bytes for an event of %zu", cut.size(), sizeof(T)); V was = cut; bool threw = false; try { m.fromMiddleware(cut, *q); } catch (const std::exception &) { threw = true; }
    CHECK(cut == was, "decoding changes the message");
    if (cut.size() < sizeof(T)) { CHECK(threw, "a short message is accepted"); CHECK(!memcmp(&keep, q.get(), sizeof(T)), "a refused message touches the event"); }
    else if (cut.size() == sizeof(T)) CHECK(!threw && !memcmp(q.get(), cut.data(), sizeof(T)), "a whole message is not decoded");
}
int main() {
    drv::init(); drv::Rng R(drv::seed());
    while (drv::more()) {
        raw<Raw>(R); raw<Odd>(R); raw<char>(R); raw<long>(R);
        Ev e = ev(R), keep = e, d = ev(R); std::string msg = text(R);
        drv::kase("json: text '%s'", e.s.substr(0, 60).c_str());
        kpsr::Mapper<Ev, std::string> j; j.toMiddleware(e, msg); CHECK(e == keep, "encoding changes the event"); std::string was = msg;
        d.v.clear(); d.in.clear(); d.m.clear(); j.fromMiddleware(msg, d); CHECK(d == e, "the event does not come back: %s", msg.substr(0, 300).c_str()); CHECK(msg == was, "decoding changes the text");
        CHECK(msg.find("\"event\"") != std::string::npos, "the text has no event: %s", msg.substr(0, 200).c_str());
        std::string cut = msg.substr(0, R.below(msg.size())); bool threw = false; drv::kase("json cut to %zu of %zu", cut.size(), msg.size()); try { Ev x; j.fromMiddleware(cut, x); CHECK(x == e, "a cut text gives another event"); } catch (const std::exception &) { threw = true; } (void) threw;
        drv::kase("binary: text '%s'", e.s.substr(0, 60).c_str());
        kpsr::Mapper<Ev, std::basic_streambuf<char> *> b; std::stringbuf sb; std::basic_streambuf<char> *p = &sb; b.toMiddleware(e, p); CHECK(e == keep && p == &sb, "encoding changes the event or the buffer"); std::string bytes = sb.str();
        d = ev(R); if (R.chance(50)) { b.fromMiddleware(p, d); CHECK(d == e, "the event does not come back from its buffer"); }
        std::unique_ptr<char[]> h(new char[bytes.size()]); memcpy(h.get(), bytes.data(), bytes.size()); kpsr::core::NonCopyingStringBuffer nb(h.get(), bytes.size()); std::basic_streambuf<char> *np = &nb; d = ev(R); b.fromMiddleware(np, d);
        CHECK(d == e, "the event does not come back from a message read in place"); CHECK(nb.in_avail() <= 0 && !memcmp(h.get(), bytes.data(), bytes.size()), "%ld bytes are left, or the message changed", (long) nb.in_avail());
        kpsr::Mapper<Ev, Ev> id; Ev o = ev(R); id.toMiddleware(e, o); CHECK(o == e && e == keep, "identity to"); o = ev(R); id.fromMiddleware(e, o); CHECK(o == e && e == keep, "identity from");
    }
    return drv::done();
}
