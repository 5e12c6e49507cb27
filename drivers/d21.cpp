// Bounded driver for the configurations: random histories of settings, copies, files and exports against plain maps.
#include "common.h"
#include <fstream>
#include <map>
#include <memory>
#include <klepsydra/core/configuration_environment.h>
#include <../src/configuration_environment.cpp>
static std::string word(drv::Rng &R) { static const char *w[] = {"a", "b", "A", "a/b", "/", "", "b/a", "x y", "quote\"", "back\\slash", "\xc3\xa9", "StringProperties", "value"}; return w[R.chance(60) ? R.below(4) : R.below(13)]; }
static float flt(drv::Rng &R) { switch (R.below(5)) { case 0: return 0.1f; case 1: return -3.4e38f; case 2: return 1e-30f; case 3: return (float) (int32_t) R.next() / 7; default: return (float) R.below(9); } }
static std::string full(const std::string &k, const std::string &r) { return r.empty() ? k : r + "/" + k; }
struct Ref {
    std::map<std::string, std::string> s; std::map<std::string, int> i; std::map<std::string, float> f; std::map<std::string, bool> b;
    template<class M> static bool merge(M &m, const M &o, const std::string &r) { bool ok = true; for (auto &x : o) ok = m.insert({full(x.first, r), x.second}).second && ok; return ok; }
    bool add(const Ref &o, const std::string &r) { bool x = merge(s, o.s, r), y = merge(i, o.i, r), z = merge(f, o.f, r), w = merge(b, o.b, r); return x && y && z && w; }
};
template<class V, class M, class G> static void look(drv::Rng &R, const M &m, const char *what, const std::string &k, const std::string &r, V v, V d, G get) {
    auto it = m.find(full(k, r)); bool has = get(v, d);
    CHECK(has == (it != m.end()), "a %s property is %s", what, has ? "found but was never set" : "set but not found"); CHECK(v == (has ? it->second : d), "a %s property has another value than the one last set", what);
}
static void check(drv::Rng &R, kpsr::ConfigurationEnvironment &e, const Ref &x, const std::string &k, const std::string &r) {
    look<std::string>(R, x.s, "string", k, r, "before", word(R), [&](std::string &v, std::string d) { return e.getPropertyString(k, v, d, r); });
    look<int>(R, x.i, "int", k, r, 17, (int) R.next(), [&](int &v, int d) { return e.getPropertyInt(k, v, d, r); });
    look<float>(R, x.f, "float", k, r, 17, flt(R), [&](float &v, float d) { return e.getPropertyFloat(k, v, d, r); });
    look<bool>(R, x.b, "bool", k, r, R.chance(50), R.chance(50), [&](bool &v, bool d) { return e.getPropertyBool(k, v, d, r); });
}
static void all(drv::Rng &R, kpsr::ConfigurationEnvironment &e, const Ref &x) {
    for (auto &y : x.s) check(R, e, x, y.first, ""); for (auto &y : x.i) check(R, e, x, y.first, ""); for (auto &y : x.f) check(R, e, x, y.first, ""); for (auto &y : x.b) check(R, e, x, y.first, "");
    for (int n = 0; n < 4; n++) check(R, e, x, word(R), R.chance(50) ? "" : word(R));
}
static void dynamic(drv::Rng &R) {
    kpsr::DynamicConfigurationProperties d[2]; struct V { char t; std::string s; int i; }; std::map<std::string, V> ref[2]; std::string h;
    for (int n = 1 + R.below(12); n > 0; n--) {
        int w = R.below(2); auto &m = ref[w]; std::string k = word(R); auto it = m.find(k); int op = R.below(5), i = (int) R.next(); std::string s = word(R); h += "op" + std::to_string(op) + " on " + std::to_string(w) + " '" + k + "'; "; drv::kase("dynamic configurations: %s", h.c_str());
        if (op == 0) { bool r = d[w].setProperty(k, i); if (it != m.end() && it->second.t != 'i') CHECK(!r, "a property is replaced by one of another type"); else { m[k] = {'i', "", i}; if (it == m.end()) CHECK(r, "a new property is refused"); } }
        else if (op == 1) { bool r = d[w].setProperty(k, s); if (it != m.end() && it->second.t != 's') CHECK(!r, "a property is replaced by one of another type"); else { m[k] = {'s', s, 0}; if (it == m.end()) CHECK(r, "a new property is refused"); } }
        else if (op == 2) { std::string p = R.chance(50) ? "" : word(R); d[w].copyFrom(d[1 - w], p); for (auto &x : ref[1 - w]) m.insert({full(x.first, p), x.second}); }
        for (int q = 0; q < 2; q++) for (std::string key : {k, word(R), word(R)}) {
            auto f = ref[q].find(key); int gi = 12; std::string gs = "was"; bool gb = true; bool ri = d[q].getProperty(key, gi), rs = d[q].getProperty(key, gs), rb = d[q].getProperty(key, gb); bool isi = f != ref[q].end() && f->second.t == 'i', iss = f != ref[q].end() && f->second.t == 's';
            CHECK(ri == isi && gi == (isi ? f->second.i : 12), "an int property '%s' gives %s %d", key.c_str(), ri ? "true" : "false", gi); CHECK(rs == iss && gs == (iss ? f->second.s : "was"), "a string property '%s' gives %s %s", key.c_str(), rs ? "true" : "false", gs.c_str()); CHECK(!rb && gb, "a property of no such type is given");
        }
    }
}
int main() {
    drv::init(); drv::Rng R(drv::seed());
    std::string file = drv::tmpdir() + "/d21-" + std::to_string(getpid()) + ".json";
    while (drv::more()) {
        dynamic(R);
        kpsr::ConfigurationEnvironment e[2]; Ref x[2]; std::string h;
        for (int n = 1 + R.below(14); n > 0; n--) {
            int w = R.below(2); auto &E = e[w]; auto &X = x[w]; int op = R.below(9); std::string k = word(R), r = R.chance(50) ? "" : word(R), f = full(k, r); h += "op" + std::to_string(op) + " on " + std::to_string(w) + " '" + k + "' root '" + r + "'; "; drv::kase("%s", h.c_str());
            if (op < 2) { std::string v = word(R); E.setPropertyString(k, v, r); X.s[f] = v; }
            else if (op == 2) { int v = (int) R.next(); E.setPropertyInt(k, v, r); X.i[f] = v; }
            else if (op == 3) { float v = flt(R); E.setPropertyFloat(k, v, r); X.f[f] = v; }
            else if (op == 4) { bool v = R.chance(50); E.setPropertyBool(k, v, r); X.b[f] = v; }
            else if (op == 5) { std::ofstream(file, std::ios::binary) << e[1 - w].exportEnvironment(); bool ok = E.loadFile(file, r), want = X.add(x[1 - w], r); all(R, E, X); CHECK(ok == want, "loading a file reports %s", ok ? "success though a name was taken" : "failure though no name was taken"); }
            else if (op == 6) { CHECK(E.updateConfiguration(e[1 - w].exportEnvironment()), "an exported configuration is refused"); X = x[1 - w]; }
            else if (op == 7) { std::string t = e[1 - w].exportEnvironment(); t = t.substr(0, R.below(t.size() / 2)); kpsr::ConfigurationEnvironment n; if (R.chance(50)) { std::ofstream(file, std::ios::binary) << "not a configuration"; CHECK(!E.loadFile(file, r) && !E.updateConfiguration("dummy"), "a broken configuration is accepted"); } }
            else { std::ofstream(file, std::ios::binary) << e[1 - w].exportEnvironment(); kpsr::ConfigurationEnvironment c(file, r); Ref y; y.add(x[1 - w], r); all(R, c, y); }
            check(R, E, X, k, r); all(R, e[0], x[0]); all(R, e[1], x[1]);
        }
    }
    unlink(file.c_str()); return drv::done();
}
