// Bounded driver for the event emitters: random histories of registrations, removals, emissions and discarded events, also from inside
// listeners, against a reference; one-time listeners under concurrent emissions.
#include "common.h"
#include <atomic>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <functional>
#include <vector>
#include <klepsydra/core/safe_event_emitter.h>
#include <klepsydra/core/unsafe_multi_listener_event_emitter.h>
#include <klepsydra/core/unsafe_single_listener_event_emitter.h>
#include <spdlog/spdlog.h>
using namespace kpsr;
struct Cont : Container {
    std::multiset<SubscriptionStats *> have; bool bad = false;
    void attach(SubscriptionStats *s) override { if (!s || have.count(s)) bad = true; have.insert(s); }
    void detach(SubscriptionStats *s) override { if (!have.count(s)) bad = true; else have.erase(have.find(s)); }
};
typedef std::vector<std::pair<int, int>> Log;
struct Op { int what; std::string key; int ev; int arg; bool cont; };
struct Ref { int tag; unsigned id; std::string key, name; bool once, done = false, attached = false; unsigned long discarded = 0; bool measured; };
// one history, either on the emitter or on the reference
template<class E, int KIND> struct World {
    E e; Cont c; Log log; std::vector<std::shared_ptr<Ref>> refs; bool real; int budget; std::map<int, std::vector<Op>> acts; std::map<int, int> calls; int tags = 0;
    std::vector<unsigned> ids; unsigned last = 0, nmulti = 0; std::vector<std::pair<unsigned, std::shared_ptr<SubscriptionStats>>> st; std::string out;
    World(bool real, int budget, const std::map<int, std::vector<Op>> &acts) : real(real), budget(budget), acts(acts) {}
    void ran(int tag, int ev) {
        log.push_back({tag, ev});
        auto a = acts.find(tag);
        int k = calls[tag]++;
        if (a == acts.end() || k >= (int) a->second.size() || budget <= 0) return;
        budget--;
        apply(a->second[k]);
    }
    void note(const std::string &s) { out += s + ";"; }
    std::vector<std::shared_ptr<Ref>>::iterator find(unsigned id) { return std::find_if(refs.begin(), refs.end(), [&](auto &r) { return r->id == id; }); }
    void add(const Op &o, bool once) {
        int tag = tags++;
        std::string name = "l" + std::to_string(o.arg % 5);
        if (real) {
            auto f = [this, tag](const int &v) { ran(tag, v); };
            unsigned id;
            try { id = once ? e.once(o.key, f) : e.on(o.cont ? &c : nullptr, name, o.key, f); } catch (std::invalid_argument &) { note("refused"); return; }
            ids.push_back(id); note("id" + std::to_string(id));
        } else {
            if (once && KIND != 0) { note("refused"); return; }
            unsigned id;
            if (KIND == 0) id = ++last;
            else if (KIND == 1) {
                auto r = std::find_if(refs.begin(), refs.end(), [&](auto &x) { return x->name == name; });
                if (r != refs.end()) { ids.push_back((*r)->id); note("id" + std::to_string((*r)->id)); return; }
                id = nmulti++;
            } else { id = 0; if (!refs.empty()) { ids.push_back(0); note("id0"); return; } }
            refs.push_back(std::make_shared<Ref>(Ref{tag, id, o.key, name, once, false, o.cont && !once, 0, KIND == 0 ? !once : o.cont}));
            ids.push_back(id); note("id" + std::to_string(id));
        }
    }
    void apply(const Op &o) {
        switch (o.what) {
        case 0: add(o, false); break;
        case 1: add(o, true); break;
        case 2: {
            unsigned id = ids.empty() || o.arg % 7 == 0 ? 1000 + o.arg : ids[o.arg % ids.size()];
            if (KIND == 2) id = o.arg % 3 == 0 ? 1 : 0;
            if (real) { try { e.removeListener(KIND == 0 && !o.cont ? nullptr : &c, id); } catch (std::invalid_argument &) { note("invalid"); } }
            else {
                auto r = find(id);
                if (r == refs.end()) { if (KIND == 0) note("invalid"); }
                else { refs.erase(r); }
            }
            break; }
        case 3:
            if (real) e.emitEvent(o.key, o.arg % 2 ? 1 : 0, o.ev);
            else {
                std::vector<std::shared_ptr<Ref>> l;
                for (auto &r : refs) if (r->key == o.key) l.push_back(r);
                for (auto &r : l) {
                    if (r->once) {
                        if (r->done) continue;
                        r->done = true;
                        refs.erase(std::remove(refs.begin(), refs.end(), r), refs.end());
                    }
                    ran(r->tag, o.ev);
                }
            }
            break;
        case 4:
            if (real) e.discardEvent(o.key);
            else for (auto &r : refs) if (r->key == o.key) r->discarded++;
            break;
        case 5: {
            unsigned id = ids.empty() ? 0 : ids[o.arg % ids.size()];
            if (KIND == 2) id = o.arg % 2;
            if (real) { auto s = e.getListenerStats(id); bool known = !(KIND == 2 && id); note(s && known ? "d" + std::to_string((unsigned long) s->totalDiscardedEvents) : "none"); }
            else { auto r = find(id); note(r != refs.end() && (*r)->measured ? "d" + std::to_string((*r)->discarded) : "none"); }
            break; }
        case 6:
            if (real) e.removeAllListeners(KIND == 0 && !o.cont ? nullptr : &c);
            else { refs.clear(); nmulti = 0; }
            break;
        }
    }
};
template<class E, int KIND> static void history(drv::Rng &R, bool nested) {
    bool withc = R.chance(70); int n = 1 + R.below(25), keys = 1 + R.below(3);
    auto op = [&] {
        static const int w[] = {0, 0, 0, 1, 1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6};
        Op o{w[R.below(R.chance(80) ? 15 : 16)], "k" + std::to_string(R.below(keys)), (int) R.below(100), (int) R.below(1000), KIND == 0 ? withc : R.chance(60)};
        return o;
    };
    std::vector<Op> ops;
    for (int i = 0; i < n; i++) ops.push_back(op());
    std::map<int, std::vector<Op>> acts;
    if (nested) for (int t = 0; t < 30; t++) if (R.chance(30)) for (int i = R.below(3); i >= 0; i--) acts[t].push_back(op());
    std::string d;
    for (auto &o : ops) d += std::string("+1-e!?x").substr(o.what, 1) + o.key + " ";
    drv::kase("emitter kind %d nested=%d: %s", KIND, (int) nested, d.c_str());
    World<E, KIND> a(true, 20, acts), b(false, 20, acts);
    for (size_t i = 0; i < ops.size(); i++) {
        try { a.apply(ops[i]); } catch (std::exception &x) { drv::fail("operation %zu threw %s", i, x.what()); }
        b.apply(ops[i]);
        if (a.log != b.log) {
            size_t k = 0;
            while (k < a.log.size() && k < b.log.size() && a.log[k] == b.log[k]) k++;
            drv::fail("operation %zu: %zu listener calls, %zu expected, first difference at %zu (listener %d instead of %d)", i, a.log.size(), b.log.size(), k, k < a.log.size() ? a.log[k].first : -1, k < b.log.size() ? b.log[k].first : -1);
        }
        CHECK(a.out == b.out, "operation %zu: answers %s instead of %s", i, a.out.c_str(), b.out.c_str());
        CHECK(!a.c.bad, "operation %zu: statistics attached twice, or detached that were not attached", i);
        if (!nested) {
            size_t want = 0;
            for (auto &r : b.refs) want += r->attached;
            CHECK(a.c.have.size() == want, "operation %zu: %zu statistics are attached, %zu listeners have some", i, a.c.have.size(), want);
        }
    }
}
static void concurrent(drv::Rng &R) {
    int T = 2 + R.below(3), n = 20 + R.below(50), O = 1 + R.below(4), P = R.below(3);
    drv::kase("%d threads emit %d events, %d one-time and %d permanent listeners", T, n, O, P);
    SafeEventEmitter<int> e;
    std::vector<std::atomic<int>> once(O), perm(P), extra(T);
    for (auto &x : once) x = 0;
    for (auto &x : perm) x = 0;
    for (auto &x : extra) x = 0;
    for (int i = 0; i < O; i++) e.once("k", [&, i](const int &) { once[i]++; });
    for (int i = 0; i < P; i++) e.on(nullptr, "l", "k", [&, i](const int &) { perm[i]++; });
    std::atomic<int> go{0};
    std::vector<std::thread> t;
    std::atomic<bool> bad{false};
    std::set<unsigned> ids; std::mutex m;
    for (int k = 0; k < T; k++) t.emplace_back([&, k] {
        go++; while (go < T) ;
        try {
            for (int i = 0; i < n; i++) {
                e.emitEvent("k", 0, i);
                if (i % 8 == 0) {
                    unsigned id = e.on(nullptr, "x", "other" + std::to_string(k), [&, k](const int &) { extra[k]++; });
                    { std::lock_guard<std::mutex> l(m); if (!ids.insert(id).second) bad = true; }
                    e.emitEvent("other" + std::to_string(k), 0, i);
                    auto s = e.getListenerStats(id);
                    if (!s) bad = true;
                    e.removeListener(nullptr, id);
                }
            }
        } catch (std::exception &) { bad = true; }
    });
    for (auto &x : t) x.join();
    CHECK(!bad, "an operation threw, an id was handed out twice or a listener had no statistics");
    for (int i = 0; i < O; i++) CHECK(once[i] == 1, "a one-time listener ran %d times", (int) once[i]);
    for (int i = 0; i < P; i++) CHECK(perm[i] == T * n, "a listener was told %d of %d events", (int) perm[i], T * n);
    for (int k = 0; k < T; k++) CHECK(extra[k] == (n + 7) / 8, "a listener was told %d of %d events", (int) extra[k], (n + 7) / 8);
}
int main() {
    drv::init();
    spdlog::set_level(spdlog::level::off);
    drv::Rng R(drv::seed());
    do {
        switch (R.below(8)) {
        case 0: case 1: history<SafeEventEmitter<int>, 0>(R, false); break;
        case 2: case 3: history<SafeEventEmitter<int>, 0>(R, true); break;
        case 4: case 5: history<UnsafeMultiListenerEventEmitter<int>, 1>(R, false); break;
        case 6: history<UnsafeSingleListenerEventEmitter<int>, 2>(R, false); break;
        case 7: if (R.chance(20)) concurrent(R); break;
        }
    } while (drv::more());
    return drv::done();
}
