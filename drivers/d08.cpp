// Bounded driver for state machines: random tables, histories and observers against a plain model.
#include "common.h"
#include <deque>
#include <map>
#include <functional>
#include <klepsydra/state_machine/state_machine_impl.h>
#include <klepsydra/state_machine/state_impl.h>
#include <klepsydra/state_machine/transition_impl.h>
using namespace kpsr::fsm;
struct Oracle {
    std::string id, init, cur; bool started = false;
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> tab; std::deque<std::string> q;
};
static std::string nm(const char *p, int i) { return i < 0 ? std::string() : p + std::to_string(i); }
static void history(drv::Rng &R) {
    Oracle o; o.id = R.chance(10) ? "" : R.chance(50) ? "m" : "machine:with a rather long identifier";
    int ns = R.below(5), ne = 1 + R.below(4);
    std::vector<std::shared_ptr<State>> v;
    for (int i = 0; i < ns; i++) {
        std::string s = nm("s", R.below(5)); std::vector<std::shared_ptr<Transition>> tv; std::vector<std::pair<std::string, std::string>> mt;
        for (int k = R.below(6); k > 0; k--) { std::string d = nm("s", R.below(6)), e = nm("e", R.below(ne + 1)); tv.push_back(std::make_shared<TransitionImpl>(d, e)); mt.push_back({d, e}); }
        v.push_back(std::make_shared<StateImpl>(s, tv)); o.tab[s] = mt;
    }
    o.init = o.cur = nm("s", R.below(6)); drv::kase("machine of %d states", ns);
    auto m = std::make_shared<StateMachineImpl>(o.id, v, o.init); v.clear();
    struct Call { int who; std::string s; bool c; }; std::vector<Call> got, want; std::vector<int> obs; int next = 0; std::string h;
    int inner = -1; // an observer that uses the machine itself
    std::function<void()> inside;
    auto upd = [&](std::function<void()> then) {
        if (!o.started || !o.tab.count(o.cur)) return;
        bool ch = false;
        while (!ch && !o.q.empty()) { auto e = o.q.front(); o.q.pop_front(); for (auto &t : o.tab[o.cur]) if (t.second == e) { o.cur = t.first; ch = true; break; } }
        auto s = o.id + ":" + o.cur; auto l = obs; for (int w : l) { want.push_back({w, s, ch}); if (w == inner && then) then(); }
    };
    auto compare = [&] {
        CHECK(got.size() == want.size(), "%zu observer calls instead of %zu", got.size(), want.size());
        for (size_t i = 0; i < got.size(); i++) CHECK(got[i].who == want[i].who && got[i].s == want[i].s && got[i].c == want[i].c, "call %zu: observer %d told '%s' %d instead of observer %d '%s' %d", i, got[i].who, got[i].s.c_str(), got[i].c, want[i].who, want[i].s.c_str(), want[i].c);
        CHECK(m->_currentStateId == o.cur && m->_started == o.started, "state '%s' started %d instead of '%s' %d", m->_currentStateId.c_str(), m->_started, o.cur.c_str(), o.started);
        CHECK(m->_eventQueue.size() == o.q.size(), "%zu pending events instead of %zu", m->_eventQueue.size(), o.q.size());
        if (!o.q.empty()) CHECK(m->_eventQueue.front() == o.q.front(), "next event '%s' instead of '%s'", m->_eventQueue.front().c_str(), o.q.front().c_str());
    };
    int steps = 1 + R.below(30); bool busy = false;
    auto reg = [&](int w) { m->registerObserver([&, w](const std::string &s, bool c) { got.push_back({w, s, c}); if (w == inner && inside && !busy) { busy = true; inside(); busy = false; } }); };
    for (int q = 0; q < steps; q++) {
        auto e = nm("e", R.below(ne + 1)); int what = R.below(12); inside = nullptr; std::function<void()> then; inner = -1;
        if (!obs.empty() && R.chance(30)) {
            inner = obs[R.below(obs.size())]; int k = R.below(4); auto e2 = nm("e", R.below(ne + 1));
            h += " [observer " + std::to_string(inner) + ": " + (k == 0 ? "enqueueAndUpdate " + e2 : k == 1 ? "unregister" : k == 2 ? "register" : "stop") + "]";
            bool once = false; int w = next++;
            inside = [&, k, e2, w] { if (k == 0) m->enqueueAndUpdate(e2); else if (k == 1) m->unregisterObservers(); else if (k == 2) reg(w); else m->stop(); };
            auto mb = std::make_shared<bool>(false);
            then = [&, k, e2, w, mb] { if (*mb) return; *mb = true; if (k == 0) { if (o.started) o.q.push_back(e2); upd([] {}); } else if (k == 1) obs.clear(); else if (k == 2) obs.push_back(w); else o.started = false; *mb = false; };
            (void) once;
        }
        static const char *names[] = {"start", "stop", "reset", "register", "unregister", "enqueue", "update", "enqueueAndUpdate"};
        int op = what < 8 ? what : what < 10 ? 7 : what == 10 ? 0 : 5;
        h += std::string(" ") + names[op] + (op == 5 || op == 7 ? " " + e : ""); drv::kase("machine '%s' of %d states from %s:%s", o.id.c_str(), ns, o.init.c_str(), h.size() > 3000 ? "(long)" : h.c_str());
        switch (op) {
        case 0: { m->start(); o.started = true; auto s = o.id + ":" + o.cur; auto l = obs; for (int w : l) { want.push_back({w, s, true}); if (w == inner && then) then(); } break; }
        case 1: m->stop(); o.started = false; break;
        case 2: m->reset(); o.started = false; o.cur = o.init; break;
        case 3: { int w = next++; reg(w); obs.push_back(w); break; }
        case 4: if (R.chance(40)) { m->unregisterObservers(); obs.clear(); } break;
        case 5: m->enqueueEvent(e); if (o.started) o.q.push_back(e); break;
        case 6: m->update(); upd(then); break;
        case 7: m->enqueueAndUpdate(e); if (o.started) o.q.push_back(e); upd(then); break;
        }
        compare();
    }
}
int main() { drv::init(); drv::Rng R(drv::seed()); while (drv::more()) history(R); return drv::done(); }
