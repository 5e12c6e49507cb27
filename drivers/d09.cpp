// Bounded driver for state machine listeners: random registrations and notifications, actions that use the listener.
#include "common.h"
#include <map>
#include <memory>
#include <functional>
#include <klepsydra/state_machine/state_machine_listener.h>
using namespace kpsr::fsm;
static void history(drv::Rng &R) {
    std::string id = R.chance(30) ? "" : "m"; auto l = std::make_unique<StateMachineListener>(id);
    std::map<std::string, std::vector<int>> lists[3]; // one-off, permanent, periodic
    std::vector<std::pair<int, std::string>> got, want; std::map<int, std::pair<int, std::string>> inside; int next = 0; std::string h;
    auto full = [&](const std::string &s) { return id.empty() ? s : id + ":" + s; };
    auto obs = l->getObserverFunc(); int depth = 0;
    std::function<void(int, const std::string &, int)> reg = [&](int k, const std::string &s, int w) {
        auto f = [&, w](const std::string &c) {
            got.push_back({w, c}); auto i = inside.find(w);
            if (i != inside.end() && depth == 0) { depth++; auto what = i->second; if (what.first < 3) reg(what.first, what.second, w + 100000); else if (what.first == 3) l->removeActions(); else l->updateCurrentState(what.second, true); depth--; }
        };
        if (k == 0) l->addOneOffAction(s, f); else if (k == 1) l->addAction(s, f); else l->addPeriodicAction(s, f);
    };
    int mdepth = 0;
    std::function<void(const std::string &, bool)> upd = [&](const std::string &c, bool ch) {
        auto run = [&](std::vector<int> v) { for (int w : v) { want.push_back({w, c}); auto i = inside.find(w);
            if (i != inside.end() && mdepth == 0) { mdepth++; auto what = i->second; if (what.first < 3) lists[what.first][full(what.second)].push_back(w + 100000); else if (what.first == 3) lists[2].clear(); else upd(what.second, true); mdepth--; } } };
        if (ch) { auto v = lists[0][c]; lists[0].erase(c); run(v); run(lists[1][c]); }
        run(lists[2][c]);
    };
    int steps = 1 + R.below(30);
    for (int q = 0; q < steps; q++) {
        auto s = std::string("s") + std::to_string(R.below(3)); int op = R.below(10);
        h += " " + std::to_string(op) + ":" + s; drv::kase("listener '%s': operations %s", id.c_str(), h.c_str());
        if (op < 4) { int w = next++, k = R.below(3); if (R.chance(15)) { int x = R.below(5); auto t = "s" + std::to_string(R.below(3)); inside[w] = {x, x == 4 ? full(t) : t}; h += "(" + std::to_string(x) + t + ")"; } reg(k, s, w); lists[k][full(s)].push_back(w); }
        else if (op == 4) { l->removeActions(s); lists[2][full(s)].clear(); }
        else if (op == 5) { if (R.chance(40)) { l->removeActions(); lists[2].clear(); } }
        else { bool ch = R.chance(60); auto c = R.chance(85) ? full(s) : s; if (R.chance(50)) obs(c, ch); else l->updateCurrentState(c, ch); upd(c, ch); }
        CHECK(got.size() == want.size(), "%zu actions run instead of %zu", got.size(), want.size());
        for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], "call %zu: action %d '%s' instead of %d '%s'", i, got[i].first, got[i].second.c_str(), want[i].first, want[i].second.c_str());
    }
}
int main() { drv::init(); drv::Rng R(drv::seed()); while (drv::more()) history(R); return drv::done(); }
