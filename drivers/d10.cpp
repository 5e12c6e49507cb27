// Bounded driver for the factory and the configuration files: random configurations, written as JSON and read back.
#include "common.h"
#include <fstream>
#include <map>
#include <set>
#include <klepsydra/state_machine/sm_factory_impl.h>
#include <klepsydra/state_machine/json_config_loader.h>
#include <klepsydra/state_machine/kpsr_state_machine.h>
#include <klepsydra/state_machine/state_machine_impl.h>
using namespace kpsr::fsm;
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; }
static std::string name(drv::Rng &R, const char *p) { static const char *odd[] = {"", "with space", "quo\"te", "back\\slash", "a:b", "a name longer than the small string optimisation holds"}; return R.chance(15) ? odd[R.below(6)] : p + std::to_string(R.below(5)); }
static void compare(const ConfigStateMachine &a, const ConfigStateMachine &b) {
    CHECK(a.id == b.id && a.states.size() == b.states.size(), "configuration: id '%s' instead of '%s', %zu states instead of %zu", a.id.c_str(), b.id.c_str(), a.states.size(), b.states.size());
    for (size_t i = 0; i < a.states.size(); i++) {
        CHECK(a.states[i].id == b.states[i].id && a.states[i].transitions.size() == b.states[i].transitions.size(), "state %zu differs", i);
        for (size_t k = 0; k < a.states[i].transitions.size(); k++) CHECK(a.states[i].transitions[k].destinationId == b.states[i].transitions[k].destinationId && a.states[i].transitions[k].event == b.states[i].transitions[k].event, "transition %zu of state %zu differs", k, i);
    }
}
static void machine(const std::shared_ptr<StateMachine> &p, const ConfigStateMachine &c) {
    auto m = std::dynamic_pointer_cast<StateMachineImpl>(p); CHECK(m != nullptr, "no machine");
    std::string init; for (auto &s : c.states) if (init == "") init = s.id;
    CHECK(m->_id == c.id && m->_initialStateId == init && m->_currentStateId == init && !m->_started, "machine '%s' in '%s' instead of '%s' in '%s'", m->_id.c_str(), m->_currentStateId.c_str(), c.id.c_str(), init.c_str());
    std::map<std::string, const ConfigState *> t; for (auto &s : c.states) t[s.id] = &s;
    CHECK(m->_stateTable.size() == t.size(), "%zu states instead of %zu", m->_stateTable.size(), t.size());
    for (auto &x : t) {
        auto i = m->_stateTable.find(x.first); CHECK(i != m->_stateTable.end() && i->second->getId() == x.first, "state '%s' missing", x.first.c_str());
        auto tv = i->second->getTransitions(); CHECK(tv.size() == x.second->transitions.size(), "state '%s': %zu transitions", x.first.c_str(), tv.size());
        for (size_t k = 0; k < tv.size(); k++) { auto &w = x.second->transitions[k]; CHECK(tv[k]->getDestinationStateId() == w.destinationId && tv[k]->canTransition(w.event) && !tv[k]->canTransition(w.event + "x"), "transition %zu of '%s'", k, x.first.c_str()); }
    }
}
int main() {
    drv::init(); drv::Rng R(drv::seed()); std::string f = drv::tmpdir() + "/machine.json";
    while (drv::more()) {
        ConfigStateMachine c; c.id = name(R, "m"); int ns = R.below(6);
        for (int i = 0; i < ns; i++) { ConfigState s; s.id = name(R, "s"); for (int k = R.below(5); k > 0; k--) s.transitions.push_back({name(R, "s"), name(R, "e")}); c.states.push_back(s); }
        drv::kase("configuration '%s' of %d states", c.id.c_str(), ns);
        { SMFactoryImpl fac; machine(fac.createStateMachine(c), c); }
        std::ofstream o(f); o << "{\"id\": \"" << esc(c.id) << "\", \"states\": [";
        for (size_t i = 0; i < c.states.size(); i++) {
            o << (i ? "," : "") << "{\"id\": \"" << esc(c.states[i].id) << "\", \"transitions\": [";
            for (size_t k = 0; k < c.states[i].transitions.size(); k++)
                o << (k ? "," : "") << "{\"destination\": \"" << esc(c.states[i].transitions[k].destinationId) << "\", \"event\": \"" << esc(c.states[i].transitions[k].event) << "\"}";
            o << "]}";
        }
        o << "]}"; o.close();
        auto r = JsonConfigLoader().loadConfig(f);
        compare(r, c); machine(FromJson::createStateMachine(f), c);
        auto l = FromJson::createStateMachineListener(f); CHECK(l && l->_stateMachineId == c.id, "listener of another machine");
        unlink(f.c_str());
        bool threw = false; try { JsonConfigLoader().loadConfig(f); } catch (const std::exception &) { threw = true; }
        CHECK(threw, "a missing file is loaded without an error");
    }
    return drv::done();
}
