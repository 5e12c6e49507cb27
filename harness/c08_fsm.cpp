#include <sys/types.h>
#include <state_machine/modules/state_machine/src/transition_impl.cpp>
#include <state_machine/modules/state_machine/src/state_impl.cpp>
#include <state_machine/modules/state_machine/src/state_machine_impl.cpp>
#include <state_machine/modules/state_machine/src/state_machine_listener.cpp>
#include <state_machine/modules/state_machine/src/sm_factory_impl.cpp>
#include <cstddef>
using namespace kpsr::fsm;
typedef std::string S;
typedef StateMachineImpl M;
typedef StateMachineListener L;
extern "C" {
std::size_t c_sizeof_sm() { return sizeof(M); }
std::size_t c_sizeof_state() { return sizeof(StateImpl); }
std::size_t c_sizeof_trans() { return sizeof(TransitionImpl); }
std::size_t c_sizeof_lst() { return sizeof(L); }
std::size_t c_sizeof_fn() { return sizeof(std::function<void(const S &)>); }
std::size_t c_sizeof_cstate() { return sizeof(ConfigState); }
std::size_t c_sizeof_ctrans() { return sizeof(ConfigTransition); }
std::size_t c_sizeof_csm() { return sizeof(ConfigStateMachine); }
void *a_id(M *m) { return &m->_id; }
void *a_started(M *m) { return &m->_started; }
void *a_initial(M *m) { return &m->_initialStateId; }
void *a_current(M *m) { return &m->_currentStateId; }
void *a_table(M *m) { return &m->_stateTable; }
void *a_observers(M *m) { return &m->_observers; }
void *a_queue(M *m) { return &m->_eventQueue; }
void *a_sid(StateImpl *m) { return &m->_id; }
void *a_strans(StateImpl *m) { return &m->_transitions; }
void *a_tdest(TransitionImpl *m) { return &m->_destStateId; }
void *a_tev(TransitionImpl *m) { return &m->_eventId; }
void *a_lact(L *m) { return &m->_actions; }
void *a_loo(L *m) { return &m->_oneOffActions; }
void *a_lper(L *m) { return &m->_periodicActions; }
void *a_lid(L *m) { return &m->_stateMachineId; }
void *a_csid(ConfigState *m) { return &m->id; }
void *a_cstr(ConfigState *m) { return &m->transitions; }
void *a_ctdest(ConfigTransition *m) { return &m->destinationId; }
void *a_ctev(ConfigTransition *m) { return &m->event; }
void *a_cmid(ConfigStateMachine *m) { return &m->id; }
void *a_cmst(ConfigStateMachine *m) { return &m->states; }
void h_tctor(TransitionImpl *t, S *d, S *e) { new (t) TransitionImpl(*d, *e); }
bool h_tcan(TransitionImpl *t, S *e) { return t->canTransition(*e); }
void h_tdest(TransitionImpl *t, S *r) { new (r) S(t->getDestinationStateId()); }
typedef std::vector<std::shared_ptr<Transition>> TV;
void h_sctor(StateImpl *t, S *d, TV *v) { new (t) StateImpl(*d, *v); }
void h_sid(StateImpl *t, S *r) { new (r) S(t->getId()); }
void h_strans(StateImpl *t, TV *r) { new (r) TV(t->getTransitions()); }
void h_ctor(M *m, S *i, std::vector<std::shared_ptr<State>> *v, S *s) { new (m) M(*i, *v, *s); }
void h_start(StateMachine *m) { m->start(); }
void h_stop(StateMachine *m) { m->stop(); }
void h_reset(StateMachine *m) { m->reset(); }
void h_update(StateMachine *m) { m->update(); }
void h_enq(StateMachine *m, S *e) { m->enqueueEvent(*e); }
void h_enqupd(StateMachine *m, S *e) { m->enqueueAndUpdate(*e); }
typedef std::function<void(const S &, bool)> OF;
typedef std::function<void(const S &)> AF;
void h_reg(StateMachine *m, OF *f) { m->registerObserver(*f); }
void h_unreg(StateMachine *m) { m->unregisterObservers(); }
void h_lctor(L *l, S *i) { new (l) L(*i); }
void h_ladd(L *l, S *i, AF *f) { l->addAction(*i, *f); }
void h_laddoo(L *l, S *i, AF *f) { l->addOneOffAction(*i, *f); }
void h_laddper(L *l, S *i, AF *f) { l->addPeriodicAction(*i, *f); }
void h_lrm(L *l, S *i) { l->removeActions(*i); }
void h_lrmall(L *l) { l->removeActions(); }
void h_lupd(L *l, S *i, bool c) { l->updateCurrentState(*i, c); }
void h_lobs(L *l, S *i, bool c) { l->getObserverFunc()(*i, c); }
void h_make(ConfigStateMachine *c, std::shared_ptr<StateMachine> *r) { SMFactoryImpl f; new (r) std::shared_ptr<StateMachine>(f.createStateMachine(*c)); }
M *h_mkM() { return new M("", {}, ""); }
}
