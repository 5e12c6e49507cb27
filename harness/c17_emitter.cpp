// Harness TU for the event emitter contracts: only forwards to the real code in /repo.  The KlepsydraSDK headers come from harness/sdk.
#include <atomic>
#include <string>
#include <vector>
#include <klepsydra/core/safe_event_emitter.h>
#include <klepsydra/core/unsafe_multi_listener_event_emitter.h>
#include <klepsydra/core/unsafe_single_listener_event_emitter.h>
struct Ev { int x; };
typedef kpsr::SafeEventEmitter<Ev> SE;
typedef kpsr::UnsafeSingleListenerEventEmitter<Ev> UE;
typedef kpsr::UnsafeMultiListenerEventEmitter<Ev> ME;
typedef std::function<void(const Ev &)> CB;
typedef std::decay<decltype(ME()._listeners[0])>::type WCB;
typedef std::shared_ptr<kpsr::SubscriptionStats> ST;
template<class L> auto exec_flag(L *b, int) -> decltype((void *) &b->executed) { return &b->executed; }
template<class L> void *exec_flag(L *b, long) { return nullptr; }
extern "C" {
void *a_exec(SE::ListenerBase *b) { return exec_flag(b, 0); }
std::size_t c_sizeof_se() { return sizeof(SE); }
std::size_t c_sizeof_ue() { return sizeof(UE); }
std::size_t c_sizeof_lst() { return sizeof(SE::ListenerBase); }
void *a_mutex(SE *e) { return &e->mutex; }
void *a_last(SE *e) { return &e->last_listener; }
void *a_listeners(SE *e) { return &e->listeners; }
void *a_lid(SE::ListenerBase *b) { return &b->id; }
void *a_once(SE::ListenerBase *b) { return &b->isOnce; }
void *a_cb(SE::ListenerBase *b) { return &b->callback; }
void *a_stats(SE::ListenerBase *b) { return &b->listenerStats; }
void *a_discarded(kpsr::SubscriptionStats *s) { return &s->totalDiscardedEvents; }
void *a_enqueued(kpsr::SubscriptionStats *s) { return &s->totalEnqueuedTimeInNs; }
std::size_t c_sizeof_stats() { return sizeof(kpsr::SubscriptionStats); }
void v_base(void *p) { new (p) SE::ListenerBase(); }
void v_stats(void *p) { new (p) SE::ListenerWithStats(); }
void h_se_ctor(void *p) { new (p) SE(); }
unsigned h_on(SE *e, kpsr::Container *c, const std::string &l, const std::string &s, const CB &f) { return e->on(c, l, s, f); }
unsigned h_once(SE *e, const std::string &s, const CB &f) { return e->once(s, f); }
void h_remove(SE *e, kpsr::Container *c, unsigned id) { e->removeListener(c, id); }
void h_emit(SE *e, const std::string &s, unsigned long long t, const Ev &v) { e->emitEvent(s, t, v); }
void h_discard(SE *e, const std::string &s) { e->discardEvent(s); }
void h_stats(SE *e, unsigned id, void *out) { new (out) ST(e->getListenerStats(id)); }
void h_removeall(SE *e, kpsr::Container *c) { e->removeAllListeners(c); }
void u_ctor(void *p) { new (p) UE(); }
void *a_ureg(UE *e) { return &e->_listenerRegistered; }
void *a_ulname(UE *e) { return &e->_listenerName; }
void *a_usname(UE *e) { return &e->_subscriberName; }
void *a_ustats(UE *e) { return &e->_singleListenerStats; }
void *a_ucb(UE *e) { return &e->_singleListener; }
void *a_uwrap(UE *e) { return &e->_singleListenerWrapper; }
unsigned u_on(UE *e, kpsr::Container *c, const std::string &l, const std::string &s, const CB &f) { return e->on(c, l, s, f); }
unsigned u_once(UE *e, const std::string &s, const CB &f) { return e->once(s, f); }
void u_remove(UE *e, kpsr::Container *c, unsigned id) { e->removeListener(c, id); }
void u_emit(UE *e, const std::string &s, unsigned long long t, const Ev &v) { e->emitEvent(s, t, v); }
void u_discard(UE *e, const std::string &s) { e->discardEvent(s); }
void u_stats(UE *e, unsigned id, void *out) { new (out) ST(e->getListenerStats(id)); }
void u_removeall(UE *e, kpsr::Container *c) { e->removeAllListeners(c); }
std::size_t c_sizeof_me() { return sizeof(ME); }
void m_ctor(void *p) { new (p) ME(); }
void *a_mnames(ME *e) { return &e->_listenersNameMap; }
void *a_msubs(ME *e) { return &e->_subscriberNameMap; }
void *a_mstats(ME *e) { return &e->_listenerStats; }
void *a_mlist(ME *e) { return &e->_listeners; }
unsigned m_on(ME *e, kpsr::Container *c, const std::string &l, const std::string &s, const CB &f) { return e->on(c, l, s, f); }
unsigned m_once(ME *e, const std::string &s, const CB &f) { return e->once(s, f); }
void m_remove(ME *e, kpsr::Container *c, unsigned id) { e->removeListener(c, id); }
void m_emit(ME *e, const std::string &s, unsigned long long t, const Ev &v) { e->emitEvent(s, t, v); }
void m_discard(ME *e, const std::string &s) { e->discardEvent(s); }
void m_stats(ME *e, unsigned id, void *out) { new (out) ST(e->getListenerStats(id)); }
void m_removeall(ME *e, kpsr::Container *c) { e->removeAllListeners(c); }
void m_fcopy(void *p, const WCB &f) { new (p) WCB(f); }
void m_call(const WCB &f, const Ev &v, unsigned long long t) { f(v, t); }
}
