// Harness TU for the subscriber contracts: only forwards to the real code in /repo.  The KlepsydraSDK headers come from harness/sdk.
#include <atomic>
#include <string>
#include <vector>
#include <stdexcept>
#include <klepsydra/core/event_emitter_subscriber.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/cache_listener.h>
#include <klepsydra/mem_core/safe_queue_poller.h>
#include <klepsydra/mem_core/concurrent_queue_poller.h>
#include <klepsydra/high_performance/event_loop_event_handler.h>
#include <klepsydra/high_performance/event_loop_subscriber.h>
#include <klepsydra/high_performance/event_loop_function_exec_listener.h>
#include <klepsydra/high_performance/data_multiplexer_event_handler.h>
struct Ev { long a, b; Ev(const Ev &); ~Ev() {} };
typedef std::shared_ptr<const Ev> SP;
typedef std::shared_ptr<Ev> MP;
typedef kpsr::high_performance::EventloopDataWrapper LW;
typedef kpsr::high_performance::DataMultiplexerDataWrapper<Ev> DW;
typedef kpsr::high_performance::EventLoopEventHandler LH;
typedef kpsr::high_performance::DataMultiplexerEventHandler<Ev> DH;
typedef kpsr::high_performance::EventLoopSubscriber<Ev> LS;
typedef kpsr::high_performance::EventLoopFunctionExecutorListener FL;
typedef kpsr::EventEmitterSubscriber<Ev> ES;
typedef kpsr::mem::EventData<const Ev> ED;
typedef kpsr::mem::SafeQueue<ED> SQ;
typedef kpsr::mem::SafeQueuePoller<Ev> SQP;
typedef moodycamel::ConcurrentQueue<ED> CQ;
typedef kpsr::mem::ConcurrentQueuePoller<Ev> CQP;
typedef kpsr::mem::CacheListener<Ev> CL;
typedef kpsr::mem::MultiThreadCacheListener<Ev> ML;
typedef kpsr::mem::TestCacheListener<Ev> TL;
typedef std::shared_ptr<kpsr::SubscriptionStats> ST;
typedef std::function<void(const Ev &)> F1;
typedef std::function<void(const SP &)> F2;
typedef std::function<void(const LW &)> FW;
typedef std::function<void()> F0;
extern "C" {
void cb_copy(Ev *, const Ev *); void cb_listen(const Ev *); void cb_listen_sp(const SP *); void cb_run(); void cb_publish(const void *, const Ev *);
unsigned cb_on(void *self, kpsr::Container *, const std::string *, const std::string *, const void *f); unsigned cb_once(void *self, const std::string *, const void *f);
void cb_remove(void *self, kpsr::Container *, unsigned); void cb_removeall(void *self, kpsr::Container *); void cb_discard(void *self, const std::string *);
void cb_stats(void *self, unsigned, void *out); void cb_emit(void *self, const std::string *, unsigned long long, const void *); void cb_created(int);
}
inline Ev::Ev(const Ev &o) { cb_copy(this, &o); }
template<class E> struct Em : kpsr::EventEmitterInterface<E>
{
    unsigned int on(kpsr::Container *c, const std::string &l, const std::string &n, std::function<void(const E &)> f) override { return cb_on(this, c, &l, &n, &f); }
    unsigned int once(const std::string &n, std::function<void(const E &)> f) override { return cb_once(this, &n, &f); }
    void removeListener(kpsr::Container *c, unsigned int id) override { cb_remove(this, c, id); }
    void emitEvent(const std::string &n, unsigned long long t, const E &e) override { cb_emit(this, &n, t, &e); }
    void discardEvent(const std::string &n) override { cb_discard(this, &n); }
    std::shared_ptr<kpsr::SubscriptionStats> getListenerStats(const unsigned int &id) override { alignas(8) char b[sizeof(ST)]; cb_stats(this, id, b); return std::move(*(ST *) b); }
    void removeAllListeners(kpsr::Container *c) override { cb_removeall(this, c); }
};
typedef std::shared_ptr<kpsr::EventEmitterInterface<SP>> EM;
typedef std::shared_ptr<kpsr::EventEmitterInterface<LW>> WM;
struct PB : kpsr::Publisher<Ev>
{
    PB() : kpsr::Publisher<Ev>(nullptr, "", "") {}
    void internalPublish(const Ev &e) override { cb_publish(this, &e); }
    void internalPublish(SP e) override { cb_publish(this, e.get()); }
    void processAndPublish(std::function<void(Ev &)> f) override { cb_publish(this, nullptr); }
};
template<class M> auto hdr(int) -> decltype(typename M::key_compare(), 32UL) { return 32; }
template<class M> unsigned long hdr(long) { return 8; }
static F1 mk1(bool b) { F1 f; if (b) f = [](const Ev &e) { cb_listen(&e); }; return f; }
static F2 mk2(bool b) { F2 f; if (b) f = [](const SP &e) { cb_listen_sp(&e); }; return f; }
extern "C" {
std::size_t c_lh() { return sizeof(LH); }
std::size_t c_dh() { return sizeof(DH); }
std::size_t c_ls() { return sizeof(LS); }
std::size_t c_es() { return sizeof(ES); }
std::size_t c_flst() { return sizeof(FL); }
std::size_t c_lw() { return sizeof(LW); }
std::size_t c_dw() { return sizeof(DW); }
std::size_t c_ed() { return sizeof(ED); }
std::size_t c_sq() { return sizeof(SQ); }
std::size_t c_cq() { return sizeof(CQ); }
std::size_t c_sqp() { return sizeof(SQP); }
std::size_t c_cqp() { return sizeof(CQP); }
std::size_t c_cl() { return sizeof(CL); }
std::size_t c_ml() { return sizeof(ML); }
std::size_t c_tl() { return sizeof(TL); }
std::size_t c_hdr() { return hdr<decltype(ES::_listenersMap)>(0); }
void *a_map(ES *p) { return &p->_listenersMap; }
void *a_edata(ED *p) { return &p->eventData; }
void *a_etime(ED *p) { return &p->enqueuedTimeInNs; }
void *a_lname(LW *p) { return &p->eventName; }
void *a_ldata(LW *p) { return &p->eventData; }
void *a_ltime(LW *p) { return &p->enqueuedTimeInNs; }
void *a_ddata(DW *p) { return &p->eventData; }
void *a_dtime(DW *p) { return &p->enqueuedTimeInNs; }
void *a_mutex(ML *p) { return &p->_mutex; }
void *a_cached(CL *p) { return &p->_lastReceivedEvent; }
void *a_counter(CL *p) { return &p->counter; }
// contracts that need code
void h_keep(void *to, const SP *e) { new (to) SP(*e); }
void h_keep_lw(void *to, const LW *e) { new (to) LW(*e); }
unsigned h_keep2(void *to, const F2 *f, unsigned id) { new (to) F2(*f); return id; }
unsigned h_keepw(void *to, const FW *f, unsigned id) { new (to) FW(*f); return id; }
bool h_ed_set(ED *to, ED *e) { *to = std::move(*e); return true; }
bool h_ed_new(ED *to, ED *e) { new (to) ED(std::move(*e)); return true; }
void h_setlast(CL *p, MP *e) { p->_lastReceivedEvent = *e; }
void h_drop(SP *e) { e->~SP(); }
void h_st(void *to, kpsr::SubscriptionStats *raw) { new (to) ST(raw, [](kpsr::SubscriptionStats *) {}); }
kpsr::SubscriptionStats *h_stget(ST *s) { return s->get(); }
void h_mk(void *to, Ev *raw) { new (to) MP(raw, [](Ev *) {}); }
const Ev *h_get(SP *e) { return e->get(); }
void h_em(void *to, void *se) { new (to) EM(new (se) Em<SP>(), [](Em<SP> *) {}); }
void h_wm(void *to, void *se) { new (to) WM(new (se) Em<LW>(), [](Em<LW> *) {}); }
void h_ed(ED *p, SP *e) { new (p) ED(); p->eventData = *e; }
void h_lw(LW *p, SP *e) { new (p) LW(); p->eventData = *e; }
void h_dw(DW *p, MP *e) { new (p) DW(*e); }
void h_call2(const F2 *f, const SP *e) { (*f)(*e); }
void h_callw(const FW *f, const LW *e) { (*f)(*e); }
void h_fun(void *to, void *f0) { new (to) std::shared_ptr<const void>(std::shared_ptr<F0>(new (f0) F0([] { cb_run(); }), [](F0 *) {})); }
void h_lwf(LW *p, std::shared_ptr<const void> *e) { new (p) LW(); p->eventData = *e; }
// entry points
void h_lh(void *p, WM *em) { new (p) LH(*em); }
void h_lh_event(LH *p, LW *e, long q, bool end) { p->on_event(*e, q, end); }
void h_dh(void *p, const std::string &n, EM *em) { new (p) DH(n, *em); }
void h_dh_event(DH *p, DW *e, long q, bool end) { p->on_event(*e, q, end); }
void h_ls(void *p, kpsr::Container *c, WM *em, const std::string &n, int t) { new (p) LS(c, *em, n, (kpsr::EventEmitterType) t); }
void h_ls_del(LS *p) { p->~LS(); }
void h_flst(void *p, kpsr::Container *c, WM *em, const std::string &n) { new (p) FL(c, *em, n); }
void h_flst_del(FL *p) { p->~FL(); }
void h_es(void *p, kpsr::Container *c, EM *em, const std::string &n) { new (p) ES(c, *em, n); }
void h_es_t(void *p, kpsr::Container *c, const std::string &n, int t) { new (p) ES(c, (kpsr::EventEmitterType) t, n); }
void h_es_del(ES *p) { p->~ES(); }
void h_reg(ES *p, const std::string &n, bool b) { p->registerListener(n, mk1(b)); }
void h_reg_once(ES *p, bool b) { p->registerListenerOnce(mk1(b)); }
void h_reg_sp(ES *p, const std::string &n, bool b) { p->registerSharedPtrListener(n, mk2(b)); }
void h_reg_sp_once(ES *p, bool b) { p->registerSharedPtrListenerOnce(mk2(b)); }
void h_unreg(ES *p, const std::string &n) { p->removeListener(n); }
void h_stats(ES *p, const std::string &n, void *out) { new (out) ST(p->getSubscriptionStats(n)); }
void h_sqp(void *p, SQ *q, EM *em, const std::string &n, unsigned us) { new (p) SQP(*q, *em, n, us); }
void h_cqp(void *p, CQ *q, EM *em, const std::string &n, unsigned us, moodycamel::ProducerToken *t) { new (p) CQP(*q, *em, n, us, *t); }
void h_take(kpsr::mem::InMemoryQueuePoller *p) { p->takeEventFromQueue(); }
void h_fwd(PB *p, const Ev *e) { new (p) PB(); kpsr::EventForwarder<Ev> f(p); f.onMessageReceived(*e); }
void h_cl(void *p) { new (p) CL(); }
void h_ml(void *p) { new (p) ML(); }
void h_tl(void *p, int ms) { new (p) TL(ms); }
void h_cache(CL *p, const Ev *e) { p->onEventReceived(*e); }
void h_cache_f(CL *p, const Ev *e) { p->cacheListenerFunction(*e); }
void h_cache_raw(CL *p, MP *e) { p->onEventReceivedRaw(*e); }
const Ev *h_last(CL *p, void *out) { auto m = new (out) MP(p->getLastReceivedEvent()); return m->get(); }
const Ev *h_pair(ML *p, void *out, int *n) { auto x = p->getCounterAndEvent(); *n = x.first; auto m = new (out) MP(x.second); return m->get(); }
}
