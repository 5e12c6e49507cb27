// Harness TU for the publisher contracts: only forwards to the real code in /repo.  The KlepsydraSDK headers come from harness/sdk.
#include <atomic>
#include <string>
#include <vector>
#include <stdexcept>
#include <klepsydra/core/event_emitter_publisher.h>
#include <klepsydra/mem_core/basic_publisher.h>
#include <klepsydra/mem_core/concurrent_queue_publisher.h>
#include <klepsydra/high_performance/event_loop_publisher.h>
#include <klepsydra/high_performance/data_multiplexer_publisher.h>
struct Ev { long a, b; Ev(); Ev(const Ev &); Ev &operator=(const Ev &); ~Ev(); };
typedef std::shared_ptr<const Ev> SP;
typedef std::shared_ptr<Ev> MP;
typedef std::function<void(Ev &)> FI;
typedef std::function<void(const Ev &, Ev &)> FC;
extern "C" {
void cb_new(Ev *); void cb_copy(Ev *, const Ev *); void cb_assign(Ev *, const Ev *); void cb_delete(Ev *);
void cb_init(Ev *); void cb_clone(const Ev *, Ev *); void cb_process(Ev *); void cb_chan(SP *); void cb_emit(const std::string *, unsigned long long, const SP *);
}
inline Ev::Ev() { cb_new(this); }
inline Ev::Ev(const Ev &o) { cb_copy(this, &o); }
inline Ev &Ev::operator=(const Ev &o) { cb_assign(this, &o); return *this; }
inline Ev::~Ev() { cb_delete(this); }
static FI mk_init(bool b) { FI f; if (b) f = [](Ev &e) { cb_init(&e); }; return f; }
static FC mk_clone(bool b) { FC f; if (b) f = [](const Ev &x, Ev &y) { cb_clone(&x, &y); }; return f; }
static FI mk_process() { return [](Ev &e) { cb_process(&e); }; }
struct TP : kpsr::ObjectPoolPublisher<Ev>
{
    TP(kpsr::Container *c, const std::string &n, const std::string &t, int k, FI i, FC f) : kpsr::ObjectPoolPublisher<Ev>(c, n, t, k, i, f) {}
    using kpsr::ObjectPoolPublisher<Ev>::internalPublish;
    void internalPublish(SP e) override { cb_chan(&e); }
};
typedef kpsr::mem::EventData<const Ev> ED;
typedef kpsr::mem::SafeQueue<ED> SQ;
typedef kpsr::mem::BasicPublisher<Ev> BP;
typedef moodycamel::ConcurrentQueue<ED> CQ;
typedef kpsr::mem::ConcurrentQueuePublisher<Ev> CP;
typedef kpsr::EventEmitterPublisher<Ev> EP;
typedef kpsr::high_performance::EventLoopPublisher<Ev, 8> LP;
typedef kpsr::high_performance::EventloopDataWrapper LW;
typedef kpsr::high_performance::DataMultiplexerPublisher<Ev, 8> DP;
typedef kpsr::high_performance::DataMultiplexerDataWrapper<Ev> DW;
typedef kpsr::Publisher<Ev> PB;
struct SE : kpsr::EventEmitterInterface<SP>
{
    unsigned int on(kpsr::Container *, const std::string &, const std::string &, std::function<void(const SP &)>) override { return 0; }
    unsigned int once(const std::string &, std::function<void(const SP &)>) override { return 0; }
    void removeListener(kpsr::Container *, unsigned int) override {}
    void emitEvent(const std::string &n, unsigned long long t, const SP &e) override { cb_emit(&n, t, &e); }
    void discardEvent(const std::string &) override {}
    std::shared_ptr<kpsr::SubscriptionStats> getListenerStats(const unsigned int &) override { return nullptr; }
    void removeAllListeners(kpsr::Container *) override {}
};
typedef std::shared_ptr<kpsr::EventEmitterInterface<SP>> EM;
extern "C" {
std::size_t c_tp() { return sizeof(TP); }
std::size_t c_bp() { return sizeof(BP); }
std::size_t c_cp() { return sizeof(CP); }
std::size_t c_ep() { return sizeof(EP); }
std::size_t c_lp() { return sizeof(LP); }
std::size_t c_dp() { return sizeof(DP); }
std::size_t c_sq() { return sizeof(SQ); }
std::size_t c_cq() { return sizeof(CQ); }
std::size_t c_ed() { return sizeof(ED); }
std::size_t c_lw() { return sizeof(LW); }
std::size_t c_dw() { return sizeof(DW); }
std::size_t c_lring() { return sizeof(LP::RingBuffer); }
std::size_t c_dring() { return sizeof(DP::RingBuffer); }
void *a_alloc(PB *p) { return &p->publicationStats._totalEventAllocations; }
void *a_disc(PB *p) { return &p->publicationStats.totalDiscardedEvents; }
void *a_ldisc(LP *p) { return &p->_discardedMessages; }
void *a_edata(ED *p) { return &p->eventData; }
void *a_etime(ED *p) { return &p->enqueuedTimeInNs; }
void *a_lname(LW *p) { return &p->eventName; }
void *a_ldata(LW *p) { return &p->eventData; }
void *a_ltime(LW *p) { return &p->enqueuedTimeInNs; }
void *a_ddata(DW *p) { return &p->eventData; }
void *a_dtime(DW *p) { return &p->enqueuedTimeInNs; }
// contracts that need code
void h_callinit(std::function<void(std::unique_ptr<Ev> &)> *f, std::unique_ptr<Ev> *e) { (*f)(*e); }
void h_keep(void *to, SP *e) { new (to) SP(*e); }
void h_keep_ed(void *to, const ED *e) { new (to) ED(*e); }
void h_move_ed(void *to, ED *e) { new (to) ED(std::move(*e)); }
void h_drop(SP *e) { e->~SP(); }
void h_mk(void *to, Ev *raw) { new (to) MP(raw); }
void h_kill(PB *p) { p->~PB(); }
Ev *h_get(SP *e) { return const_cast<Ev *>(e->get()); }
unsigned h_ed_n(void *to, const ED *e, unsigned d) { new (to) ED(*e); return d; }
bool h_ed_t(void *to, const ED *e) { new (to) ED(*e); return true; }
bool h_ed_set(ED *to, const ED *e) { *to = *e; return true; }
void h_lw(LW *p, Ev *e) { new (p) LW(); if (e) p->eventData = SP(e); }
void h_dw(DW *p, Ev *e) { new (p) DW(MP(e)); }
// entry points
void h_tp(void *p, kpsr::Container *c, const std::string &n, int k, bool i, bool f) { new (p) TP(c, n, n, k, mk_init(i), mk_clone(f)); }
void h_bp(void *p, kpsr::Container *c, const std::string &n, SQ *q, bool d) { new (p) BP(c, n, 0, mk_init(false), mk_clone(false), *q, d); }
void h_cp(void *p, kpsr::Container *c, const std::string &n, CQ *q, moodycamel::ProducerToken *t, bool d) { new (p) CP(c, n, 0, mk_init(false), mk_clone(false), *q, d, *t); }
void h_em(void *to, void *se) { new (to) EM(new (se) SE(), [](SE *) {}); }
void h_ep(void *p, const std::string &n, EM *em) { new (p) EP(nullptr, n, *em, 0, mk_init(false), mk_clone(false)); }
void h_lp(void *p, kpsr::Container *c, LP::RingBuffer *r, const std::string &l, const std::string &n, bool u) { new (p) LP(c, *r, l, n, 0, mk_init(false), mk_clone(false), u); }
void h_dp(void *p, kpsr::Container *c, const std::string &n, DP::RingBuffer *r, bool f) { new (p) DP(c, n, mk_clone(f), *r); }
void h_pub_ref(PB *p, const Ev *e) { p->internalPublish(*e); }
void h_pub_sp(PB *p, const SP *e) { p->internalPublish(*e); }
void h_pub_proc(PB *p) { p->processAndPublish(mk_process()); }
}
