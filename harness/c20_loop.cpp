// Harness TU for the life of event loops and multiplexer readers: only forwards to the real code in /repo.
#include <atomic>
#include <string>
#include <vector>
#include <stdexcept>
#include <thread>
#include <future>
#include <klepsydra/core/event_emitter_subscriber.h>
#include <klepsydra/high_performance/event_loop.h>
#include <klepsydra/high_performance/data_multiplexer_subscriber.h>
struct Ev { long a, b; };
typedef kpsr::high_performance::EventloopDataWrapper LW;
typedef kpsr::high_performance::EventLoop<4> EL;
typedef kpsr::high_performance::DataMultiplexerSubscriber<Ev, 4> MS;
typedef kpsr::EventEmitterSubscriber<Ev> ES;
typedef EL::BatchProcessor LP;
typedef MS::BatchProcessor MP;
typedef std::shared_ptr<kpsr::EventEmitterInterface<LW>> WM;
typedef std::function<void()> F0;
extern "C" {
std::size_t c_el() { return sizeof(EL); }
std::size_t c_ms() { return sizeof(MS); }
void *a_el_thread(EL *p) { return &p->batchProcessorThread; }
void *a_el_started(EL *p) { return &p->_isStarted; }
void *a_el_timeout(EL *p) { return (void *) &p->_timeoutUs; }
void *a_el_proc(EL *p) { return &p->batchEventProcessor; }
void *a_el_handler(EL *p) { return &p->_eventHandler; }
void *a_el_name(EL *p) { return &p->_name; }
void *a_ms_thread(MS *p) { return &p->_batchProcessorThread; }
void *a_ms_timeout(MS *p) { return (void *) &p->_timeoutUs; }
void *a_ms_proc(MS *p) { return &p->batchEventProcessor; }
void *a_ms_handler(MS *p) { return &p->_eventHandler; }
void *a_es_name(ES *p) { return &p->name; }
void *a_es_emitter(ES *p) { return &p->_eventEmitter; }
void *a_lp_seq(LP *p) { return &p->sequence_; }
void *a_mp_seq(MP *p) { return &p->sequence_; }
// what a processor refers to
const void *h_lp_ring(LP *p) { return &p->ring_buffer_; }
const void *h_lp_handler(LP *p) { return &p->event_handler_; }
const void *h_lp_barrier(LP *p) { return &p->sequence_barrier_; }
const void *h_lp_owned(LP *p) { return p->sequence_barrier_ptr_.get(); }
const void *h_mp_ring(MP *p) { return &p->ring_buffer_; }
const void *h_mp_handler(MP *p) { return &p->event_handler_; }
const void *h_mp_barrier(MP *p) { return &p->sequence_barrier_; }
const void *h_mp_owned(MP *p) { return p->sequence_barrier_ptr_.get(); }
const void *h_el_hptr(EL *p) { return static_cast<disruptor4cpp::event_handler<LW> *>(&p->_eventHandler); }
const void *h_ms_hptr(MS *p) { return static_cast<disruptor4cpp::event_handler<kpsr::high_performance::DataMultiplexerDataWrapper<Ev>> *>(&p->_eventHandler); }
void h_keep0(void *to, const F0 *f) { new (to) F0(*f); }
void h_call0(const F0 *f) { (*f)(); }
// entry points
void h_el(void *p, WM *em, EL::RingBuffer *r, const std::string &n, long t) { new (p) EL(*em, *r, n, t); }
void h_el_del(EL *p) { p->~EL(); }
void h_el_start(EL *p) { p->start(); }
void h_el_stop(EL *p) { p->stop(); }
bool h_el_started(EL *p) { return p->isStarted(); }
bool h_el_running(EL *p) { return p->isRunning(); }
void h_el_getname(EL *p, void *out) { new (out) std::string(p->getName()); }
void h_ms(void *p, kpsr::Container *c, const std::string &a, const std::string &b, MS::RingBuffer *r, long t) { new (p) MS(c, a, b, *r, t); }
void h_ms_del(MS *p) { p->~MS(); }
}
