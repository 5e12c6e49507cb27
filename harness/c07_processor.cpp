// Harness TU for the event processors: only forwards to the real code in /repo.  The handler's methods are external
// functions (their contracts are the rely conditions on user code).
#include <stdexcept>
#include <exception>
#include <cstdint>
#include <cstddef>
#include <vector>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
#include <klepsydra/high_performance/disruptor4cpp/batch_event_processor.h>
#include <klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h>
using namespace disruptor4cpp;
typedef ring_buffer<int, 8, busy_spin_wait_strategy, producer_type::single> RB;
typedef RB::sequence_barrier_type BAR;
typedef batch_event_processor<RB> BEP;
typedef no_op_event_processor<RB> NOP;
struct KEx : std::exception { const char *what() const noexcept override { return "k"; } };
extern "C" {
void kvc_start(); void kvc_shutdown(); void kvc_event(int *e, int64_t q, bool eob); void kvc_timeout(int64_t q);
void kvc_event_exc(const std::exception *x, int64_t q, int *e); void kvc_start_exc(const std::exception *x); void kvc_shutdown_exc(const std::exception *x);
}
struct KH : event_handler<int> {
    void on_start() override { kvc_start(); }
    void on_shutdown() override { kvc_shutdown(); }
    void on_event(int &e, int64_t q, bool b) override { kvc_event(&e, q, b); }
    void on_timeout(int64_t q) override { kvc_timeout(q); }
    void on_event_exception(const std::exception &x, int64_t q, int *e) override { kvc_event_exc(&x, q, e); }
    void on_start_exception(const std::exception &x) override { kvc_start_exc(&x); }
    void on_shutdown_exception(const std::exception &x) override { kvc_shutdown_exc(&x); }
};
extern "C" {
std::size_t c_sizeof_bep() { return sizeof(BEP); }
std::size_t c_sizeof_nop() { return sizeof(NOP); }
void h_kh(void *p) { new (p) KH(); }
void h_bep_ctor(void *p, RB *r, BAR *b, KH *h) { new (p) BEP(*r, *b, *h); }
void h_nop_ctor(void *p, RB *r, BAR *b) { new (p) NOP(*r, *b); }
void *a_bep_seq(BEP *b) { return &b->sequence_.sequence_; }
void *a_bep_running(BEP *b) { return &b->running_; }
void *a_nop_seq(NOP *b) { return &b->sequence_.sequence_; }
void *a_nop_running(NOP *b) { return &b->running_; }
void h_bep_run(BEP *b) { b->run(); }
void h_bep_halt(BEP *b) { b->halt(); }
bool h_bep_is_running(BEP *b) { return b->is_running(); }
void *h_bep_get_seq(BEP *b) { return &b->get_sequence(); }
void *a_bep_seqobj(BEP *b) { return &b->sequence_; }
void h_nop_run(NOP *b) { b->run(); }
void h_nop_halt(NOP *b) { b->halt(); }
bool h_nop_is_running(NOP *b) { return b->is_running(); }
void t_alert() { throw alert_exception(); }
void t_timeout() { throw timeout_exception(); }
void t_std() { throw KEx(); }
void t_int() { throw 1; }
}
