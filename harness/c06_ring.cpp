// Harness TU for the ring buffer: only forwards to the real code in /repo.
#include <stdexcept>
#include <exception>
#include <cstdint>
#include <cstddef>
#include <vector>
#include <functional>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;
#ifndef KN
#define KN 8
#endif
#ifndef KP
#define KP single
#endif
struct Ev { int64_t a; int32_t b; int32_t c; int64_t d[KD]; };
typedef ring_buffer<Ev, KN, busy_spin_wait_strategy, producer_type::KP> RB;
template<class T> auto avail(T *r, int) -> decltype((void *) &r->available_buffer_) { return &r->available_buffer_; }
template<class T> void *avail(T *r, long) { return &r->events_; }
template<class T> auto availn(T *r, int) -> decltype(sizeof(r->available_buffer_)) { return sizeof(r->available_buffer_); }
template<class T> std::size_t availn(T *r, long) { return 0; }
extern "C" {
void *a_avail(RB *r) { return avail(r, 0); }
std::size_t c_availn() { return availn((RB *) nullptr, 0); }
void kvc_init(Ev *e);
std::size_t c_n() { return KN; }
std::size_t c_sizeof_rb() { return sizeof(RB); }
std::size_t c_sizeof_ev() { return sizeof(Ev); }
std::size_t c_stride() { return sizeof(cache_line_storage<Ev>); }
void *a_events(RB *r) { return &r->events_; }
void h_ctor_value(void *p, const Ev *v) { new (p) RB(v); }
void h_ctor_fn(void *p) { new (p) RB(std::function<void(Ev &)>([](Ev &e) { kvc_init(&e); })); }
Ev *h_at(RB *r, int64_t q) { return &(*r)[q]; }
const Ev *h_cat(const RB *r, int64_t q) { return &(*r)[q]; }
}
