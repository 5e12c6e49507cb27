#include <sys/types.h>
#include <klepsydra/mem_core/safe_queue.h>
#include <cstddef>
using namespace kpsr::mem;
typedef SafeQueue<long> Q;
extern "C" {
std::size_t c_sizeof_q() { return sizeof(Q); }
void *a_queue(Q *q) { return &q->m_queue; }
void *a_mutex(Q *q) { return &q->m_mutex; }
void *a_ne(Q *q) { return &q->m_non_empty_condition; }
void *a_nf(Q *q) { return &q->m_non_full_condition; }
void *a_max(Q *q) { return &q->m_max_num_items; }
void h_ctor(Q *q, unsigned n) { new (q) Q(n); }
void h_copy(Q *q, Q *o) { new (q) Q(*static_cast<const Q *>(o)); }
void h_move(Q *q, Q *o) { new (q) Q(std::move(*o)); }
void h_dtor(Q *q) { q->~Q(); }
void h_setmax(Q *q, unsigned n) { q->set_max_num_items(n); }
bool h_push(Q *q, const long *v) { return q->push(*v); }
bool h_push_rv(Q *q, const long *v) { const long w = *v; return q->push(std::move(w)); }
bool h_move_push(Q *q, const long *v) { return q->move_push(*v); }
bool h_try_push(Q *q, const long *v) { return q->try_push(*v); }
bool h_try_push_rv(Q *q, const long *v) { const long w = *v; return q->try_push(std::move(w)); }
bool h_try_move_push(Q *q, const long *v) { return q->try_move_push(*v); }
unsigned h_force(Q *q, const long *v) { return q->force_move_push(*v); }
void h_pop(Q *q, long *v) { q->pop(*v); }
void h_move_pop(Q *q, long *v) { q->move_pop(*v); }
bool h_try_pop(Q *q, long *v) { return q->try_pop(*v); }
bool h_try_move_pop(Q *q, long *v) { return q->try_move_pop(*v); }
bool h_timeout_pop(Q *q, long *v, unsigned long t) { return q->timeout_pop(*v, t); }
bool h_timeout_move_pop(Q *q, long *v, unsigned long t) { return q->timeout_move_pop(*v, t); }
std::size_t h_size(const Q *q) { return q->size(); }
bool h_empty(const Q *q) { return q->empty(); }
bool h_full(const Q *q) { return q->full(); }
void h_swap(Q *q, Q *o) { q->swap(*o); }
void h_fswap(Q *q, Q *o) { kpsr::mem::swap(*q, *o); }
void h_assign(Q *q, Q *o) { *q = *static_cast<const Q *>(o); }
void h_massign(Q *q, Q *o) { *q = std::move(*o); }
// std::lock takes both, in some order
void h_lock2u(std::unique_lock<std::mutex> *a, std::unique_lock<std::mutex> *b) { a->lock(); b->lock(); }
void h_lock2m(std::mutex *a, std::mutex *b) { a->lock(); b->lock(); }
}
