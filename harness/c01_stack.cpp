// Harness TU for the lock free stack contracts: only forwards to the real code in /repo.
#include <cstddef>
#include <cstdint>
#include <functional>
#include <klepsydra/core/lock_free_stack.h>
typedef kpsr::LockFreeStack<long> ST;
extern "C" {
void cb_init(long *);
std::size_t c_sizeof_st() { return sizeof(ST); }
std::size_t c_sizeof_node() { return sizeof(ST::node_t); }
void *a_buf_ptr(ST *s) { return &s->node_buffer_ptr; }
void *a_buf(ST *s) { return &s->node_buffer; }
void *a_head(ST *s) { return &s->head; }
void *a_free(ST *s) { return &s->free_nodes; }
void *a_data(ST *s) { return &s->data_buffer; }
bool h_push(ST *s, long v) { return s->push(v); }
bool h_push_move(ST *s, long *v) { return s->push(std::move(*v)); }
bool h_pop(ST *s, long *out) { return s->pop(*out); }
void h_ctor(void *p, std::size_t n) { new (p) ST(n, [](long &x) { cb_init(&x); }); }
void h_ctor_null(void *p, std::size_t n) { new (p) ST(n, nullptr); }
}
