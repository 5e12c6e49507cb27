// Harness TU for the smart object pool contracts: only forwards to the real code in /repo.
#include <cstddef>
#include <cstdint>
#include <string>
#include <klepsydra/core/smart_object_pool.h>
struct Obj { long x; Obj(); };
extern "C" { void cb_new(Obj *); void cb_delete(Obj *); void cb_init(Obj *); void cb_fin(Obj *); }
inline Obj::Obj() { cb_new(this); }
struct KD { void operator()(Obj *p) const { cb_delete(p); } };
typedef kpsr::SmartObjectPool<Obj, KD> Pool;
typedef std::unique_ptr<Obj, KD> El;
typedef kpsr::LockFreeStack<El> ST;
extern "C" {
std::size_t c_sizeof_pool() { return sizeof(Pool); }
std::size_t c_sizeof_handle() { return sizeof(Pool::ptr_type); }
void *a_fails(Pool *p) { return &p->objectPoolFails; }
void *a_this(Pool *p) { return &p->this_ptr_; }
void *a_stack(Pool *p) { return &p->pool_; }
void h_ctor(void *p, int n, bool init, bool fin) {
    std::string nm;
    std::function<void(Obj &)> i, f;
    if (init) i = [](Obj &o) { cb_init(&o); };
    if (fin) f = [](Obj &o) { cb_fin(&o); };
    new (p) Pool(nm, n, i, f);
}
void h_callinit(std::function<void(El &)> *f, El *e) { (*f)(*e); }
void h_acquire(Pool *p, void *h) { new (h) Pool::ptr_type(p->acquire()); }
Obj *h_get(Pool::ptr_type *h) { return h->get(); }
void h_release(Pool::ptr_type *h) { h->~unique_ptr(); }
void h_reset(Pool::ptr_type *h) { h->reset(); }
void h_move(Pool::ptr_type *h, void *to) { new (to) Pool::ptr_type(std::move(*h)); }
void h_dtor(Pool *p) { p->~Pool(); }
}
