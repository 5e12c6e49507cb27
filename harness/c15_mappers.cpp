// every serialisation mapper
#include <klepsydra/serialization/identity_mapper.h>
#undef IDENTITY_MAPPER_H
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/core/non_copying_stream_buffer.h>
using V = std::vector<unsigned char>;
using S = std::string;
template<int N>
struct Ev { unsigned char b[N]; };
struct Wide { long a; int b; double d; void *p; };
struct JE
{
    long v;
    template<class A>
    void serialize(A &a) { a(CEREAL_NVP(v)); }
};
using namespace kpsr;
template<class T>
using VM = Mapper<T, V>;
using SB = std::basic_streambuf<char> *;
#define VOIDC(n, T) \
    void h_to_##n(VM<T> *m, const T *e, V *o) { m->toMiddleware(*e, *o); } \
    void h_from_##n(VM<T> *m, const V *i, T *e) { m->fromMiddleware(*i, *e); }
extern "C" {
unsigned long c_sizeof_wide() { return sizeof(Wide); }
unsigned long c_sizeof_string() { return sizeof(S); }
unsigned long c_sizeof_ncsb() { return sizeof(core::NonCopyingStringBuffer); }
VOIDC(1, Ev<1>)
VOIDC(7, Ev<7>)
VOIDC(24, Ev<24>)
VOIDC(wide, Wide)
void h_ito(Mapper<JE, JE> *m, const JE *e, JE *o) { m->toMiddleware(*e, *o); }
void h_ifrom(Mapper<JE, JE> *m, const JE *i, JE *e) { m->fromMiddleware(*i, *e); }
void h_inew(void *p) { new (p) Mapper<JE, JE>(); }
void h_jto(Mapper<JE, S> *m, const JE *e, S *o) { m->toMiddleware(*e, *o); }
void h_jfrom(Mapper<JE, S> *m, const S *i, JE *e) { m->fromMiddleware(*i, *e); }
void h_bto(Mapper<JE, SB> *m, const JE *e, SB *o) { m->toMiddleware(*e, *o); }
void h_bfrom(Mapper<JE, SB> *m, SB *i, JE *e) { m->fromMiddleware(*i, *e); }
void h_sbnew(void *p, char *d, long n) { new (p) core::NonCopyingStringBuffer(d, n); }
char *h_sbeback(core::NonCopyingStringBuffer *b) { return b->eback(); }
char *h_sbgptr(core::NonCopyingStringBuffer *b) { return b->gptr(); }
char *h_sbegptr(core::NonCopyingStringBuffer *b) { return b->egptr(); }
}
