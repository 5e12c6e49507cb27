// Harness TU for the configuration contracts: only forwards to the real code in /repo.  The KlepsydraSDK headers come from harness/sdk.
#include <map>
#include <memory>
#include <sstream>
#include <fstream>
#include <string>
#include <klepsydra/core/configuration_environment.h>
#include <../src/configuration_environment.cpp>
template<class T> using CP = kpsr::ConfigurationProperties<T>;
typedef kpsr::DynamicConfigurationProperties DP;
typedef kpsr::ConfigurationEnvironment CE;
using kpsr::Property;
typedef std::string S;
#define VALUES(X) X(i, int) X(s, S) X(b, bool) X(f, float)
extern "C" {
#define SIZES(t, T) std::size_t c_cp_##t() { return sizeof(CP<T>); } std::size_t c_p_##t() { return sizeof(Property<T>); } void *a_pv_##t(Property<T> *p) { return &p->value; } void *a_cpm_##t(CP<T> *p) { return &p->_properties; }
VALUES(SIZES)
std::size_t c_dp() { return sizeof(DP); }
std::size_t c_ce() { return sizeof(CE); }
void *a_dpm(DP *p) { return &p->_properties; }
void *a_ce_s(CE *e) { return &e->_stringProperties; }
void *a_ce_i(CE *e) { return &e->_intProperties; }
void *a_ce_f(CE *e) { return &e->_floatProperties; }
void *a_ce_b(CE *e) { return &e->_boolProperties; }
#define OPS(t, T) \
    void h_cp_##t(void *p) { new (p) CP<T>(); } \
    bool h_get_##t(const CP<T> *p, const S &n, T &v) { return p->getProperty(n, v); } \
    bool h_set_##t(CP<T> *p, const S &n, const T &v) { return p->setProperty(n, v); } \
    bool h_copy_##t(CP<T> *p, const CP<T> &o, const S &r) { return p->copyFrom(o, r); } \
    void h_mk_##t(void *p, const T &v) { new (p) std::shared_ptr<kpsr::TypedProperty>(std::make_shared<Property<T>>(v)); } \
    void h_prop_##t(void *p, const T &v) { new (p) Property<T>(v); } \
    bool h_dget_##t(const DP *p, const S &n, T &v) { return p->getProperty(n, v); } \
    bool h_dset_##t(DP *p, const S &n, const T &v) { return p->setProperty(n, v); }
VALUES(OPS)
void h_dp(void *p) { new (p) DP(); }
void h_dcopy(DP *p, const DP &o, const S &r) { p->copyFrom(o, r); }
void h_ce(void *p) { new (p) CE(); }
bool h_eget_s(CE *e, const S &k, S &v, const S &d, const S &r) { return e->getPropertyString(k, v, d, r); }
bool h_eget_i(CE *e, const S &k, int &v, const int *d, const S &r) { return e->getPropertyInt(k, v, *d, r); }
bool h_eget_f(CE *e, const S &k, float &v, const float *d, const S &r) { return e->getPropertyFloat(k, v, *d, r); }
bool h_eget_b(CE *e, const S &k, bool &v, const bool *d, const S &r) { return e->getPropertyBool(k, v, *d, r); }
void h_eset_s(CE *e, const S &k, const S &v, const S &r) { e->setPropertyString(k, v, r); }
void h_eset_i(CE *e, const S &k, const int &v, const S &r) { e->setPropertyInt(k, v, r); }
void h_eset_f(CE *e, const S &k, const float &v, const S &r) { e->setPropertyFloat(k, v, r); }
void h_eset_b(CE *e, const S &k, const bool &v, const S &r) { e->setPropertyBool(k, v, r); }
bool h_ecopy(CE *e, const CE &o, const S &r) { return e->copyFrom(o, r); }
}
