#include "c08_fsm.cpp"
#include <state_machine/modules/json_conf/src/json_config_loader.cpp>
#include <state_machine/modules/json_conf/src/kpsr_state_machine.cpp>
// an archive that hands every field to the model
extern "C" void kv_field(const char *name, void *where);
struct Arch
{
    template<class T>
    void one(T &&v) { kv_field(v.name, (void *) &v.value); }
    template<class... A>
    void operator()(A &&...a) { (one(a), ...); }
};
extern "C" {
void h_sertr(Arch *a, ConfigTransition *t) { cereal::serialize(*a, *t); }
void h_serst(Arch *a, ConfigState *t) { cereal::serialize(*a, *t); }
void h_sersm(Arch *a, ConfigStateMachine *t) { cereal::serialize(*a, *t); }
void h_load(JsonConfigLoader *l, ConfigStateMachine *r, S *p) { new (r) ConfigStateMachine(l->loadConfig(*p)); }
void h_jmake(S *p, std::shared_ptr<StateMachine> *r) { new (r) std::shared_ptr<StateMachine>(FromJson::createStateMachine(*p)); }
void h_jlst(S *p, std::shared_ptr<L> *r) { new (r) std::shared_ptr<L>(FromJson::createStateMachineListener(*p)); }
}
