#include <klepsydra/state_machine/sm_factory_impl.h>
#include <klepsydra/state_machine/state_machine_listener.h>
#include <cstdio>
using namespace kpsr::fsm;
int main(){ ConfigStateMachine c; c.id="m"; c.states.resize(2); c.states[0].id="a"; c.states[0].transitions={{"b","go"}}; c.states[1].id="b"; c.states[1].transitions={{"a","back"}};
 SMFactoryImpl f; auto sm=f.createStateMachine(c); StateMachineListener l("m"); int n=0;
 l.addOneOffAction("b",[&](const std::string&){ if(++n<10){ sm->enqueueAndUpdate("back"); sm->enqueueAndUpdate("go"); } });
 sm->registerObserver(l.getObserverFunc()); std::string seen; sm->registerObserver([&](const std::string&s,bool ch){seen+=s+(ch?"! ":" ");});
 sm->start(); sm->enqueueAndUpdate("go"); printf("one-off ran %d times; second observer saw %s\n",n,seen.c_str());
 StateMachineListener k("m"); int p=0; k.addPeriodicAction("a",[&](const std::string&){p++; k.removeActions("a");}); k.addPeriodicAction("a",[&](const std::string&){p++;}); auto o=k.getObserverFunc(); o("m:a",true); o("m:a",true); printf("%d\n",p);}
