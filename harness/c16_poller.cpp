#include <core/modules/mem_mdlw/src/in_memory_queue_poller.cpp>
using P = kpsr::mem::InMemoryQueuePoller;
extern "C" void kv_take(void *p);
struct TP : P
{
    using P::P;
    void takeEventFromQueue() override { kv_take(this); }
};
extern "C" {
unsigned long c_sizeof_p() { return sizeof(TP); }
void *a_running(P *p) { return &p->_running; }
void *a_started(P *p) { return &p->_started; }
void *a_thread(P *p) { return &p->_threadNotifier; }
void *a_task(P *p) { return &p->_loopFunction; }
void *a_future(P *p) { return &p->_threadNotifierFuture; }
void *a_timeout(P *p) { return &p->_timeoutUs; }
void *a_sleep(P *p) { return &p->_sleepPeriodUS; }
void *a_name(P *p) { return &p->_eventName; }
void h_new(TP *p, const std::string *n, unsigned sl, long to) { new (p) TP(*n, sl, to); }
void h_del(TP *p) { p->~TP(); }
void h_start(P *p) { p->start(); }
void h_stop(P *p) { p->stop(); }
void h_loop(P *p) { p->pollingLoop(); }
bool h_running(P *p) { return p->isRunning(); }
}
