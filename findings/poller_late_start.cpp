// A poller whose thread had not begun when start gave up could neither be stopped nor destroyed: the loop then began,
// marked the poller as running and never saw that it had been told to stop.  (fixed in /repo: cc53672)
// g++ -std=c++17 -pthread -I<include dirs of /repo> poller_late_start.cpp /repo/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp -ldl
#include <klepsydra/mem_core/in_memory_queue_poller.h>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
struct Call { void *(*f)(void *); void *a; };
static void *late(void *p) { Call c = *(Call *) p; delete (Call *) p; usleep(200000); return c.f(c.a); }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
    return real(t, at, late, new Call{f, a});
}
struct P : kpsr::mem::InMemoryQueuePoller { using InMemoryQueuePoller::InMemoryQueuePoller; ~P() { stop(); } void takeEventFromQueue() override { usleep(100); } };
int main() {
    alarm(10);
    P p("late", 10, 20);
    try { p.start(); puts("started"); } catch (std::exception &e) { printf("start failed: %s\n", e.what()); }
    p.stop(); // did not return
    puts("stopped");
}
