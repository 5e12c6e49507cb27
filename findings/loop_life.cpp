// C20 (fixed): the ends of an event loop and of a reader of a multiplexer.  Before the fixes
//  1 stop after a start that gave up waiting never returned: the order to halt came before the thread began and was lost
//  2 an event loop that was destroyed while started ended the program, and left its position in the ring
//  3 a reader that could not be made in time ended the program instead of failing with an exception
//  4 destroying a reader whose listener had thrown something that is no std::exception never returned
//  5 a destroyed reader left its position in the ring: the next round of the publisher reads freed memory, or waits for it without end
// g++ -std=c++17 -fsanitize=address -I /verif/harness/sdk -I /repo/core/modules/core/include -I /repo/high_performance/modules/high_performance/include loop_life.cpp -lspdlog -lfmt -lpthread -ldl
#include <atomic>
#include <cstdio>
#include <memory>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
#include <klepsydra/core/event_emitter_subscriber.h>
#include <klepsydra/high_performance/event_loop.h>
#include <klepsydra/high_performance/data_multiplexer_subscriber.h>
using namespace kpsr;
using namespace kpsr::high_performance;
static std::atomic<unsigned> late{0};
struct Call { void *(*f)(void *); void *a; unsigned us; };
static void *begin_late(void *p) { Call c = *(Call *) p; delete (Call *) p; if (c.us) usleep(c.us); return c.f(c.a); }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
    return real(t, at, begin_late, new Call{f, a, late.load()});
}
typedef EventLoop<4> EL;
typedef DataMultiplexerSubscriber<int, 4> MS;
struct L { EL::RingBuffer ring; std::shared_ptr<EventEmitterInterface<EventloopDataWrapper>> em = std::make_shared<SafeEventEmitter<EventloopDataWrapper>>();
    template<class R> static void put(R &r) { r.publish(r.next()); } };
static int part(int k) {
    if (k == 1) { L l; EL e(l.em, l.ring, "x", 100); late = 50000; try { e.start(); } catch (std::exception &) {} e.stop(); }
    if (k == 2) { L l; { auto e = std::make_unique<EL>(l.em, l.ring, "x"); e->start(); } for (int i = 0; i < 20; i++) L::put(l.ring); }
    if (k == 3) { MS::RingBuffer r; late = 50000; bool thrown = false; try { MS m(nullptr, "m", "s", r, 100); } catch (std::runtime_error &) { thrown = true; } return !thrown; }
    if (k == 4) { MS::RingBuffer r; MS m(nullptr, "m", "s", r); m.registerListener("l", [](const int &) { throw 42; }); L::put(r); usleep(50000); }
    if (k == 5) { MS::RingBuffer r; auto m = std::make_unique<MS>(nullptr, "m", "s", r); m.reset(); for (int i = 0; i < 20; i++) L::put(r); }
    return 0;
}
int main() {
    int bad = 0;
    for (int k = 1; k <= 5; k++) {
        fflush(stdout);
        pid_t p = fork();
        if (!p) { alarm(5); _exit(part(k)); }
        int st; waitpid(p, &st, 0);
        printf("%d: %s\n", k, st == 0 ? "ok" : WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hangs" : "broken");
        bad += st != 0;
    }
    return bad != 0;
}
