// Bounded driver for the queue pollers: start, stop, restart and destruction, with threads that begin late.
#include "common.h"
#include <atomic>
#include <thread>
#include <mutex>
#include <set>
#include <dlfcn.h>
#include <pthread.h>
#include <klepsydra/mem_core/in_memory_queue_poller.h>
static std::atomic<unsigned> late{0}, endlate{0};
static std::atomic<int> alive{0}, made{0};
struct Call { void *(*f)(void *); void *a; unsigned us; };
static void *begin_late(void *p) { Call c = *(Call *) p; delete (Call *) p; if (c.us) usleep(c.us); void *r = c.f(c.a); alive--; return r; }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
    alive++; made++;
    return real(t, at, begin_late, new Call{f, a, late.load()});
}
struct P : kpsr::mem::InMemoryQueuePoller {
    std::atomic<long> takes{0}; std::atomic<bool> may{false}, quiet{false}; std::mutex m; std::set<std::thread::id> who; unsigned us;
    P(const std::string &n, unsigned us, long tmo) : InMemoryQueuePoller(n, us, tmo), us(us) {}
    ~P() { stop(); }
    void takeEventFromQueue() override {
        if (quiet) drv::fail("an event is taken after stop returned");
        if (!may) drv::fail("an event is taken before start");
        { std::lock_guard<std::mutex> l(m); who.insert(std::this_thread::get_id()); if (who.size() != 1) drv::fail("%zu threads poll", who.size()); }
        takes++;
        if (us) usleep(us);
    }
    const std::string &name() { return _eventName; }
};
static void stopped(P &p, const char *w) {
    p.quiet = true; p.may = false;
    CHECK(!p.isRunning(), "%s: the poller says that it is running", w);
    CHECK(alive == 0, "%s: %d threads are left", w, (int) alive);
}
static void cycles(drv::Rng &R) {
    unsigned us = R.below(300); long tmo = 2000; int n = 1 + R.below(4);
    late = R.chance(50) ? 0 : R.below(3000); made = 0;
    drv::kase("%d cycles, %u us per event, threads begin after %u us", n, us, (unsigned) late);
    {
        P p("event", us, tmo);
        CHECK(p.name() == "event" && !p.isRunning(), "a new poller is running");
        if (R.chance(30)) { p.stop(); stopped(p, "stop before start"); }
        for (int k = 0; k < n; k++) {
            p.quiet = false; p.may = true; { std::lock_guard<std::mutex> l(p.m); p.who.clear(); }
            long t0 = p.takes;
            p.start();
            CHECK(p.isRunning(), "start returned but the poller is not running");
            if (R.chance(30)) { p.start(); CHECK(p.isRunning() && alive == 1, "starting twice: running %d, %d threads", (int) p.isRunning(), (int) alive); }
            double t = drv::elapsed();
            while (p.takes == t0) { if (drv::elapsed() - t > 30) drv::fail("started but no event is taken"); std::this_thread::yield(); }
            usleep(R.below(500));
            CHECK(p.isRunning() && alive == 1, "a started poller: running %d, %d threads", (int) p.isRunning(), (int) alive);
            if (k == n - 1 && R.chance(40)) break;
            p.stop(); stopped(p, "stop");
            if (R.chance(30)) { p.stop(); stopped(p, "second stop"); }
        }
        CHECK(made <= n, "%d threads for %d starts", (int) made, n);
    }
    CHECK(alive == 0, "%d threads are left after the destruction", (int) alive);
    late = 0;
}
static void timeouts(drv::Rng &R) {
    long tmo = R.below(4); late = R.below(8000); bool stop = R.chance(60); int early = R.below(2000);
    drv::kase("start may take %ld ms, the thread begins after %u us, then %s", tmo, (unsigned) late, stop ? "stop" : "destruction");
    {
        P p("event", 50, tmo);
        p.may = true;
        double t = drv::elapsed();
        try { p.start(); CHECK(p.isRunning(), "start returned but the poller is not running"); }
        catch (std::runtime_error &) { CHECK(drv::elapsed() - t >= tmo / 1000., "start gave up after %.6f s", drv::elapsed() - t); }
        if (R.chance(30)) { int n = made; try { p.start(); } catch (std::runtime_error &) {} CHECK(made == n, "starting once more made another thread"); }
        if (R.chance(50)) usleep(early);
        if (stop) {
            p.stop(); stopped(p, "stop");
            if (R.chance(50)) { late = 0; p.quiet = false; p.may = true; { std::lock_guard<std::mutex> l(p.m); p.who.clear(); } try { p.start(); CHECK(p.isRunning(), "not running after a restart"); } catch (std::runtime_error &) {} p.stop(); stopped(p, "stop after a restart"); }
        }
    }
    CHECK(alive == 0, "%d threads are left after the destruction", (int) alive);
    late = 0;
}
int main() {
    drv::init();
    drv::Rng R(drv::seed());
    do { cycles(R); timeouts(R); } while (drv::more());
    return drv::done();
}
