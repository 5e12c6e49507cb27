// Bounded driver for event loops and readers of a multiplexer: start, stop, restart and destruction with threads that begin late or end by
// themselves, and with producers that go on when the reader is gone.
#include "common.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <klepsydra/core/event_emitter_subscriber.h>
#include <klepsydra/high_performance/event_loop.h>
#include <klepsydra/high_performance/data_multiplexer_subscriber.h>
using namespace kpsr;
using namespace kpsr::high_performance;
static std::atomic<unsigned> late{0};
static std::atomic<int> alive{0}, made{0};
struct Call { void *(*f)(void *); void *a; unsigned us; };
static void *begin_late(void *p) { Call c = *(Call *) p; delete (Call *) p; if (c.us) usleep(c.us); void *r = c.f(c.a); alive--; return r; }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
    alive++; made++;
    return real(t, at, begin_late, new Call{f, a, late.load()});
}
struct Ev { long v = -1; };
typedef EventLoop<8> EL;
typedef DataMultiplexerSubscriber<Ev, 8> MS;
typedef std::shared_ptr<EventEmitterInterface<EventloopDataWrapper>> WM;
struct Log { std::mutex m; std::set<std::thread::id> who; long n = 0, last = -1; std::atomic<bool> quiet{false}, fail{false};
    void event(long v) {
        if (quiet) drv::fail("an event is handled after stop returned");
        { std::lock_guard<std::mutex> l(m); who.insert(std::this_thread::get_id()); n++; if (v <= last) drv::fail("event %ld after event %ld", v, last); last = v;
          if (who.size() != 1) drv::fail("%zu threads handle events", who.size()); }
        if (fail) throw 42;
    }
    void fresh() { std::lock_guard<std::mutex> l(m); who.clear(); quiet = false; fail = false; }
    long count() { std::lock_guard<std::mutex> l(m); return n; }
};
template<class F> static void until(F f, const char *w) { double t = drv::elapsed(); while (!f()) { if (drv::elapsed() - t > 30) drv::fail("%s", w); usleep(20); } }

static void loops(drv::Rng &R) {
    bool slow = R.chance(40); long tmo = slow ? R.range(-1, 3000) : 20000000; int n = 1 + R.below(4), mode = R.below(3); unsigned begin = R.chance(50) ? 0 : R.below(5000);
    drv::kase("a loop with a time-out of %ld us, threads begin after %u us, %d cycles, listeners throw: %d", tmo, begin, n, mode == 2);
    auto ring = std::make_unique<EL::RingBuffer>();
    WM em = std::make_shared<SafeEventEmitter<EventloopDataWrapper>>();
    Log log; long v = 0;
    em->on(nullptr, "listener", "n_external", [&](const EventloopDataWrapper &w) { log.event(*std::static_pointer_cast<const long>(w.eventData)); });
    auto put = [&] { int64_t q = ring->next(); auto &e = (*ring)[q]; e.eventName = "n"; e.eventData = std::make_shared<const long>(v++); ring->publish(q); };
    made = 0; late = begin;
    {
        auto l = std::make_unique<EL>(em, *ring, "loop", tmo);
        CHECK(l->getName() == "loop" && !l->isStarted() && !l->isRunning() && alive == 0, "a new loop is started");
        if (R.chance(30)) { l->stop(); CHECK(!l->isStarted() && alive == 0, "stop before start"); }
        for (int k = 0; k < n; k++) {
            log.fresh();
            bool ok = true; double t = drv::elapsed();
            try { l->start(); }
            catch (std::runtime_error &) { ok = false; CHECK(drv::elapsed() - t >= tmo / 1e6, "start gave up after %.6f s", drv::elapsed() - t); }
            CHECK(made == k + 1, "%d threads for %d starts", (int) made, k + 1);
            if (ok) {
                CHECK(l->isStarted() && l->isRunning(), "start returned but the loop is not running");
                if (R.chance(30)) { l->start(); CHECK(made == k + 1 && alive == 1, "starting twice: %d threads", (int) alive); }
                long want = log.count(); int m = R.below(30);
                for (int i = 0; i < m; i++) { put(); want++; }
                if (mode == 2 || R.chance(70)) until([&] { return log.count() == want; }, "an event was published to a running loop but not handled");
                if (mode == 2) { log.fail = true; put(); if (R.chance(60)) until([&] { return !l->isRunning(); }, "the listener threw but the loop goes on"); }
            } else if (R.chance(50)) usleep(R.below(3000));
            if (k == n - 1 && R.chance(50)) break;
            l->stop(); log.quiet = true;
            CHECK(!l->isStarted() && !l->isRunning() && alive == 0, "a stopped loop: started %d, running %d, %d threads", (int) l->isStarted(), (int) l->isRunning(), (int) alive);
            if (R.chance(30)) { l->stop(); CHECK(!l->isStarted() && alive == 0, "second stop"); }
            drv::beat();
        }
    }
    log.quiet = true; late = 0;
    CHECK(alive == 0, "%d threads are left after the destruction", (int) alive);
    for (int i = 0; i < 20; i++) put();  // nobody is left to wait for
}
static void readers(drv::Rng &R) {
    bool slow = R.chance(40); long tmo = slow ? R.range(-1, 3000) : 20000000; int n = 1 + R.below(3); bool boom = R.chance(30); unsigned begin = R.chance(50) ? 0 : R.below(5000);
    drv::kase("%d readers with a time-out of %ld us, threads begin after %u us, listeners throw: %d", n, tmo, begin, (int) boom);
    auto ring = std::make_unique<MS::RingBuffer>([](DataMultiplexerDataWrapper<Ev> &) {});
    long v = 0;
    auto put = [&] { int64_t q = ring->next(); (*ring)[q].eventData = std::make_shared<Ev>(); (*ring)[q].eventData->v = v++; ring->publish(q); };
    std::vector<std::unique_ptr<Log>> logs; std::vector<std::unique_ptr<MS>> rs;
    late = begin; made = 0;
    for (int i = 0; i < n; i++) {
        double t = drv::elapsed();
        try {
            auto r = std::make_unique<MS>(nullptr, "mux", "r" + std::to_string(i), *ring, tmo);
            CHECK(r->batchEventProcessor->is_running(), "a new reader is not running");
            CHECK(made == i + 1, "%d threads for %d readers", (int) made, i + 1);
            logs.push_back(std::make_unique<Log>());
            Log *l = logs.back().get();
            r->registerListener("l", [l](const Ev &e) { l->event(e.v); });
            rs.push_back(std::move(r));
        } catch (std::runtime_error &) { CHECK(drv::elapsed() - t >= tmo / 1e6, "making a reader gave up after %.6f s", drv::elapsed() - t); }
        CHECK(alive == (int) rs.size(), "%d threads for %zu readers", (int) alive, rs.size());
    }
    late = 0;
    while (!rs.empty()) {
        int m = R.below(30);
        for (int i = 0; i < m; i++) put();
        if (m || boom) for (auto &l : logs) until([&] { std::lock_guard<std::mutex> g(l->m); return l->last == v - 1 || l->fail; }, "the last event did not reach a reader");
        size_t i = R.below(rs.size());
        if (boom) { logs[i]->fail = true; put(); if (R.chance(60)) until([&] { return !rs[i]->batchEventProcessor->is_running(); }, "the listener threw but the reader goes on"); }
        rs[i].reset(); logs[i]->quiet = true; rs.erase(rs.begin() + i); logs.erase(logs.begin() + i);
        CHECK(alive == (int) rs.size(), "%d threads for %zu readers", (int) alive, rs.size());
        drv::beat();
    }
    for (int i = 0; i < 20; i++) put();  // nobody is left to wait for
}
int main() {
    drv::init();
    drv::Rng R(drv::seed());
    do { loops(R); readers(R); } while (drv::more());
    return drv::done();
}
