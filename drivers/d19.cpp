// Bounded driver for pollers, handlers, subscribers and caches: random histories of registrations, removals and events against a reference,
// with the real emitters, queues and ring buffers; pollers and data multiplexers with their own threads.
#include "common.h"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <klepsydra/core/event_emitter_subscriber.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/cache_listener.h>
#include <klepsydra/mem_core/safe_queue_poller.h>
#include <klepsydra/mem_core/concurrent_queue_poller.h>
#include <klepsydra/high_performance/event_loop_event_handler.h>
#include <klepsydra/high_performance/event_loop_subscriber.h>
#include <klepsydra/high_performance/event_loop_function_exec_listener.h>
#include <klepsydra/high_performance/data_multiplexer_publisher.h>
#include <klepsydra/high_performance/data_multiplexer_subscriber.h>
#include <spdlog/spdlog.h>
using namespace kpsr;
struct Cont : Container { int n = 0; void attach(SubscriptionStats *) override { n++; } void detach(SubscriptionStats *) override { n--; } };
struct Ev { long v = -1; };
struct Other { double d; };
typedef std::shared_ptr<const Ev> SP;
typedef std::shared_ptr<EventEmitterInterface<SP>> EM;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
static SP ev(long v) { auto e = std::make_shared<Ev>(); e->v = v; return e; }

// ---- a subscriber against a reference
static void subscriber(drv::Rng &R) {
    bool multi = R.chance(30), cont = R.chance(50), own = R.chance(50);
    drv::kase("subscriber multi=%d container=%d own=%d", multi, cont, own);
    Cont c;
    auto ty = multi ? EventEmitterType::UNSAFE_MULTI : EventEmitterType::SAFE;
    EM em = EventEmitterFactory::createEventEmitter<SP>(ty);
    auto s = own ? std::make_unique<EventEmitterSubscriber<Ev>>(cont ? &c : nullptr, ty, "s") : std::make_unique<EventEmitterSubscriber<Ev>>(cont ? &c : nullptr, em, "s");
    if (own) em = s->_eventEmitter;
    std::map<std::string, std::pair<bool, long>> reg; // name: shared, expected number of calls
    std::map<std::string, long> seen;
    SP cur; long once = 0, wantOnce = 0, pending = 0;
    int steps = 1 + R.below(40);
    for (int k = 0; k < steps; k++) {
        std::string n = "l" + std::to_string(R.below(6));
        switch (R.below(6)) {
        case 0: case 1:
            if (reg.count(n)) break;
            seen[n] = 0;
            if (R.chance(50)) {
                s->registerListener(n, [&, n](const Ev &e) { seen[n]++; CHECK(&e == cur.get(), "a listener got another event"); });
                reg[n] = {false, 0};
            } else {
                s->registerSharedPtrListener(n, [&, n](const SP &e) { seen[n]++; CHECK(e == cur, "a listener got another event"); });
                reg[n] = {true, 0};
            }
            break;
        case 2:
            if (R.chance(50)) { try { s->removeListener(n); } catch (std::exception &e) { drv::fail("removing %s threw %s", n.c_str(), e.what()); } reg.erase(n); }
            else {
                auto st = s->getSubscriptionStats(n);
                CHECK(reg.count(n) ? (!cont || st != nullptr) : st == nullptr, "statistics of %s", n.c_str());
            }
            break;
        case 3:
            if (multi) break;
            if (R.chance(50)) s->registerListenerOnce([&](const Ev &e) { once++; CHECK(&e == cur.get(), "a one-time listener got another event"); });
            else s->registerSharedPtrListenerOnce([&](const SP &e) { once++; CHECK(e == cur, "a one-time listener got another event"); });
            pending++;
            break;
        case 4: {
            int thrown = 0;
            try { s->registerListener(n, nullptr); } catch (std::invalid_argument &) { thrown++; }
            try { s->registerSharedPtrListener(n, nullptr); } catch (std::invalid_argument &) { thrown++; }
            try { s->registerListenerOnce(nullptr); } catch (std::invalid_argument &) { thrown++; }
            try { s->registerSharedPtrListenerOnce(nullptr); } catch (std::invalid_argument &) { thrown++; }
            CHECK(thrown == 4, "an empty callback was accepted");
            break;
        }
        case 5:
            cur = ev(k);
            em->emitEvent("s", 0, cur);
            em->emitEvent("t", 0, ev(-7));
            for (auto &x : reg) x.second.second++;
            wantOnce += pending; pending = 0;
            break;
        }
        for (auto &x : reg) CHECK(seen[x.first] == x.second.second, "listener %s ran %ld times for %ld events", x.first.c_str(), seen[x.first], x.second.second);
        CHECK(once == wantOnce, "one-time listeners ran %ld times instead of %ld", once, wantOnce);
    }
    auto before = seen;
    s.reset();
    em->emitEvent("s", 0, ev(99));
    CHECK(seen == before && once == wantOnce, "a listener outlived its subscriber");
    CHECK(c.n == 0, "statistics of a destroyed subscriber stay attached");
}

// ---- pollers
template<class P, class Q, class... A> static void poll(drv::Rng &R, Q &q, std::function<void(mem::EventData<const Ev> &)> put, A &...a) {
    EM em = EventEmitterFactory::createEventEmitter<SP>(EventEmitterType::SAFE);
    struct Spy : EventEmitterInterface<SP> {
        EM in; std::vector<std::pair<unsigned long long, SP>> got; std::mutex m; int fail = -1;
        unsigned int on(Container *c, const std::string &l, const std::string &n, std::function<void(const SP &)> f) override { return in->on(c, l, n, f); }
        unsigned int once(const std::string &n, std::function<void(const SP &)> f) override { return in->once(n, f); }
        void removeListener(Container *c, unsigned int id) override { in->removeListener(c, id); }
        void emitEvent(const std::string &n, unsigned long long t, const SP &e) override { CHECK(n == "p", "an event travels under the name %s", n.c_str()); { std::lock_guard<std::mutex> l(m); got.push_back({t, e}); } in->emitEvent(n, t, e); }
        void discardEvent(const std::string &n) override { in->discardEvent(n); }
        std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &id) override { return in->getListenerStats(id); }
        void removeAllListeners(Container *c) override { in->removeAllListeners(c); }
    };
    auto spy = std::make_shared<Spy>(); spy->in = em;
    EM se = spy;
    EventEmitterSubscriber<Ev> s(nullptr, se, "p");
    std::atomic<long> n{0};
    s.registerListener("l", [&](const Ev &e) { CHECK(e.v == n, "event %ld came as %ld", (long) n, e.v); n++; });
    int pre = R.below(6), N = pre + R.below(20);
    std::vector<SP> es;
    for (int i = 0; i < N; i++) es.push_back(ev(i));
    auto one = [&](int i) { mem::EventData<const Ev> d; d.eventData = es[i]; d.enqueuedTimeInNs = 1000 + i; put(d); };
    P p(q, se, "p", 100, a...);
    for (int i = 0; i < pre; i++) one(i);
    p.start();
    for (int i = pre; i < N; i++) { one(i); if (R.chance(20)) std::this_thread::sleep_for(std::chrono::microseconds(R.below(300))); }
    for (int w = 0; n < N && w < 20000; w++) { std::this_thread::sleep_for(std::chrono::microseconds(100)); drv::beat(); }
    p.stop();
    CHECK(n == N && (int) spy->got.size() == N, "%ld of %d events reached the listener, %zu the emitter", (long) n, N, spy->got.size());
    for (int i = 0; i < N; i++) CHECK(spy->got[i].first == 1000u + i && spy->got[i].second == es[i], "event %d was changed on its way", i);
}
static void pollers(drv::Rng &R, bool conc) {
    drv::kase("poller lock-free=%d", conc);
    typedef mem::EventData<const Ev> ED;
    if (conc) {
        moodycamel::ConcurrentQueue<ED> q(32);
        moodycamel::ProducerToken t(q);
        poll<mem::ConcurrentQueuePoller<Ev>>(R, q, [&](ED &d) { q.enqueue(t, d); }, t);
    } else {
        mem::SafeQueue<ED> q(64);
        poll<mem::SafeQueuePoller<Ev>>(R, q, [&](ED &d) { q.push(d); });
    }
}

// ---- the event loop without its thread
static void loop(drv::Rng &R) {
    using namespace high_performance;
    typedef std::shared_ptr<EventEmitterInterface<EventloopDataWrapper>> WM;
    WM ext = EventEmitterFactory::createEventEmitter<EventloopDataWrapper>(EventEmitterType::SAFE);
    Cont c;
    int S = 1 + R.below(4), k = R.below(30);
    drv::kase("event loop: %d subscribers, %d events", S, k);
    EventLoopEventHandler h(ext);
    std::vector<std::unique_ptr<EventLoopSubscriber<Ev>>> subs(S);
    std::vector<long> got(S, 0), want(S, 0); SP cur; long runs = 0, wantRuns = 0; bool boom = false;
    auto open = [&](int i) {
        subs[i] = std::make_unique<EventLoopSubscriber<Ev>>(R.chance(50) ? &c : nullptr, ext, "e" + std::to_string(i), EventEmitterType::SAFE);
        subs[i]->registerSharedPtrListener("l", [&, i](const SP &e) { got[i]++; CHECK(e == cur, "an event was changed in the loop"); if (boom) throw Boom(); });
    };
    for (int i = 0; i < S; i++) open(i);
    auto fx = std::make_unique<EventLoopFunctionExecutorListener>(nullptr, ext, "f");
    EventloopDataWrapper slot;
    for (int j = 0; j < k; j++) {
        int i = R.below(S);
        if (R.chance(15)) { if (subs[i]) subs[i].reset(); else open(i); continue; }
        if (R.chance(15)) {
            slot.eventName = "f"; slot.eventData = std::make_shared<std::function<void()>>([&] { runs++; }); wantRuns += fx != nullptr;
        } else {
            cur = ev(j); slot.eventName = "e" + std::to_string(i); slot.eventData = cur; slot.enqueuedTimeInNs = j; want[i] += subs[i] != nullptr;
            boom = R.chance(10);
        }
        try { h.on_event(slot, j, R.chance(50)); CHECK(!slot.eventData, "a slot still holds an event that was handled"); } catch (Boom &) { CHECK(boom, "a failure from nowhere"); }
        boom = false;
        CHECK(got == want && runs == wantRuns, "an event of the loop reached the wrong listeners");
        if (R.chance(3)) fx.reset();
    }
    subs.clear();
    CHECK(c.n == 0, "statistics of destroyed subscribers stay attached");
}

// ---- the data multiplexer with its threads
static void mux(drv::Rng &R) {
    using namespace high_performance;
    int S = 1 + R.below(3), N = 1 + R.below(60);
    drv::kase("multiplexer: %d subscribers, %d events", S, N);
    typedef DataMultiplexerSubscriber<Ev, 8> DS;
    DS::RingBuffer rb([](DataMultiplexerDataWrapper<Ev> &e) { e.eventData = std::make_shared<Ev>(); });
    DataMultiplexerPublisher<Ev, 8> p(nullptr, "m", nullptr, rb);
    std::vector<std::unique_ptr<std::vector<long>>> got;
    std::vector<std::unique_ptr<std::atomic<long>>> last;
    std::vector<std::unique_ptr<DS>> subs;
    std::vector<std::shared_ptr<SubscriptionStats>> st;
    static Cont c;
    for (int i = 0; i < S; i++) {
        got.push_back(std::make_unique<std::vector<long>>()); last.push_back(std::make_unique<std::atomic<long>>(-1));
        subs.push_back(std::make_unique<DS>(&c, "m", "s" + std::to_string(i), rb, 20 * 1000 * 1000L));
        auto g = got.back().get(); auto l = last.back().get(); int slow = R.below(3);
        subs.back()->registerListener("l", [g, l, slow](const Ev &e) { g->push_back(e.v); if (slow == 2) std::this_thread::sleep_for(std::chrono::microseconds(20)); *l = e.v; });
        st.push_back(subs.back()->getSubscriptionStats("l"));
    }
    for (int i = 0; i < N; i++) {
        Ev e; e.v = i;
        for (;;) { auto d = rb.get_cursor(); p.publish(e); if (rb.get_cursor() != d) break; std::this_thread::yield(); drv::beat(); }
    }
    for (int i = 0; i < S; i++) {
        for (int w = 0; *last[i] < N - 1 && w < 20000; w++) { std::this_thread::sleep_for(std::chrono::microseconds(100)); drv::beat(); }
        CHECK(*last[i] == N - 1, "the latest event did not reach subscriber %d", i);
    }
    for (auto &s : subs) s.reset();
    for (int i = 0; i < S; i++) {
        auto &g = *got[i];
        for (size_t j = 1; j < g.size(); j++) CHECK(g[j] > g[j - 1], "subscriber %d got event %ld after %ld", i, g[j], g[j - 1]);
        CHECK(st[i] && (long) g.size() + (long) st[i]->totalDiscardedEvents == N, "%zu events delivered and %llu discarded of %d", g.size(), st[i]->totalDiscardedEvents, N);
    }
}

// ---- caches
static void caches(drv::Rng &R) {
    drv::kase("caches");
    mem::CacheListener<Ev> a; mem::TestCacheListener<Ev> b(0); mem::MultiThreadCacheListener<Ev> m;
    CHECK(!a.getLastReceivedEvent() && a.counter == 0, "a new cache is not empty");
    int N = R.below(20);
    for (int i = 0; i < N; i++) {
        Ev e; e.v = i;
        a.cacheListenerFunction(e); b.cacheListenerFunction(e);
        auto s = std::make_shared<Ev>(e);
        if (R.chance(50)) m.onEventReceivedRaw(s); else m.cacheListenerFunction(*s);
        e.v = -5;
        if (R.chance(20)) {
            mem::CacheListener<Ev> d; d.onEventReceivedRaw(s); d.onEventReceivedRaw(s);
            CHECK(d.counter == 2 && d.getLastReceivedEvent() == s, "an event received twice was counted %d times", (int) d.counter);
        }
        CHECK(a.getLastReceivedEvent()->v == i && a.counter == i + 1 && b.getLastReceivedEvent()->v == i && b.counter == i + 1, "a cache missed an event");
        auto x = m.getCounterAndEvent();
        CHECK(x.first == i + 1 && x.second->v == i, "a thread-safe cache missed an event");
    }
    mem::MultiThreadCacheListener<Ev> t;
    std::atomic<bool> stop{false};
    std::thread w([&] { for (int i = 1; i <= 200; i++) { Ev e; e.v = i; t.cacheListenerFunction(e); } stop = true; });
    while (!stop) { auto x = t.getCounterAndEvent(); if (x.second) CHECK(x.first == x.second->v, "counter %d with event %ld", x.first, x.second->v); }
    w.join();
}

int main() {
    drv::init();
    spdlog::set_level(spdlog::level::off);
    drv::Rng R(drv::seed());
    do {
        switch (R.below(8)) {
        case 0: case 1: subscriber(R); break;
        case 2: if (R.chance(15)) pollers(R, false); break;
        case 3:
#ifndef __SANITIZE_THREAD__ // moodycamel's queue orders with fences, which the sanitizer does not know
            if (R.chance(15)) pollers(R, true);
#endif
            break;
        case 4: case 5: loop(R); break;
        case 6: if (R.chance(20)) mux(R); break;
        case 7: caches(R); break;
        }
    } while (drv::more());
    return drv::done();
}
