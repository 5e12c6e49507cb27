// Bounded driver for the sequence barrier and the wait strategies: real threads, random timing.
#include "common.h"
#include <thread>
#include <atomic>
#include <memory>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;
static drv::Rng R(drv::seed());
static const int N = 64;
static void spin(int k) { for (volatile int i = 0; i < k; i++); }
static int64_t mono() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
template<class W> struct Tmo { static const bool v = false; };
template<int64_t T> struct Tmo<timeout_blocking_wait_strategy<T>> { static const bool v = true; static const int64_t ns = T; };

// signalling of dependents: consumers do not signal the strategy, so a blocking waiter waits on the cursor and then spins
template<class W> void behind(const char *nm, int K, int E, int pause) {
    drv::kase("%s: %d dependents, %d events, pause %d", nm, K, E, pause);
    typedef single_producer_sequencer<N, W> S;
    auto s = std::make_unique<S>();
    std::vector<std::unique_ptr<sequence>> d; std::vector<sequence *> dp;
    for (int i = 0; i < K; i++) { d.emplace_back(new sequence); dp.push_back(d.back().get()); }
    sequence last; std::vector<sequence *> lp{&last};
    s->add_gating_sequences(lp);
    auto b0 = s->new_barrier();
    auto b1 = s->new_barrier(dp);
    std::vector<std::thread> ts;
    for (int i = 0; i < K; i++) ts.emplace_back([&, i] {
        unsigned x = 77 * i + E;
        for (int64_t q = 0; q < E;) {
            int64_t a;
            try { a = b0->wait_for(q); } catch (timeout_exception &) { if (!Tmo<W>::v) drv::fail("timeout without a timeout strategy"); continue; }
            CHECK(a >= q, "wait_for(%lld) returned %lld", (long long) q, (long long) a);
            CHECK(a <= s->get_cursor(), "wait_for(%lld) returned %lld past the cursor", (long long) q, (long long) a);
            q = a + 1;
            x = x * 1664525u + 1013904223u; spin((x >> 20) % 400);
            d[i]->set(a);
        }
    });
    ts.emplace_back([&] {
        for (int64_t q = 0; q < E;) {
            int64_t a;
            try { a = b1->wait_for(q); } catch (timeout_exception &) { if (!Tmo<W>::v) drv::fail("timeout without a timeout strategy"); continue; }
            CHECK(a >= q, "wait_for(%lld) returned %lld", (long long) q, (long long) a);
            for (int i = 0; i < K; i++) CHECK(d[i]->get() >= a, "wait_for(%lld) returned %lld but dependent %d is at %lld", (long long) q, (long long) a, i, (long long) d[i]->get());
            CHECK(b1->get_cursor() >= a, "barrier cursor %lld behind the value %lld it handed out", (long long) b1->get_cursor(), (long long) a);
            q = a + 1;
            last.set(a);
        }
    });
    unsigned x = 99;
    for (int64_t i = 0; i < E; i++) { drv::beat(); x = x * 1664525u + 1013904223u; spin((x >> 16) % (pause + 1)); s->publish(s->next()); }
    for (auto &t : ts) t.join();
}
// one event at a time: a published event must wake the waiter
template<class W> void pingpong(const char *nm, int E) {
    drv::kase("%s: one event at a time x %d (lost wake-up)", nm, E);
    typedef single_producer_sequencer<N, W> S;
    auto s = std::make_unique<S>();
    auto b = s->new_barrier();
    std::atomic<int64_t> got{-1}, go{-1};
    std::thread c([&] { for (int64_t i = 0; ; i++) { int64_t g; while ((g = go.load()) < i); if (g == INT64_MAX) return; for (;;) try { b->wait_for(i); break; } catch (timeout_exception &) {} got = i; } });
    unsigned x = (unsigned) drv::seed() * 7919 + 1;
    double begin = drv::elapsed();
    for (int64_t i = 0; i < E && drv::elapsed() - begin < 4; i++) {
        go = i; drv::beat();
        x = x * 1664525u + 1013904223u; spin((x >> 16) % 200);
        s->publish(s->next());
        auto t = drv::elapsed(); unsigned n = 0;
        while (got.load() < i) if ((++n & 1023) == 0 && drv::elapsed() - t > 25) drv::fail("event %lld was published but the waiter still sleeps after 25 s", (long long) i);
    }
    go = INT64_MAX;
    c.join();
}
template<class W> void alerts(const char *nm, int late) {
    drv::kase("%s: alert %s", nm, late ? "while waiting" : "before waiting");
    typedef single_producer_sequencer<N, W> S;
    auto s = std::make_unique<S>();
    auto b = s->new_barrier();
    CHECK(!b->is_alerted(), "a new barrier is alerted");
    if (!late) b->alert();
    std::atomic<int> res{0};
    std::thread c([&] {
        for (;;) try { int64_t a = b->wait_for(0); res = a >= 0 ? 2 : 3; break; } catch (timeout_exception &) { if (!Tmo<W>::v) { res = 4; break; } } catch (alert_exception &) { res = 1; break; }
    });
    if (late) { std::this_thread::sleep_for(std::chrono::microseconds(R.below(3000))); b->alert(); }
    double t = drv::elapsed();
    while (!res.load()) { if (drv::elapsed() - t > 30) drv::fail("an alerted waiter still waits after 30 s"); std::this_thread::yield(); }
    CHECK(res == 1, "an alerted waiter ended with %d instead of the alert", (int) res);
    c.join();
    CHECK(b->is_alerted(), "alert is not kept");
    b->clear_alert();
    CHECK(!b->is_alerted(), "clear_alert does not clear");
    s->publish(s->next());
    int64_t a = b->wait_for(0);
    CHECK(a == 0, "after clear_alert wait_for(0) returned %lld", (long long) a);
}
// waiting for a sequence further ahead: partial progress must not end the wait
template<class W> void partial(const char *nm, int ahead) {
    drv::kase("%s: waiting %d sequences ahead", nm, ahead);
    typedef single_producer_sequencer<N, W> S;
    auto s = std::make_unique<S>();
    sequence d; std::vector<sequence *> dv{&d};
    auto b = s->new_barrier(); auto b1 = s->new_barrier(dv);
    std::atomic<int64_t> got{-9}, got1{-9};
    auto f = [&](decltype(b) &bb, std::atomic<int64_t> &g) { for (;;) try { g = bb->wait_for(ahead); return; } catch (timeout_exception &) {} };
    std::thread t([&] { f(b, got); }), t1([&] { f(b1, got1); });
    for (int i = 0; i <= ahead; i++) {
        std::this_thread::sleep_for(std::chrono::microseconds(i == 0 ? 4000 : 1500));
        CHECK(got == -9 && got1 == -9, "wait_for(%d) returned %lld/%lld with only %d published", ahead, (long long) got, (long long) got1, i - 1);
        s->publish(s->next());
    }
    std::this_thread::sleep_for(std::chrono::microseconds(500));
    for (int i = 0; i <= ahead; i++) { CHECK(got1 == -9, "wait_for(%d) returned %lld with the dependent at %d", ahead, (long long) got1, i - 1); d.set(i); std::this_thread::sleep_for(std::chrono::microseconds(300)); }
    t.join(); t1.join();
    CHECK(got == ahead && got1 == ahead, "wait_for(%d) returned %lld/%lld", ahead, (long long) got, (long long) got1);
}
template<int64_t T> void timeouts() {
    drv::kase("timeout strategy %lld ns", (long long) T);
    single_producer_sequencer<N, timeout_blocking_wait_strategy<T>> s;
    auto b = s.new_barrier();
    int64_t t = mono();
    try { int64_t a = b->wait_for(0); drv::fail("wait without an event returned %lld", (long long) a); } catch (timeout_exception &) {}
    CHECK(mono() - t >= T * 9 / 10, "timed out after %lld ns instead of %lld", (long long) (mono() - t), (long long) T);
    s.publish(s.next());
    try { CHECK(b->wait_for(0) == 0, "published event not returned"); } catch (timeout_exception &) { drv::fail("timeout although the event was published"); }
}
static void gap() {
    drv::kase("barrier over a multi producer sequencer with a gap");
    multi_producer_sequencer<N, busy_spin_wait_strategy> s;
    auto b = s.new_barrier();
    for (int i = 0; i < 6; i++) s.next();
    s.publish(0); s.publish(1); s.publish(3);
    CHECK(b->wait_for(0) == 1, "handed out %lld although 2 is not published", (long long) b->wait_for(0));
    CHECK(b->wait_for(2) == 1, "handed out %lld although 2 is not published", (long long) b->wait_for(2));
    s.publish(2);
    CHECK(b->wait_for(2) == 3, "4 is not published, got %lld", (long long) b->wait_for(2));
}
#define ALL(X, ...) \
    X<blocking_wait_strategy>("blocking", ##__VA_ARGS__); X<lite_blocking_wait_strategy>("lite", ##__VA_ARGS__); \
    X<busy_spin_wait_strategy>("busy", ##__VA_ARGS__); X<sleeping_wait_strategy<>>("sleeping", ##__VA_ARGS__); \
    X<yielding_wait_strategy<>>("yielding", ##__VA_ARGS__); X<timeout_blocking_wait_strategy<2000000>>("timeout", ##__VA_ARGS__); \
    X<phased_backoff_wait_strategy<1000, 2000, blocking_wait_strategy>>("phased", ##__VA_ARGS__);
int main() {
    drv::init();
    gap();
    timeouts<5000000>(); timeouts<50000000>();
    do {
        ALL(alerts, 0) ALL(alerts, 1)
        ALL(partial, 1) ALL(partial, 3)
        ALL(behind, 1, 300, 300) ALL(behind, 3, 300, 50)
        pingpong<lite_blocking_wait_strategy>("lite", 15000);
        pingpong<blocking_wait_strategy>("blocking", 5000);
        pingpong<phased_backoff_wait_strategy<0, 1, blocking_wait_strategy>>("phased", 2000);
        pingpong<timeout_blocking_wait_strategy<2000000000>>("timeout", 2000);
    } while (drv::more());
    return drv::done();
}
