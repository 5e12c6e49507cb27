// Bounded driver for the event processors: real threads, halts at random moments, failing handlers, restarts.
#include "common.h"
#include <thread>
#include <atomic>
#include <memory>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
#include <klepsydra/high_performance/disruptor4cpp/batch_event_processor.h>
#include <klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h>
using namespace disruptor4cpp;
static drv::Rng R(drv::seed());
static const int N = 16;
struct Boom : std::exception {};
struct H : event_handler<int64_t> {
    std::vector<int64_t> seen, failed; std::vector<char> eobs; std::atomic<int> starts{0}, stops{0}; int startx = 0, stopx = 0, tmo = 0; int failmod = 0, fatal = -1; bool badstart = false, badstop = false;
    std::atomic<int64_t> last{-1}; std::function<void()> onev;
    void on_start() override { starts++; if (badstart) throw Boom(); }
    void on_shutdown() override { stops++; if (badstop) throw Boom(); }
    void on_event(int64_t &e, int64_t q, bool eob) override {
        if (e != q) drv::fail("event %lld delivered with the content of %lld", (long long) q, (long long) e);
        if (!seen.empty() ? q != seen.back() + 1 : q != first) drv::fail("event %lld delivered after %lld", (long long) q, seen.empty() ? -1LL : (long long) seen.back());
        if (starts != 1 + restarts) drv::fail("event delivered without on_start");
        seen.push_back(q); eobs.push_back(eob); last = q;
        if (onev) onev();
        if (fatal == q) throw 42;
        if (failmod && q % failmod == 0) throw Boom();
    }
    void on_timeout(int64_t q) override { tmo++; if (q != (seen.empty() ? first - 1 : seen.back())) drv::fail("on_timeout(%lld) after event %lld", (long long) q, seen.empty() ? -1LL : (long long) seen.back()); }
    void on_event_exception(const std::exception &, int64_t q, int64_t *e) override {
        if (!e || *e != q) drv::fail("on_event_exception(%lld) with the wrong event", (long long) q);
        if (seen.empty() || q != seen.back()) drv::fail("on_event_exception(%lld) after event %lld", (long long) q, seen.empty() ? -1LL : (long long) seen.back());
        failed.push_back(q);
    }
    void on_start_exception(const std::exception &) override { startx++; }
    void on_shutdown_exception(const std::exception &) override { stopx++; }
    int64_t first = 0; int restarts = 0;
};
template<class W, producer_type PT> void run(const char *nm, int P, int E, int failmod, int halts) {
    drv::kase("%s: %d producers x %d events, every %d-th fails, %d halts", nm, P, E, failmod, halts);
    typedef ring_buffer<int64_t, N, W, PT> RB;
    auto rb = std::make_unique<RB>();
    H h; h.failmod = failmod; h.badstart = failmod == 3; h.badstop = failmod == 3;
    batch_event_processor<RB> bp(*rb, rb->new_barrier(), h);
    std::vector<sequence *> g{&bp.get_sequence()};
    auto nb = rb->new_barrier(g);
    no_op_event_processor<RB> np(*rb, std::move(nb));
    std::vector<sequence *> g2{&np.get_sequence()};
    rb->add_gating_sequences(g2);
    CHECK(bp.get_sequence().get() == -1 && np.get_sequence().get() == -1 && !bp.is_running() && !np.is_running(), "a new processor is not idle");
    const int64_t total = (int64_t) P * E;
    std::atomic<int> ended{0};                       // runs that have returned: a halt or a second run must meet run k, not the tail of run k-1
    std::thread nt([&] { np.run(); });
    std::thread ct([&] {
        for (int k = 0; k <= halts; k++) {
            h.restarts = k; h.first = bp.get_sequence().get() + 1;
            bp.run();
            CHECK(!bp.is_running(), "still marked as running after run returned");
            CHECK(bp.get_sequence().get() == (h.seen.empty() ? -1 : h.seen.back()), "after a halt the progress is %lld but %lld was delivered", (long long) bp.get_sequence().get(), h.seen.empty() ? -1LL : (long long) h.seen.back());
            CHECK(h.stops == k + 1, "on_shutdown was called %d times in %d runs", (int) h.stops, k + 1);
            ended = k + 1;
        }
    });
    std::vector<std::thread> ps;
    for (int p = 0; p < P; p++) ps.emplace_back([&] { for (int i = 0; i < E; i++) { auto q = rb->next(); (*rb)[q] = q; rb->publish(q); } });
    std::atomic<bool> watch{false};
    std::thread w([&] { while (!watch) { int64_t n = np.get_sequence().get(), b = bp.get_sequence().get(), l = h.last; (void) l; CHECK(n <= b, "the follower is at %lld, ahead of its dependency at %lld", (long long) n, (long long) b); std::this_thread::yield(); } });
    for (int k = 0; k < halts; k++) {
        while (ended < k || !bp.is_running()) std::this_thread::yield();
        std::this_thread::sleep_for(std::chrono::microseconds(R.below(400)));
        if (R.chance(30)) { try { bp.run(); drv::fail("a second run was accepted"); } catch (std::runtime_error &) {} }
        int st = h.starts;
        bp.halt();
        double t = drv::elapsed();
        while (h.stops < k + 1) { if (drv::elapsed() - t > 12) drv::fail("run still going 12 s after halt"); std::this_thread::yield(); }
        (void) st;
    }
    for (auto &p : ps) p.join();
    double t = drv::elapsed();
    while (np.get_sequence().get() < total - 1) { if (drv::elapsed() - t > 30) drv::fail("%lld events published, follower stuck at %lld, processor at %lld", (long long) total, (long long) np.get_sequence().get(), (long long) bp.get_sequence().get()); std::this_thread::yield(); }
    while (h.starts < halts + 1 || !np.is_running()) std::this_thread::yield();
    bp.halt(); np.halt();
    t = drv::elapsed();
    while (bp.is_running() || np.is_running()) { if (drv::elapsed() - t > 12) drv::fail("run still going 12 s after the last halt"); std::this_thread::yield(); }
    ct.join(); nt.join(); watch = true; w.join();
    CHECK((int64_t) h.seen.size() == total, "%lld events delivered of %lld", (long long) h.seen.size(), (long long) total);
    CHECK(h.eobs.back(), "the last event was not flagged as the end of a batch");
    int64_t nf = failmod ? (total + failmod - 1) / failmod : 0;
    CHECK((int64_t) h.failed.size() == nf, "%lld failures reported of %lld", (long long) h.failed.size(), (long long) nf);
    CHECK(h.startx == (h.badstart ? halts + 1 : 0) && h.stopx == (h.badstop ? halts + 1 : 0), "start/shutdown failures reported %d/%d", h.startx, h.stopx);
}
static void single() {
    typedef ring_buffer<int64_t, N, busy_spin_wait_strategy, producer_type::single> RB;
    for (int k = 1; k <= N; k++) for (int fm = 0; fm < 3; fm++) {
        drv::kase("batch of %d, failing every %d", k, fm);
        auto rb = std::make_unique<RB>();
        H h; h.failmod = fm;
        batch_event_processor<RB> bp(*rb, rb->new_barrier(), h);
        std::vector<sequence *> g{&bp.get_sequence()};
        rb->add_gating_sequences(g);
        for (int i = 0; i < k; i++) { auto q = rb->next(); (*rb)[q] = q; rb->publish(q); }
        h.onev = [&] {
            CHECK(h.last == 0 || bp.get_sequence().get() < h.last, "progress %lld already covers the event being delivered (%lld)", (long long) bp.get_sequence().get(), (long long) h.last);
            if (h.last == k - 1) bp.halt();
        };
        bp.run();
        CHECK((int) h.seen.size() == k && bp.get_sequence().get() == k - 1, "delivered %zu of %d, progress %lld", h.seen.size(), k, (long long) bp.get_sequence().get());
        for (int i = 0; i < k; i++) if (!fm) CHECK(h.eobs[i] == (i == k - 1), "event %d of a batch of %d: end of batch is %d", i, k, h.eobs[i]);
    }
    {
        drv::kase("fatal exception");
        auto rb = std::make_unique<RB>();
        H h; h.fatal = 2;
        batch_event_processor<RB> bp(*rb, rb->new_barrier(), h);
        std::vector<sequence *> g{&bp.get_sequence()};
        rb->add_gating_sequences(g);
        for (int i = 0; i < 5; i++) { auto q = rb->next(); (*rb)[q] = q; rb->publish(q); }
        try { bp.run(); drv::fail("fatal exception swallowed"); } catch (int) {}
        CHECK(!bp.is_running() && h.stops == 1 && h.seen.size() == 3 && bp.get_sequence().get() <= 2, "after a fatal exception: running %d stops %d progress %lld", bp.is_running(), (int) h.stops, (long long) bp.get_sequence().get());
    }
    {
        drv::kase("timeouts");
        typedef ring_buffer<int64_t, N, timeout_blocking_wait_strategy<3000000>, producer_type::single> RT;
        auto rb = std::make_unique<RT>();
        H h;
        batch_event_processor<RT> bp(*rb, rb->new_barrier(), h);
        std::vector<sequence *> g{&bp.get_sequence()};
        rb->add_gating_sequences(g);
        std::thread t([&] { bp.run(); });
        for (int i = 0; i < 3; i++) { auto q = rb->next(); (*rb)[q] = q; rb->publish(q); std::this_thread::sleep_for(std::chrono::milliseconds(15)); }
        bp.halt(); t.join();
        CHECK(h.tmo > 0 && h.seen.size() == 3, "timeouts %d, events %zu", h.tmo, h.seen.size());
    }
}
static void haltstart() {
    typedef ring_buffer<int64_t, N, blocking_wait_strategy, producer_type::single> RB;
    drv::kase("halt as soon as the processor is running");
    auto rb = std::make_unique<RB>();
    H h;
    batch_event_processor<RB> bp(*rb, rb->new_barrier(), h);
    std::thread t([&] { bp.run(); });
    unsigned n = 0;
    while (!bp.is_running());
    for (volatile int k = R.below(60); k > 0; k--);
    bp.halt();
    t.join();
}
int main() {
    drv::init();
    spdlog::set_level(spdlog::level::off);
    single();
    do {
        for (int i = 0; i < 20; i++) haltstart();
        run<blocking_wait_strategy, producer_type::single>("blocking/single", 1, 2000, R.chance(50) ? 3 : 0, 0);
        run<blocking_wait_strategy, producer_type::multi>("blocking/multi", 3, 700, R.chance(50) ? 7 : 0, (int) R.below(4));
        run<yielding_wait_strategy<>, producer_type::multi>("yielding/multi", 2, 700, R.chance(50) ? 3 : 0, (int) R.below(4));
        run<lite_blocking_wait_strategy, producer_type::single>("lite/single", 1, 1500, R.chance(50) ? 5 : 0, (int) R.below(4));
        run<timeout_blocking_wait_strategy<2000000>, producer_type::multi>("timeout/multi", 2, 500, 0, (int) R.below(3));
    } while (drv::more());
    return drv::done();
}
