// ThreadSanitizer run of the sequencers' hand-off: a producer writes a plain payload slot, publishes; the consumer
// reads it after it became available; the slot is rewritten only after the consumer moved on.
#include "common.h"
#include <thread>
#include <atomic>
#include <memory>
#include <klepsydra/high_performance/disruptor4cpp/single_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/wait_strategies/busy_spin_wait_strategy.h>
using namespace disruptor4cpp;
static drv::Rng R(drv::seed());
static const int N = 8;
static int64_t slot_[N];
template<class S, bool MULTI> void round(const char *nm, int P, int E, int C, bool tryn) {
    drv::kase("%s hand-off: %d producers x %d events, %d consumers, %s", nm, P, E, C, tryn ? "try_next" : "next");
    auto s = std::make_unique<S>();
    std::vector<std::unique_ptr<sequence>> cs; std::vector<sequence *> cp;
    for (int i = 0; i < C; i++) { cs.emplace_back(new sequence); cp.push_back(cs.back().get()); }
    s->add_gating_sequences(cp);
    std::vector<std::thread> ts;
    int64_t total = (int64_t) P * E * 2;
    for (int p = 0; p < P; p++) ts.emplace_back([&] {
        for (int i = 0; i < E; i++) {
            int64_t hi;
            if (!tryn) hi = s->next(2);
            else for (;;) { if (i % 2 && !s->has_available_capacity(2)) { std::this_thread::yield(); continue; } try { hi = s->try_next(2); break; } catch (insufficient_capacity_exception &) { std::this_thread::yield(); } }
            slot_[(hi - 1) % N] = hi - 1; slot_[hi % N] = hi;
            if (i % 3 == 0 && MULTI) { s->publish(hi - 1); s->publish(hi); } else s->publish(hi - 1, hi);
        }
    });
    for (int c = 0; c < C; c++) ts.emplace_back([&, c] {
        int64_t nx = 0; double t = drv::elapsed();
        while (nx < total) {
            int64_t h = nx - 1;
            if (c % 2) { if (s->is_available(nx)) h = nx; }
            else { int64_t cur = s->get_cursor(); if (cur >= nx) h = s->get_highest_published_sequence(nx, cur); }
            if (h < nx) { if (drv::elapsed() - t > 30) drv::fail("event %lld never becomes available", (long long) nx); std::this_thread::yield(); continue; }
            t = drv::elapsed();
            for (; nx <= h; nx++) if (slot_[nx % N] != nx) drv::fail("consumer %d read a stale slot at %lld", c, (long long) nx);
            cs[c]->set(nx - 1);
        }
    });
    for (auto &x : ts) x.join();
}
int main() {
    drv::init();
    do {
        round<single_producer_sequencer<N, busy_spin_wait_strategy>, false>("single", 1, 60, 2, R.chance(50));
        round<multi_producer_sequencer<N, busy_spin_wait_strategy>, true>("multi", 2, 40, 2, R.chance(50));
    } while (drv::more());
    return drv::done();
}
