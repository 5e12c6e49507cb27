// Sequencers: claims are exact, contiguous, never overrun the slowest consumer; availability is per lap.
// TSeq is the code's own template parameter: it lets the driver inject interference at every atomic step.
#include "common.h"
#include <stdexcept>
#include <functional>
#include <thread>
#include <atomic>
#include <memory>
#include <klepsydra/high_performance/disruptor4cpp/single_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/wait_strategies/busy_spin_wait_strategy.h>
using namespace disruptor4cpp;
struct Spin {};
static std::function<void(const void *, int)> hook;  // (object, 0 get / 1 set / 2 cas)
static bool inhook = false;
static void fire(const void *o, int k) { if (hook && !inhook) { inhook = true; try { hook(o, k); } catch (...) { inhook = false; throw; } inhook = false; } }
struct TSeq {
    static constexpr int64_t INITIAL_VALUE = -1;
    mutable std::atomic<int64_t> v{-1};
    TSeq() {}
    explicit TSeq(int64_t x) : v(x) {}
    int64_t get() const { fire(this, 0); return v; }
    void set(int64_t x) { fire(this, 1); v = x; }
    bool compare_and_set(int64_t e, int64_t n) { fire(this, 2); return v.compare_exchange_strong(e, n); }
    int64_t increment_and_get() { return add_and_get(1); }
    int64_t add_and_get(int64_t i) { fire(this, 3); return v += i; }
};
static drv::Rng R(drv::seed());
static std::vector<int64_t> H;
static int64_t base() {
    static const int64_t b[] = {-1, 0, 5, 100, (1LL << 31) - 20, (1LL << 31) + 7, (1LL << 32) - 9, (1LL << 32) + 3, (1LL << 35) + 1, (1LL << 40) - 5, (1LL << 61)};
    if (!H.empty() && R.chance(25)) { int64_t h = H[R.below(H.size())]; if (h >= -1 && h < (1LL << 61)) return h; }
    if (R.chance(30)) return R.range(-1, 40);
    return b[R.below(sizeof b / sizeof *b)] + (R.chance(30) ? R.range(0, 40) : 0);
}
template<class S> struct IsMulti { static const bool v = false; };
template<std::size_t N, class W, class Q> struct IsMulti<multi_producer_sequencer<N, W, Q>> { static const bool v = true; };

template<class S, int N> void run(const char *nm) {
    int64_t b = base();
    int ng = R.chance(15) ? 0 : (int) R.range(1, 5);
    std::vector<std::unique_ptr<TSeq>> g;
    std::vector<TSeq *> gp;
    auto s = std::make_unique<S>();
    hook = nullptr;
    if (b >= 0) {
        s->claim(b);
        if (!IsMulti<S>::v) s->publish(b);
    }
    for (int i = 0; i < ng; i++) { g.emplace_back(new TSeq(12345)); gp.push_back(g.back().get()); }
    size_t split = R.below(ng + 1);
    s->add_gating_sequences(std::vector<TSeq *>(gp.begin(), gp.begin() + split));
    s->add_gating_sequences(std::vector<TSeq *>(gp.begin() + split, gp.end()));
    drv::kase("%s<%d> start=%lld consumers=%d", nm, N, (long long) b, ng);
    for (auto q : gp) CHECK(q->v == b, "add_gating_sequences must start a consumer at the cursor (%lld, got %lld)", (long long) b, (long long) q->v.load());
    int64_t claimed = b;  // reference
    auto mn = [&] { int64_t m = claimed; for (auto q : gp) if (q->v < m) m = q->v; return m; };
    std::string log;
    int64_t other = 0;
    for (int step = 0; step < 40; step++) {
        int n = R.chance(8) ? (int) R.range(-3, 0) : R.chance(10) ? (int) R.range(N - 1, N + 3) : (int) R.range(1, N / 2 + 1);
        if (!H.empty() && R.chance(5)) n = (int) H[R.below(H.size())];
        int op = R.chance(4) ? 7 : (int) R.below(7);
        bool interfere = R.chance(35);
        int fuel = (int) R.range(1, 6);
        int mode = (int) R.below(2);
        hook = nullptr;
        int64_t stolen = 0;
        if (interfere) hook = [&](const void *, int) {
            // other threads: consumers advance; (multi) another producer claims
            if (fuel-- <= 0) return;
            if (mode == 0) { if (!gp.empty()) { auto q = gp[R.below(gp.size())]; int64_t lim = claimed; if (q->v < lim) q->v = q->v + R.range(1, lim - q->v); } }
            else if (IsMulti<S>::v) {
                int64_t k = R.range(1, 2);
                if (claimed + k - N <= mn()) { try { int64_t r = s->try_next((int) k); CHECK(r == claimed + k, "interfering producer got %lld after %lld+%lld", (long long) r, (long long) claimed, (long long) k); claimed = r; stolen += k; } catch (insufficient_capacity_exception &) { drv::fail("spurious insufficient capacity for the interfering producer"); } }
            }
        };
        char t[96]; snprintf(t, sizeof t, " %d(%d)%s", op, n, interfere ? (mode ? "p" : "c") : ""); log += t;
        drv::kase("%s<%d> start=%lld consumers=%d ops:%s", nm, N, (long long) b, ng, log.c_str());
        int64_t before = claimed, mnb = mn();
        if (op == 0 || op == 1) {
            bool one = op == 1 && R.chance(50);
            int m = one ? 1 : n;
            try {
                int64_t r = one ? s->try_next() : s->try_next(m);
                hook = nullptr;
                CHECK(m >= 1, "try_next(%d) accepted", m);
                CHECK(r == claimed + m, "try_next(%d) returned %lld, previous claim %lld", m, (long long) r, (long long) claimed);
                claimed = r;
                CHECK(m <= N, "try_next(%d) on a %d-slot buffer", m, N);
                for (auto q : gp) CHECK(r - N <= q->v, "try_next overran a consumer at %lld: claimed up to %lld of a %d-slot buffer", (long long) q->v.load(), (long long) r, N);
            } catch (std::invalid_argument &) { hook = nullptr; CHECK(m < 1, "try_next(%d) rejected as invalid", m); }
            catch (insufficient_capacity_exception &) { hook = nullptr; CHECK(m >= 1, "n<1 reported as insufficient capacity"); CHECK(!(m <= N && claimed + m - N <= mnb), "try_next(%d) denied with free slots (claimed %lld, slowest %lld)", m, (long long) claimed, (long long) mnb); }
        } else if (op == 2) {
            if (n > N) n = N;
            int spins = 0;
            auto inner = hook;
            if (n >= 1) hook = [&](const void *o, int k) {
                if (inner) inner(o, k);
                if (++spins > 400) { int64_t want = claimed + n - N; if (want > mn()) { for (auto q : gp) if (q->v < want) { q->v = q->v + 1; break; } } if (spins > 20000) drv::fail("next(%d) never returns although capacity is free", n); }
            };
            try {
                bool one = n == 1 && R.chance(50);
                int64_t r = one ? s->next() : s->next(n);
                hook = nullptr;
                CHECK(n >= 1, "next(%d) accepted", n);
                CHECK(r == claimed + n, "next(%d) returned %lld, previous claim %lld", n, (long long) r, (long long) claimed);
                claimed = r;
                for (auto q : gp) CHECK(r - N <= q->v, "next overran a consumer at %lld: claimed up to %lld of a %d-slot buffer", (long long) q->v.load(), (long long) r, N);
            } catch (std::invalid_argument &) { hook = nullptr; CHECK(n < 1, "next(%d) rejected as invalid", n); }
        } else if (op == 3) {
            bool r = s->has_available_capacity(n);
            hook = nullptr;
            if (n >= 1 && r) { CHECK(n <= N, "capacity for %d slots of a %d-slot buffer", n, N); for (auto q : gp) CHECK(claimed - stolen + n - N <= q->v, "capacity reported that would overrun a consumer"); }
            if (n >= 1 && !r) CHECK(!(n <= N && claimed + n - N <= mnb), "capacity denied with free slots");
        } else if (op == 4) {
            hook = nullptr;
            int64_t r = s->remaining_capacity();
            CHECK(r == N - (claimed - mn()), "remaining_capacity %lld, expected %lld", (long long) r, (long long) (N - (claimed - mn())));
            int64_t m2 = s->get_minimum_sequence(), e = INT64_MAX; for (auto q : gp) if (q->v < e) e = q->v;
            CHECK(m2 == e, "get_minimum_sequence %lld, expected %lld", (long long) m2, (long long) e);
            CHECK(s->get_buffer_size() == N, "buffer size");
        } else if (op == 5) {
            hook = nullptr;
            if (!gp.empty()) { auto q = gp[R.below(gp.size())]; if (q->v < claimed) q->v = q->v + R.range(1, claimed - q->v); }
        } else if (op == 7) {
            hook = nullptr;
            TSeq stranger;
            if (gp.empty() || R.chance(30)) CHECK(!s->remove_gating_sequence(stranger), "remove_gating_sequence of a consumer that was never registered reported a removal");
            else {
                size_t i = R.below(gp.size()); TSeq *q = gp[i];
                CHECK(s->remove_gating_sequence(*q), "remove_gating_sequence of a registered consumer reported no removal");
                gp.erase(gp.begin() + i);
                CHECK(!s->remove_gating_sequence(*q), "a consumer was still registered after its removal");
            }
            int64_t m2 = s->get_minimum_sequence(), e = INT64_MAX; for (auto q : gp) if (q->v < e) e = q->v;
            CHECK(m2 == e, "after a removal get_minimum_sequence is %lld, expected %lld", (long long) m2, (long long) e);
        } else {
            hook = nullptr;
            if (IsMulti<S>::v) CHECK(s->get_cursor() == claimed, "cursor %lld, claimed %lld", (long long) s->get_cursor(), (long long) claimed);
        }
        hook = nullptr;
    }
}
#ifndef ONLY_AVAIL
static void stress() {
    // real threads, real sequences: unique contiguous claims, no overrun
    const int N = 8, P = 3, E = 3000;
    auto s = std::make_unique<multi_producer_sequencer<N, busy_spin_wait_strategy>>();
    sequence c; s->add_gating_sequences({&c});
    drv::kase("stress multi producer");
    std::vector<std::atomic<int>> seen(P * E * 2 + 64);
    std::atomic<int64_t> top{-1};
    std::atomic<bool> bad{false};
    static int slotv[N];
    std::vector<std::thread> ts;
    for (int p = 0; p < P; p++) ts.emplace_back([&, p] {
        for (int i = 0; i < E; i++) {
            int n = 1 + (i + p) % 2; int64_t hi;
            if (i % 3) hi = s->next(n);
            else for (;;) { try { hi = s->try_next(n); break; } catch (insufficient_capacity_exception &) { std::this_thread::yield(); } }
            if (hi - N > c.get()) bad = true;
            for (int64_t q = hi - n + 1; q <= hi; q++) { if (seen[q]++) bad = true; slotv[q % N] = (int) q; }
            s->publish(hi - n + 1, hi);
        } });
    int64_t want = 0, total = 0; for (int p = 0; p < P; p++) for (int i = 0; i < E; i++) total += 1 + (i + p) % 2;
    int64_t nx = 0; double t = drv::elapsed();
    while (nx < total) {
        int64_t h = s->get_highest_published_sequence(nx, s->get_cursor());
        if (h >= nx) t = drv::elapsed(); else { if (drv::elapsed() - t > 30) drv::fail("stress: event %lld never becomes available", (long long) nx); std::this_thread::yield(); }
        for (; nx <= h; nx++) if (slotv[nx % N] != (int) nx) drv::fail("consumer read a stale slot at %lld", (long long) nx);
        c.set(nx - 1);
    }
    for (auto &x : ts) x.join();
    CHECK(!bad, "two producers claimed the same slot or overran the consumer");
    (void) want;
}
#endif
template<int N> void avail() {
    auto s = std::make_unique<multi_producer_sequencer<N, busy_spin_wait_strategy>>();
    // a never published slot carries the lap number 2^32-1: stay below 2^31 laps
    int64_t b = base(); if (b < 0) b = 0; b %= (int64_t(N) << 31) - 64 * N;
    drv::kase("availability<%d> fresh", N);
    for (int i = 0; i < 4 * N; i++) CHECK(!s->is_available(i), "sequence %d available before anything was published", i);
    std::vector<int64_t> last(N, -1);
    std::string log; char t[96];
    int64_t pos = b;
    for (int step = 0; step < 30; step++) {
        int64_t v = pos + R.range(0, 2 * N);
        if (R.chance(60)) { snprintf(t, sizeof t, " p%lld", (long long) v); log += t; drv::kase("availability<%d>%s", N, log.c_str()); s->publish(v); last[v % N] = v; }
        else { int64_t hi = v + R.range(0, N - 1); snprintf(t, sizeof t, " p%lld-%lld", (long long) v, (long long) hi); log += t; drv::kase("availability<%d>%s", N, log.c_str()); s->publish(v, hi); for (int64_t q = v; q <= hi; q++) last[q % N] = q; }
        if (R.chance(40)) pos += R.range(0, N);
        for (int64_t q = std::max<int64_t>(0, pos - 2 * N); q < pos + 5 * N; q++) CHECK(s->is_available(q) == (last[q % N] == q), "is_available(%lld)=%d", (long long) q, s->is_available(q));
        int64_t lo = pos + R.range(0, N), av = lo + R.range(-1, 2 * N);
        int64_t h = s->get_highest_published_sequence(lo, av), e = lo - 1;
        if (av < lo) e = av; else while (e < av && last[(e + 1) % N] == e + 1) e++;
        CHECK(h == e, "get_highest_published_sequence(%lld,%lld)=%lld expected %lld", (long long) lo, (long long) av, (long long) h, (long long) e);
    }
    single_producer_sequencer<N, busy_spin_wait_strategy> sp;
    int64_t c = base(); if (c < 0) c = 0; sp.claim(c);
    drv::kase("single publish %lld", (long long) c);
    CHECK(!sp.is_available(0), "available before publish");
    if (R.chance(50)) sp.publish(c); else sp.publish(c > 3 ? c - 3 : 0, c);
    CHECK(sp.get_cursor() == c, "cursor after publish"); CHECK(sp.is_available(c) && !sp.is_available(c + 1), "single producer availability");
    CHECK(sp.get_highest_published_sequence(c - 1, c) == c, "single producer highest");
}
int main() {
    drv::init(); H = drv::hints();
#ifndef ONLY_AVAIL
    int k = 0;
    do {
        run<single_producer_sequencer<8, busy_spin_wait_strategy, TSeq>, 8>("single");
        run<multi_producer_sequencer<8, busy_spin_wait_strategy, TSeq>, 8>("multi");
        run<single_producer_sequencer<2, busy_spin_wait_strategy, TSeq>, 2>("single");
        run<multi_producer_sequencer<4, busy_spin_wait_strategy, TSeq>, 4>("multi");
        run<single_producer_sequencer<64, busy_spin_wait_strategy, TSeq>, 64>("single");
        run<multi_producer_sequencer<64, busy_spin_wait_strategy, TSeq>, 64>("multi");
        if (k++ == 20) stress();
    } while (drv::more());
#else
    do { avail<8>(); avail<2>(); avail<4>(); avail<64>(); } while (drv::more());
#endif
    return drv::done();
}
