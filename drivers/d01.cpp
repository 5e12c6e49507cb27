// Lock free stack: sequential histories against a LIFO model; concurrent histories with per-element ownership checks.
#include "common.h"
#include <functional>
#include <atomic>
#include <thread>
#include <memory>
#include <set>
#include <klepsydra/core/lock_free_stack.h>
static drv::Rng R(drv::seed());

static void sequential(size_t cap, int ops, bool init) {
    drv::kase("sequential history, capacity %zu, %d operations%s", cap, ops, init ? ", initialised" : "");
    long next = 0;
    std::function<void(long &)> f;
    if (init) f = [&](long &x) { x = next++; };
    kpsr::LockFreeStack<long> st(cap, f);
    if (init) CHECK((size_t) next == cap, "initialiser called %ld times for %zu elements", next, cap);
    if (!init) next = (long) cap;
    std::set<long> fresh; for (size_t i = 0; i < cap; i++) fresh.insert(init ? (long) i : 0);
    size_t nfresh = cap; std::vector<long> lifo;
    auto pop = [&] {
        long v = -77; bool r = st.pop(v);
        size_t n = nfresh + lifo.size();
        CHECK(r == (n > 0), "pop returned %d with %zu elements available", (int) r, n);
        if (!r) { CHECK(v == -77, "failed pop wrote its output"); return; }
        if (!lifo.empty()) { CHECK(v == lifo.back(), "pop returned %ld, top was %ld", v, lifo.back()); lifo.pop_back(); }
        else { CHECK(fresh.count(v), "pop returned %ld which is not an initial element still inside", v); if (init) fresh.erase(v); nfresh--; }
    };
    auto push = [&] {
        long v = next++; bool r = st.push(v);
        CHECK(r == (nfresh + lifo.size() < cap), "push returned %d with %zu of %zu elements inside", (int) r, nfresh + lifo.size(), cap);
        if (r) lifo.push_back(v);
    };
    if (ops < 0) { for (size_t i = 0; i <= cap; i++) pop(); for (size_t i = 0; i <= cap; i++) push(); for (size_t i = 0; i <= cap; i++) pop(); return; }
    int bias = (int) R.below(101);
    for (int i = 0; i < ops; i++) { if (R.chance(2)) bias = (int) R.below(101); if (R.chance(bias)) push(); else pop(); }
}

struct Slow {  // an element whose assignment can be descheduled
    long v = 0;
    Slow() {}
    Slow(const Slow &o) : v(o.v) {}
    static void pause() { thread_local drv::Rng r(drv::seed() + (uint64_t) (uintptr_t) &r); if (r.chance(20)) std::this_thread::yield(); else if (r.chance(2)) usleep(50); }
    Slow &operator=(const Slow &o) { pause(); v = o.v; pause(); return *this; }
};

template<class T> static long &val(T &x);
template<> long &val<long>(long &x) { return x; }
template<> long &val<Slow>(Slow &x) { return x.v; }

template<class T> static void concurrent(size_t cap, int threads, int ops) {
    drv::kase("concurrent history: capacity %zu, %d threads x %d operations", cap, threads, ops);
    long k = 0;
    kpsr::LockFreeStack<T> st(cap, [&](T &x) { val<T>(x) = k++; });
    std::unique_ptr<std::atomic<int>[]> held(new std::atomic<int>[cap]);
    std::unique_ptr<long[]> payload(new long[cap]());
    for (size_t i = 0; i < cap; i++) held[i] = 0;
    std::vector<std::thread> ts; std::atomic<int> go{0};
    for (int t = 0; t < threads; t++) ts.emplace_back([&, t] {
        drv::Rng r(drv::seed() * 131 + t);
        go++; while (go < threads) std::this_thread::yield();
        std::vector<T> mine;
        for (int i = 0; i < ops; i++) {
            if (r.chance(55)) {
                T e; val<T>(e) = -1;
                if (st.pop(e)) {
                    long v = val<T>(e);
                    if (v < 0 || (size_t) v >= cap) drv::fail("popped %ld which was never pushed", v);
                    if (held[v].exchange(1, std::memory_order_relaxed)) drv::fail("element %ld handed to two threads", v);
                    payload[v]++;
                    mine.push_back(e);
                }
            } else if (!mine.empty()) {
                T e = mine.back(); mine.pop_back();
                long v = val<T>(e);
                payload[v]++;
                held[v].store(0, std::memory_order_relaxed);
                if (!st.push(e)) drv::fail("an element taken from the stack could not be put back");
            }
        }
        for (auto &e : mine) { held[val<T>(e)].store(0, std::memory_order_relaxed); if (!st.push(e)) drv::fail("an element taken from the stack could not be put back"); }
    });
    for (auto &t : ts) t.join();
    T e; size_t n = 0;
    while (n <= cap && st.pop(e)) { long v = val<T>(e); if (held[v].exchange(1)) drv::fail("element %ld is in the stack twice", v); n++; }
    CHECK(n == cap, "%zu elements left of %zu", n, cap);
    for (size_t i = 0; i < cap; i++) { T x; val<T>(x) = (long) i; CHECK(st.push(x), "push refused on a stack with %zu of %zu elements", i, cap); }
    T x; CHECK(!st.push(x), "push accepted on a full stack");
}
int main() {
    drv::init();
#ifndef __SANITIZE_THREAD__
    for (size_t c = 0; c < 6; c++) for (int i = 0; i < 2; i++) sequential(c, -1, i);
    for (size_t c : {255ul, 256ul, 257ul, 32767ul, 32768ul, 65534ul, 65535ul}) sequential(c, -1, true);
    for (size_t c : {65536ul, 65537ul, 131072ul}) {
        drv::kase("capacity %zu", c);
        bool refused = false;
        try { kpsr::LockFreeStack<long> s(c, nullptr); size_t n = 0; long v; while (s.pop(v)) n++; CHECK(n == c, "a stack of capacity %zu holds %zu elements", c, n); } catch (std::exception &) { refused = true; }
        (void) refused;
    }
    sequential(3, 400000, true);  // many laps of the 16-bit tag
#endif
    do {
#ifndef __SANITIZE_THREAD__
        for (int i = 0; i < 50; i++) sequential(R.below(12), 200, R.chance(70));
#endif
        concurrent<long>(1 + R.below(4), 2 + (int) R.below(4), 3000);
        concurrent<Slow>(1 + R.below(4), 2 + (int) R.below(5), 400);
    } while (drv::more());
    return drv::done();
}
