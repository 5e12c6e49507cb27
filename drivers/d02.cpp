// Smart object pool: random single-threaded histories (handles moved, reset, outliving the pool) and concurrent ones.
#include "common.h"
#include <functional>
#include <atomic>
#include <thread>
#include <memory>
#include <map>
#include <klepsydra/core/smart_object_pool.h>
static drv::Rng R(drv::seed());
static std::atomic<int> live{0}, freed{0};
struct Obj { std::atomic<int> user{0}; int id = -1, inits = 0, fins = 0; long payload = 0; Obj() { live++; } ~Obj() { live--; } };
struct Del { static std::map<Obj *, int> *dead; void operator()(Obj *p) const { freed++; delete p; } };
typedef kpsr::SmartObjectPool<Obj, Del> Pool;

static void sequential(int size, bool init, bool fin) {
    drv::kase("sequential: pool of %d, init %d, finaliser %d", size, init, fin);
    int made = 0, fins = 0; freed = 0; int live0 = live;
    std::function<void(Obj &)> i, f;
    if (init) i = [&](Obj &o) { o.id = made++; o.inits++; };
    if (fin) f = [&](Obj &o) { CHECK(o.fins++ == 0, "object finalised twice"); fins++; };
    auto pool = std::make_unique<Pool>("pool", size, i, f);
    CHECK(live - live0 == size, "%d objects created for a pool of %d", live - live0, size);
    if (init) CHECK(made == size, "initialiser ran %d times", made);
    std::vector<Pool::ptr_type> held; std::map<Obj *, bool> out; long fails = 0;
    for (int k = 0; k < 120; k++) {
        int op = (int) R.below(10);
        if (op < 5) {
            try {
                auto h = pool->acquire();
                CHECK((int) held.size() < size, "acquired %zu objects from a pool of %d", held.size() + 1, size);
                CHECK(h, "acquire returned an empty handle");
                CHECK(!out[h.get()], "the same object was handed out twice");
                if (init) CHECK(h->inits == 1, "object initialised %d times", h->inits);
                CHECK(h->fins == 0, "object handed out after it was finalised");
                out[h.get()] = true; held.push_back(std::move(h));
            } catch (std::out_of_range &) { fails++; CHECK((int) held.size() == size, "acquire failed with %zu of %d objects out", held.size(), size); }
        } else if (!held.empty()) {
            size_t j = R.below(held.size());
            if (op == 5) { Pool::ptr_type t = std::move(held[j]); CHECK(!held[j], "moved-from handle still holds"); held[j] = std::move(t); continue; }
            if (op == 6) { std::shared_ptr<Obj> sp = std::move(held[j]); out[sp.get()] = false; sp.reset(); }
            else { out[held[j].get()] = false; held[j].reset(); }
            held.erase(held.begin() + j);
        }
        CHECK(freed == 0, "an object was freed while its pool is alive");
    }
    CHECK(pool->objectPoolFails == fails, "%ld failed acquisitions counted as %ld", fails, (long) pool->objectPoolFails);
    int inside = size - (int) held.size();
    pool.reset();
    CHECK(freed == inside, "destroying the pool freed %d objects, %d were inside", (int) freed, inside);
    if (fin) CHECK(fins == inside, "%d objects finalised, %d were inside", fins, inside);
    for (auto &h : held) { h->payload = 1; h.reset(); }
    CHECK(freed == size && live == live0, "%d of %d objects freed in the end", (int) freed, size);
}
static void concurrent(int size, int threads, int ops) {
    drv::kase("concurrent: pool of %d, %d threads x %d", size, threads, ops);
    freed = 0;
    {
        Pool pool("pool", size);
        std::atomic<long> fails{0}; std::atomic<int> go{0};
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; t++) ts.emplace_back([&, t] {
            drv::Rng r(drv::seed() * 77 + t); go++; while (go < threads) std::this_thread::yield();
            std::vector<Pool::ptr_type> mine;
            for (int i = 0; i < ops; i++) {
                if (r.chance(55)) {
                    try { auto h = pool.acquire(); if (h->user.exchange(t + 1, std::memory_order_relaxed)) drv::fail("an object has two holders"); h->payload++; mine.push_back(std::move(h)); }
                    catch (std::out_of_range &) { fails.fetch_add(1, std::memory_order_relaxed); }
                } else if (!mine.empty()) { mine.back()->payload++; mine.back()->user.store(0, std::memory_order_relaxed); mine.pop_back(); }
                if (r.chance(5)) std::this_thread::yield();
            }
            for (auto &m : mine) m->user.store(0, std::memory_order_relaxed);
        });
        for (auto &t : ts) t.join();
        CHECK(pool.objectPoolFails == fails, "%ld failed acquisitions counted as %ld", (long) fails, (long) pool.objectPoolFails);
        CHECK(freed == 0, "%d objects freed while their pool is alive", (int) freed);
        std::vector<Pool::ptr_type> all;
        for (int i = 0; i < size; i++) try { all.push_back(pool.acquire()); } catch (std::out_of_range &) { drv::fail("only %d of %d objects came back", i, size); }
    }
    CHECK(freed == size, "%d of %d objects freed", (int) freed, size);
}
int main() {
    drv::init();
    do {
#ifndef __SANITIZE_THREAD__
        for (int i = 0; i < 40; i++) sequential((int) R.below(7), R.chance(50), R.chance(50));
#endif
        concurrent(1 + (int) R.below(5), 2 + (int) R.below(4), 1500);
    } while (drv::more());
    return drv::done();
}
