// Bounded driver for the publishers: random histories of publications, deliveries and dropped events against a reference, with the real
// pools, queues and ring buffers; callbacks that fail; concurrent publishers.
#include "common.h"
#include <algorithm>
#include <deque>
#include <memory>
#include <stdexcept>
#include <thread>
#include <unordered_map>
#include <klepsydra/core/event_emitter_publisher.h>
#include <klepsydra/core/safe_event_emitter.h>
#include <klepsydra/mem_core/basic_publisher.h>
#include <klepsydra/mem_core/concurrent_queue_publisher.h>
#include <klepsydra/high_performance/event_loop_publisher.h>
#include <klepsydra/high_performance/data_multiplexer_publisher.h>
#include <spdlog/spdlog.h>
using namespace kpsr;
struct Cont : Container { void attach(SubscriptionStats *) override {} void detach(SubscriptionStats *) override {} };
static std::atomic<long> live{0}, copies{0};
struct Ev {
    long v = -1; int inits = 0, clones = 0, procs = 0; int magic = 4711;
    Ev() { live++; }
    Ev(const Ev &o) : v(o.v), inits(o.inits), clones(o.clones), procs(o.procs) { live++; copies++; }
    Ev &operator=(const Ev &o) { v = o.v; inits = o.inits; clones = o.clones; procs = o.procs; copies++; return *this; }
    ~Ev() { live--; magic = 0; }
};
typedef std::shared_ptr<const Ev> SP;
typedef std::function<void(Ev &)> FI;
typedef std::function<void(const Ev &, Ev &)> FC;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct TP : ObjectPoolPublisher<Ev> {
    std::deque<SP> &q;
    TP(Container *c, int k, FI i, FC f, std::deque<SP> &q) : ObjectPoolPublisher<Ev>(c, "p", "t", k, i, f), q(q) {}
    using ObjectPoolPublisher<Ev>::internalPublish;
    void internalPublish(SP e) override { q.push_back(e); }
};
static bool boom = false;
static FI init(bool b) { FI f; if (b) f = [](Ev &e) { e.inits++; }; return f; }
static FC clone(bool b) { FC f; if (b) f = [](const Ev &x, Ev &y) { if (boom) { boom = false; throw Boom(); } y.v = x.v + 1000; y.clones = 1; }; return f; }
// what a published event must look like
struct Want { const Ev *same; long v; int clones, procs; };
template<class P> static Want publish(drv::Rng &R, P &p, int how, long v, bool cl, std::vector<SP> &mine, bool &failed) {
    failed = false;
    if (how == 0) {
        Ev e; e.v = v;
        try { p.publish(e); } catch (Boom &) { failed = true; }
        CHECK(e.v == v && e.clones == 0 && e.magic == 4711, "publishing changed the original");
        return {nullptr, cl ? v + 1000 : v, cl, 0};
    }
    if (how == 1) {
        auto s = std::make_shared<Ev>(); s->v = v;
        SP k = s;
        try { p.publish(k); } catch (Boom &) { failed = true; }
        CHECK(s->v == v && s->clones == 0, "publishing changed the original");
        mine.push_back(k);
        return {s.get(), v, 0, 0};
    }
    bool th = boom; boom = false;
    try { p.processAndPublish([&](Ev &e) { e.v = v; e.procs++; e.clones = 0; if (th) throw Boom(); }); } catch (Boom &) { failed = true; }
    return {nullptr, v, 0, 1};
}
static void pools(drv::Rng &R) {
    int k = R.chance(30) ? 0 : 1 + R.below(4); bool in = R.chance(50), cl = R.chance(50);
    drv::kase("pool of %d, initialiser=%d cloner=%d", k, in, cl);
    long base = live;
    {
        Cont c; std::deque<SP> q; std::vector<SP> mine, held;
        auto p = std::make_unique<TP>(&c, k, init(in), clone(cl), q);
        unsigned long alloc = k;
        CHECK(p->publicationStats._totalEventAllocations == alloc, "allocations");
        int n = 1 + R.below(30);
        for (int i = 0; i < n; i++) {
            int how = R.below(3); bool failed; boom = how != 1 && (cl || how == 2) && R.chance(10);
            bool b = boom;
            long was = copies; size_t len = q.size();
            unsigned long before = p->publicationStats._totalEventAllocations;
            Want w = publish(R, *p, how, i, cl, mine, failed);
            boom = false;
            CHECK(failed == b, "publication %d: the failure of a callback was %s", i, failed ? "invented" : "hidden");
            CHECK(q.size() == len + !failed, "publication %d put %zu events into the channel", i, q.size() - len);
            unsigned long fresh = p->publicationStats._totalEventAllocations - before;
            CHECK(fresh <= (how == 1 ? 0u : 1u), "publication %d counted %lu allocations", i, fresh);
            if (failed) continue;
            SP e = q.back(); q.pop_back();
            for (auto &h : held) CHECK(h != e, "publication %d hands out an event somebody still holds", i);
            if (w.same) CHECK(e.get() == w.same, "publication %d copied a shared event", i);
            CHECK(e->v == w.v && e->magic == 4711, "publication %d delivers %ld instead of %ld", i, e->v, w.v);
            CHECK(how != 0 || e->clones == w.clones, "publication %d: cloned %d times", i, e->clones);
            CHECK(how != 2 || !in || e->inits >= 1, "publication %d: not initialised", i);
            CHECK(copies - was == (how == 0 && !cl), "publication %d copied the event %ld times", i, copies - was);
            if (how != 1) held.push_back(e);
            e.reset();
            while (!held.empty() && R.chance(40)) held.erase(held.begin() + R.below(held.size()));
        }
        if (R.chance(50)) p.reset();
        for (auto &h : held) CHECK(h->magic == 4711, "an event was freed while somebody holds it");
        if (R.chance(50)) { held.clear(); }
        p.reset();
        for (auto &h : held) CHECK(h->magic == 4711, "an event was freed with its publisher while somebody holds it");
    }
    CHECK(live == base, "%ld events were leaked", live - base);
}
// the pool serves as long as it has events, and all of them return
static void reuse(drv::Rng &R) {
    int k = 1 + R.below(5); bool in = R.chance(50), cl = R.chance(50);
    drv::kase("pool of %d reused, initialiser=%d cloner=%d", k, in, cl);
    Cont c; std::deque<SP> q; std::vector<SP> mine;
    TP p(&c, k, init(in), clone(cl), q);
    unsigned long want = k; size_t pooled = 0, size = k;
    std::vector<std::pair<SP, bool>> held;
    for (int i = 0; i < 40; i++) {
        bool failed; bool ref = R.chance(50);
        bool hasone = pooled < size;
        publish(R, p, ref ? 0 : 2, i, cl, mine, failed);
        if (!hasone) want++; else pooled++;
        CHECK(p.publicationStats._totalEventAllocations == want, "publication %d with %zu of %zu events of the pool in use: %llu allocations, %lu expected", i, pooled, size, p.publicationStats._totalEventAllocations, want);
        held.push_back({q.back(), hasone}); q.pop_back();
        while (!held.empty() && R.chance(45)) { size_t x = R.below(held.size()); pooled -= held[x].second; held.erase(held.begin() + x); }
    }
}
static void safequeue(drv::Rng &R) {
    int cap = 1 + R.below(5); bool dis = R.chance(60), con = R.chance(70), cl = R.chance(50);
    drv::kase("queue of %d, discards=%d container=%d", cap, dis, con);
    Cont c; mem::SafeQueue<mem::EventData<const Ev>> q(cap); std::vector<SP> mine;
    mem::BasicPublisher<Ev> p(con ? &c : nullptr, "p", R.below(3), nullptr, clone(cl), q, dis);
    std::deque<Want> ref; unsigned long lost = 0, last = 0;
    for (int i = 0; i < 40; i++) {
        if (R.chance(55) && (dis || (int) ref.size() < cap)) {
            bool failed;
            ref.push_back(publish(R, p, R.below(3), i, cl, mine, failed));
            if ((int) ref.size() > cap) { ref.pop_front(); lost++; }
        } else if (!ref.empty()) {
            mem::EventData<const Ev> d;
            CHECK(q.try_pop(d), "an event is missing from the queue");
            Want w = ref.front(); ref.pop_front();
            CHECK(d.eventData && d.eventData->v == w.v && (!w.same || d.eventData.get() == w.same), "the queue delivers %ld instead of %ld", d.eventData ? d.eventData->v : -1L, w.v);
            CHECK(con ? d.enqueuedTimeInNs >= last && d.enqueuedTimeInNs > 0 : d.enqueuedTimeInNs == 0, "time of publication %llu", d.enqueuedTimeInNs);
            last = d.enqueuedTimeInNs;
        } else {
            mem::EventData<const Ev> d;
            CHECK(!q.try_pop(d), "an event nobody published");
        }
        CHECK(p.publicationStats.totalDiscardedEvents == lost, "%llu events counted as lost, %lu are", p.publicationStats.totalDiscardedEvents, lost);
    }
}
// a waiting publisher loses nothing; a discarding one counts what it loses
static void queued(drv::Rng &R, bool conc) {
    int T = 1 + R.below(3), n = 50 + R.below(200), cap = conc ? 64 : 1 + R.below(6); bool dis = R.chance(50);
    drv::kase("%d publishers of %d events, %s queue of %d, discards=%d", T, n, conc ? "concurrent" : "safe", cap, dis);
    typedef mem::EventData<const Ev> ED;
    mem::SafeQueue<ED> q(cap); moodycamel::ConcurrentQueue<ED> m(cap, T, 0);
    std::vector<std::unique_ptr<moodycamel::ProducerToken>> tok; std::vector<std::unique_ptr<ObjectPoolPublisher<Ev>>> p;
    for (int t = 0; t < T; t++) {
        tok.push_back(std::make_unique<moodycamel::ProducerToken>(m));
        if (conc) p.push_back(std::make_unique<mem::ConcurrentQueuePublisher<Ev>>(nullptr, "p", 0, nullptr, nullptr, m, dis, *tok[t]));
        else p.push_back(std::make_unique<mem::BasicPublisher<Ev>>(nullptr, "p", 0, nullptr, nullptr, q, dis));
    }
    std::atomic<int> done{0}; std::vector<std::thread> th; std::vector<long> last(T, -1); unsigned long got = 0;
    auto pop = [&](ED &d) { return conc ? m.try_dequeue(d) : q.try_pop(d); };
    auto take = [&](ED &d) {
        int t = d.eventData->v / 100000; long i = d.eventData->v % 100000;
        CHECK(t >= 0 && t < T && i > last[t] && i < n, "publisher %d: event %ld after %ld", t, i, last[t]);
        last[t] = i; got++;
    };
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { for (int i = 0; i < n; i++) { Ev e; e.v = t * 100000 + i; p[t]->publish(e); drv::beat(); } done++; });
    while (done < T) { ED d; if (pop(d)) take(d); else std::this_thread::yield(); }
    for (auto &x : th) x.join();
    for (ED d; pop(d);) take(d);
    unsigned long lost = 0;
    for (auto &x : p) lost += x->publicationStats.totalDiscardedEvents;
    CHECK(got + lost == (unsigned long) T * n, "%lu events arrived and %lu are counted as lost, of %d", got, lost, T * n);
    CHECK(dis || lost == 0, "a waiting publisher lost %lu events", lost);
}
static void emitter(drv::Rng &R) {
    drv::kase("emitter");
    auto se = std::make_shared<SafeEventEmitter<SP>>();
    std::shared_ptr<EventEmitterInterface<SP>> em = se;
    bool cl = R.chance(50);
    EventEmitterPublisher<Ev> p(nullptr, "name", em, R.below(3), nullptr, clone(cl));
    std::vector<SP> got, mine; int other = 0;
    em->on(nullptr, "l", "name", [&](const SP &e) { got.push_back(e); });
    em->on(nullptr, "o", "other", [&](const SP &) { other++; });
    for (int i = 0; i < 10; i++) {
        bool failed; Want w = publish(R, p, R.below(3), i, cl, mine, failed);
        CHECK((int) got.size() == i + 1 && got[i]->v == w.v && (!w.same || got[i].get() == w.same), "publication %d was not delivered once and unchanged", i);
    }
    CHECK(other == 0, "an event was emitted under a foreign name");
}
template<class RB> struct Reader {
    RB &r; disruptor4cpp::sequence s; int64_t next = 0;
    explicit Reader(RB &r) : r(r), s(-1) { r.add_gating_sequences({&s}); }
    ~Reader() { r.remove_gating_sequence(s); }
    template<class F> int drain(int max, F f) {
        int n = 0; int64_t c = r.get_cursor();
        for (; next <= c && n < max; next++, n++) { f(r[next], next); s.set(next); }
        return n;
    }
};
template<int N> static void loop(drv::Rng &R) {
    typedef high_performance::EventLoopPublisher<Ev, N> P;
    bool con = R.chance(70), uns = R.chance(50), cl = R.chance(50); int np = 1 + R.below(2);
    drv::kase("event loop of %d, container=%d unsafe=%d, %d publishers", N, con, uns, np);
    long base = live;
    {
        typename P::RingBuffer rb; Reader<typename P::RingBuffer> rd(rb); Cont c; std::vector<SP> mine;
        std::vector<std::unique_ptr<P>> p;
        for (int i = 0; i < np; i++) p.push_back(std::make_unique<P>(con ? &c : nullptr, rb, "loop", "e" + std::to_string(i), R.below(3), nullptr, clone(cl), uns));
        std::deque<std::pair<Want, int>> ref; std::vector<unsigned long> lost(np, 0); unsigned long long last = 0;
        for (int i = 0; i < 60; i++) {
            if (R.chance(60)) {
                int k = R.below(np); bool failed;
                Want w = publish(R, *p[k], R.below(3), i, cl, mine, failed);
                if (ref.size() == N) lost[k]++; else ref.push_back({w, k});
            } else {
                bool keep = R.chance(20);
                int n = rd.drain(1 + R.below(3), [&](high_performance::EventloopDataWrapper &d, int64_t) {
                    CHECK(!ref.empty(), "an event nobody published");
                    auto w = ref.front(); ref.pop_front();
                    auto e = std::static_pointer_cast<const Ev>(d.eventData);
                    CHECK(e && e->v == w.first.v && e->magic == 4711 && (!w.first.same || e.get() == w.first.same), "the event loop delivers %ld instead of %ld", e ? e->v : -1L, w.first.v);
                    CHECK(d.eventName == "e" + std::to_string(w.second), "an event of publisher %d under the name %s", w.second, d.eventName.c_str());
                    CHECK(con ? d.enqueuedTimeInNs >= last && d.enqueuedTimeInNs > 0 : d.enqueuedTimeInNs == 0, "time of publication %llu", d.enqueuedTimeInNs);
                    last = d.enqueuedTimeInNs;
                    if (!keep) d.eventData.reset();
                });
                CHECK(n > 0 || ref.empty(), "published events do not arrive");
            }
            for (int k = 0; k < np; k++) CHECK(p[k]->_discardedMessages == lost[k], "publisher %d counts %llu lost events, %lu are", k, p[k]->_discardedMessages, lost[k]);
        }
    }
    CHECK(live == base, "%ld events were leaked", live - base);
}
template<int N> static void mux(drv::Rng &R) {
    typedef high_performance::DataMultiplexerPublisher<Ev, N> P; typedef high_performance::DataMultiplexerDataWrapper<Ev> W;
    bool con = R.chance(70), cl = R.chance(60), fails = R.chance(50);
    drv::kase("data multiplexer of %d, container=%d cloner=%d, failing callbacks=%d", N, con, cl, fails);
    long base = live;
    {
        typename P::RingBuffer rb; Reader<typename P::RingBuffer> rd(rb); Cont c; std::vector<SP> mine;
        P p(con ? &c : nullptr, "p", clone(cl), rb);
        CHECK(live - base == N, "%ld events in a ring buffer of %d", live - base, N);
        std::deque<Want> ref; unsigned long lost = 0; unsigned long long last = 0;
        for (int i = 0; i < 60; i++) {
            if (R.chance(60)) {
                int how = R.below(3); bool failed; bool full = ref.size() == N;
                boom = fails && !full && (cl || how == 2) && R.chance(20);
                bool b = boom;
                Want w = publish(R, p, how, i, cl, mine, failed);
                boom = false;
                CHECK(failed == b, "publication %d: the failure of a callback was %s", i, failed ? "invented" : "hidden");
                if (how == 1) { w.same = nullptr; w.v = cl ? i + 1000 : i; w.clones = cl; }
                if (full) lost++; else if (!failed) ref.push_back(w);
            } else {
                int n = rd.drain(1 + R.below(3), [&](W &d, int64_t) {
                    CHECK(!ref.empty(), "an event nobody published");
                    auto w = ref.front(); ref.pop_front();
                    CHECK(d.eventData && d.eventData->v == w.v && d.eventData->magic == 4711, "the multiplexer delivers %ld instead of %ld", d.eventData ? d.eventData->v : -1L, w.v);
                    for (auto &m : mine) CHECK(m != d.eventData, "the multiplexer shares an event instead of copying it");
                    CHECK(con ? d.enqueuedTimeInNs >= last && d.enqueuedTimeInNs > 0 : d.enqueuedTimeInNs == 0, "time of publication %llu", d.enqueuedTimeInNs);
                    last = d.enqueuedTimeInNs;
                });
                CHECK(n > 0 || ref.empty(), "published events do not arrive");
            }
            CHECK(p.publicationStats.totalDiscardedEvents == lost, "%llu events counted as lost, %lu are", p.publicationStats.totalDiscardedEvents, lost);
        }
        CHECK(live - base == N + (long) mine.size(), "%ld events alive instead of %d", live - base - (long) mine.size(), N);
    }
    CHECK(live == base, "%ld events were leaked", live - base);
}
// several threads publish into one event loop
static void loops(drv::Rng &R) {
    typedef high_performance::EventLoopPublisher<Ev, 16> P;
    int T = 2 + R.below(2), n = 100 + R.below(300);
    drv::kase("%d threads publish %d events into an event loop", T, n);
    long base = live;
    {
        P::RingBuffer rb; Reader<P::RingBuffer> rd(rb);
        std::vector<std::unique_ptr<P>> p;
        for (int t = 0; t < T; t++) p.push_back(std::make_unique<P>(nullptr, rb, "loop", "e" + std::to_string(t), 4, nullptr, nullptr, false));
        std::atomic<int> done{0}; std::vector<std::thread> th; std::vector<long> last(T, -1); unsigned long got = 0;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] { for (int i = 0; i < n; i++) { Ev e; e.v = t * 100000 + i; p[t]->publish(e); drv::beat(); if (i % 8 == 0) std::this_thread::yield(); } done++; });
        auto take = [&] {
            int64_t hi = rb.get_highest_published_sequence(rd.next, rb.get_cursor());
            for (; rd.next <= hi; rd.next++) {
                auto &d = rb[rd.next];
                auto e = std::static_pointer_cast<const Ev>(d.eventData);
                int t = e ? e->v / 100000 : -1; long i = e ? e->v % 100000 : -1;
                CHECK(t >= 0 && t < T && i > last[t] && i < n, "publisher %d: event %ld", t, i);
                CHECK(d.eventName == "e" + std::to_string(t), "an event of publisher %d under the name %s", t, d.eventName.c_str());
                last[t] = i; got++; d.eventData.reset(); e.reset();
                rd.s.set(rd.next);
            }
        };
        while (done < T) { take(); std::this_thread::yield(); }
        for (auto &x : th) x.join();
        take();
        unsigned long lost = 0;
        for (auto &x : p) lost += x->_discardedMessages;
        CHECK(got + lost == (unsigned long) T * n, "%lu events arrived and %lu are counted as lost, of %d", got, lost, T * n);
    }
    CHECK(live == base, "%ld events were leaked", live - base);
}
int main() {
    drv::init();
    spdlog::set_level(spdlog::level::off);
    drv::Rng R(drv::seed());
    do {
        switch (R.below(12)) {
        case 0: case 1: pools(R); break;
        case 2: reuse(R); break;
        case 3: safequeue(R); break;
        case 4: if (R.chance(20)) queued(R, false); break;
        case 5:
#ifndef __SANITIZE_THREAD__ // moodycamel's queue orders with fences, which the sanitizer does not know
            if (R.chance(20)) queued(R, true);
#endif
            break;
        case 6: emitter(R); break;
        case 7: loop<2>(R); break;
        case 8: loop<8>(R); break;
        case 9: mux<2>(R); break;
        case 10: mux<8>(R); break;
        case 11: if (R.chance(20)) loops(R); break;
        }
    } while (drv::more());
    return drv::done();
}
