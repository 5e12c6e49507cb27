// Bounded driver for the blocking queue: random histories against an oracle, with the other threads' operations
// injected (deterministically) while the operation under test sleeps; then real threads.
#include "common.h"
#include <sys/types.h>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
#include <atomic>
#include <memory>
#include <functional>
#include <deque>
#include <klepsydra/mem_core/safe_queue.h>
using namespace kpsr::mem;
static drv::Rng R(drv::seed());
// ---- sleeping is simulated in the single-threaded part
static bool sim = false;
static std::function<int(pthread_cond_t *, bool, long)> onsleep; // 0 = woken, ETIMEDOUT
static pthread_cond_t *notified[4096]; static int nnot = 0;
static void note(pthread_cond_t *c) { if (nnot < 4096) notified[nnot++] = c; }
static bool was(pthread_cond_t *c) { for (int i = 0; i < nnot; i++) if (notified[i] == c) return true; return false; }
static long simns = 0;
template<class F> static F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    if (!sim) return f(c, m);
    pthread_mutex_unlock(m); int r = onsleep(c, false, 0); pthread_mutex_lock(m); (void) r; return 0;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
    if (!sim) return f(c, m, k, ts);
    struct timespec now; clock_gettime(k, &now);
    long left = (ts->tv_sec - now.tv_sec) * 1000000000L + ts->tv_nsec - now.tv_nsec;
    pthread_mutex_unlock(m); int r = onsleep(c, true, left); pthread_mutex_lock(m); return r;
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
    if (!sim) return f(c, m, ts);
    struct timespec now; clock_gettime(CLOCK_REALTIME, &now);
    long left = (ts->tv_sec - now.tv_sec) * 1000000000L + ts->tv_nsec - now.tv_nsec;
    pthread_mutex_unlock(m); int r = onsleep(c, true, left); pthread_mutex_lock(m); return r;
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
    static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    if (sim) note(c);
    return f(c);
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) {
    static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    if (sim) note(c);
    return f(c);
}
static long mk(long *, long i) { return i; }
static std::string mk(std::string *, long i) { return "an item with some text " + std::to_string(i); }
static std::shared_ptr<int> mk(std::shared_ptr<int> *, long i) { return std::make_shared<int>((int) i); }
static long id(const long &x) { return x; }
static long id(const std::string &x) { return x.size() > 23 ? atol(x.c_str() + 23) : -1; }
static long id(const std::shared_ptr<int> &x) { return x ? *x : -1; }

template<class T> struct Hist {
    struct M { std::deque<long> d; unsigned mx = 0; bool full() const { return mx && d.size() >= mx; } };
    static const int K = 3;
    std::unique_ptr<SafeQueue<T>> q[K]; M m[K];
    long nextid = 1;
    std::string log;
    void say(const char *f, int a, int b = 0, long c = 0) { char x[80]; snprintf(x, sizeof x, f, a, b, c); log += x; if (log.size() > 1500) log.erase(0, log.size() - 1500); drv::kase("%s", log.c_str()); }
    // operations which never sleep; they may run while another one sleeps
    void quick(int depth) {
        int a = R.below(K), b = R.below(K);
        auto &Q = *q[a]; auto &O = m[a];
        switch (R.below(depth ? 12 : 16)) {
        case 0: case 1: case 2: {
            long i = nextid++; bool full = O.full(), r; T v = mk((T *) 0, i); int w = R.below(3);
            say("q%d.try_push%d(%ld) ", a, w, i);
            r = w == 0 ? Q.try_push(v) : w == 1 ? Q.try_push(static_cast<const T &&>(v)) : Q.try_move_push(v);
            CHECK(r == !full, "try_push %s a queue of %zu with limit %u", r ? "into" : "refused by", O.d.size(), O.mx);
            if (r) O.d.push_back(i);
            break; }
        case 3: {
            long i = nextid++; T v = mk((T *) 0, i); say("q%d.force%d(%ld) ", a, 0, i);
            unsigned n = Q.force_move_push(v), want = 0;
            while (O.full()) { O.d.pop_front(); want++; }
            O.d.push_back(i);
            CHECK(n == want, "force push reports %u discarded items instead of %u", n, want);
            break; }
        case 4: case 5: case 6: {
            T v = mk((T *) 0, -7); int w = R.below(3); say("q%d.try_pop%d ", a, w);
            bool r = w == 0 ? Q.try_pop(v) : w == 1 ? Q.try_move_pop(v) : Q.timeout_pop(v, 0);
            CHECK(r == !O.d.empty(), "try_pop %s with %zu items", r ? "succeeds" : "fails", O.d.size());
            if (r) { CHECK(id(v) == O.d.front(), "popped %ld instead of %ld", id(v), O.d.front()); O.d.pop_front(); }
            break; }
        case 7: { unsigned n = R.below(5); say("q%d.limit(%d) ", a, n); Q.set_max_num_items(n); O.mx = n; break; }
        case 8: if (R.chance(40)) { say("swap(q%d,q%d) ", a, b); if (R.chance(50)) Q.swap(*q[b]); else kpsr::mem::swap(Q, *q[b]); if (a != b) std::swap(O.d, m[b].d); } break;
        case 9: if (R.chance(40)) { say("q%d=q%d ", a, b); Q = *static_cast<const SafeQueue<T> *>(q[b].get()); if (a != b) O.d = m[b].d; } break;
        case 10: if (R.chance(40)) { say("q%d=move(q%d) ", a, b); Q = std::move(*q[b]); if (a != b) { O.d = m[b].d; m[b].d.clear(); } } break;
        case 11: {
            say("q%d.size ", a);
            CHECK(Q.size() == O.d.size() && Q.empty() == O.d.empty() && Q.full() == O.full(), "size %zu empty %d full %d with %zu items and limit %u", (size_t) Q.size(), Q.empty(), Q.full(), O.d.size(), O.mx); break; }
        case 12: { say("q%d=new(q%d) ", a, b); M t = m[b]; auto n = std::make_unique<SafeQueue<T>>(*static_cast<const SafeQueue<T> *>(q[b].get())); q[a] = std::move(n); m[a] = t; break; }
        case 13: { say("q%d=new(move(q%d)) ", a, b); M t = m[b]; auto n = std::make_unique<SafeQueue<T>>(std::move(*q[b])); m[b].d.clear(); if (true) { q[a] = std::move(n); m[a] = t; } break; }
        default: slow(a); break;
        }
    }
    // operations which may sleep: meanwhile, others run
    void slow(int a) {
        auto &Q = *q[a]; auto &O = m[a];
        bool push = R.chance(50), timed = !push && R.chance(60), slept = false;
        int w = R.below(3); long us = 200 + R.below(1500);
        int steps = 0;
        auto go = [&] { return push ? !O.full() : !O.d.empty(); };
        onsleep = [&](pthread_cond_t *c, bool tw, long left) -> int {
            slept = true;
            CHECK(tw == timed, "a %s operation sleeps %s time limit", timed ? "timed" : "blocking", tw ? "with a" : "without");
            CHECK(!go(), "the operation goes to sleep although it could proceed");
            if (tw) CHECK(left <= us * 1000, "a timed wait of %ld us would sleep %ld ns", us, left);
            for (;;) {
                if (tw && (R.chance(15) || ++steps > 40)) { say("[time out] ", 0); simns = left; struct timespec ts = {0, left > 0 ? left + 1000 : 0}; nanosleep(&ts, 0); return ETIMEDOUT; }
                if (!tw && ++steps > 40 && !go()) { // get the operation going
                    say("[release] ", 0);
                    if (push) { T v = mk((T *) 0, -7); CHECK(Q.try_pop(v), "nothing to pop"); CHECK(id(v) == O.d.front(), "popped %ld instead of %ld", id(v), O.d.front()); O.d.pop_front(); }
                    else { long i = nextid++; CHECK(Q.try_push(mk((T *) 0, i)), "an empty queue refuses an item"); O.d.push_back(i); }
                    CHECK(was(c) || !go(), "the operation sleeps on although it could proceed: no wake-up");
                    if (go()) return 0;
                }
                if (R.chance(15)) { say("[spurious] ", 0); return 0; }
                nnot = 0; bool before = go(); say("[ ", 0);
                quick(1); say("] ", 0);
                if (go() && !before) CHECK(was(c), "the operation sleeps on although it could proceed: no wake-up");
                if (was(c) && R.chance(70)) return 0;
            }
        };
        sim = true; nnot = 0;
        if (push) {
            long i = nextid++; T v = mk((T *) 0, i); say("q%d.push%d(%ld) ", a, w, i);
            bool r = w == 0 ? Q.push(v) : w == 1 ? Q.push(static_cast<const T &&>(v)) : Q.move_push(v);
            CHECK(r, "a blocking push reports failure"); CHECK(!O.full(), "a push exceeds the limit %u", O.mx); O.d.push_back(i);
        } else if (!timed) {
            T v = mk((T *) 0, -7); say("q%d.pop%d ", a, w); if (w) Q.pop(v); else Q.move_pop(v);
            CHECK(!O.d.empty(), "a pop returns without an item"); CHECK(id(v) == O.d.front(), "popped %ld instead of %ld", id(v), O.d.front()); O.d.pop_front();
        } else {
            T v = mk((T *) 0, -7); say("q%d.timeout_pop%d(%ld) ", a, w, us); auto t0 = std::chrono::steady_clock::now();
            bool r = w ? Q.timeout_pop(v, us) : Q.timeout_move_pop(v, us);
            auto dt = std::chrono::steady_clock::now() - t0;
            CHECK(r == !O.d.empty(), "timed pop %s with %zu items", r ? "succeeds" : "fails", O.d.size());
            if (r) { CHECK(id(v) == O.d.front(), "popped %ld instead of %ld", id(v), O.d.front()); O.d.pop_front(); }
            else { CHECK(dt >= std::chrono::microseconds(us), "timed pop of %ld us fails early", us); CHECK(id(v) == -7 || id(v) == -1, "a failed pop changes its result"); }
        }
        sim = false; (void) slept;
    }
    void run(int n) {
        for (int i = 0; i < K; i++) { unsigned mx = R.below(4); q[i].reset(new SafeQueue<T>(mx)); m[i] = M(); m[i].mx = mx; say("q%d(%d) ", i, mx); }
        for (int i = 0; i < n; i++) quick(0);
        for (int i = 0; i < K; i++) { T v = mk((T *) 0, 0); for (auto x : m[i].d) { CHECK(q[i]->try_pop(v), "q%d lost items", i); CHECK(id(v) == x, "popped %ld instead of %ld", id(v), x); } CHECK(q[i]->empty(), "q%d has extra items", i); }
    }
};
static void threads(int P, int C, int E, unsigned mx) {
    drv::kase("%d producers x %d items, %d consumers, limit %u", P, E, C, mx);
    SafeQueue<long> q(mx);
    std::atomic<long> got{0}, bad{0}; std::vector<std::thread> ts; std::vector<std::atomic<int>> seen(P * E); for (auto &s : seen) s = 0;
    for (int p = 0; p < P; p++) ts.emplace_back([&, p] { for (int i = 0; i < E; i++) { long v = p * (long) E + i; if (i % 3 == 0) q.push(v); else if (i % 3 == 1) q.move_push(v); else while (!q.try_push(v)) std::this_thread::yield(); } });
    for (int c = 0; c < C; c++) ts.emplace_back([&, c] {
        std::vector<long> last(P, -1); long v;
        while (got < P * (long) E) {
            if (!(c % 2 ? q.timeout_pop(v, 500) : q.timeout_move_pop(v, 500))) continue;
            got++; if (v < 0 || v >= P * (long) E) { bad = 1; continue; }
            if (seen[v]++) bad = 2;
            if (v % E <= last[v / E]) bad = 3; last[v / E] = v % E;
            if (mx && q.size() > mx) bad = 4;
        }
    });
    for (auto &t : ts) t.join();
    CHECK(bad == 0, "%s", bad == 1 ? "an item nobody pushed" : bad == 2 ? "an item handed over twice" : bad == 3 ? "items of one producer out of order" : "limit exceeded");
    for (auto &s : seen) CHECK(s == 1, "an item was lost");
}
static void crowd(int how, int P) {
    static const char *W[] = {"a wider limit", "swap with an empty queue", "assignment", "move assignment", "no limit any more", "move construction", "swap with the full queue as argument"};
    drv::kase("%d producers blocked by a full queue, released by %s", P, W[how]);
    SafeQueue<long> q(1), e(0); q.push(0);
    std::atomic<int> done{0}; std::vector<std::thread> ts;
    for (int p = 0; p < P; p++) ts.emplace_back([&, p] { q.push(p + 1); done++; });
    std::this_thread::sleep_for(std::chrono::milliseconds(3));
    std::unique_ptr<SafeQueue<long>> mv;
    int want = P;
    if (how == 0) q.set_max_num_items(P + 1); else if (how == 4) q.set_max_num_items(0);
    else { want = 1; if (how == 1) q.swap(e); else if (how == 2) q = *static_cast<const SafeQueue<long> *>(&e); else if (how == 3) q = std::move(e); else if (how == 5) mv.reset(new SafeQueue<long>(std::move(q))); else e.swap(q); }
    double t = drv::elapsed();
    while (done < want) { if (drv::elapsed() - t > 30) drv::fail("blocked producers are not woken: %d of %d went on", done.load(), want); std::this_thread::yield(); }
    q.set_max_num_items(0);
    for (auto &x : ts) x.join();
}
static void consumers(int how, int C) {
    drv::kase("%d consumers blocked by an empty queue, items arrive by %s", C, how == 0 ? "swap" : how == 1 ? "assignment" : "move assignment");
    SafeQueue<long> q(0), s(0); for (int i = 0; i < C; i++) s.push(i);
    std::atomic<int> done{0}; std::vector<std::thread> ts;
    for (int c = 0; c < C; c++) ts.emplace_back([&] { long v; q.pop(v); done++; });
    std::this_thread::sleep_for(std::chrono::milliseconds(3));
    if (how == 0) q.swap(s); else if (how == 1) q = *static_cast<const SafeQueue<long> *>(&s); else q = std::move(s);
    double t = drv::elapsed();
    while (done < C) { if (drv::elapsed() - t > 30) drv::fail("blocked consumers are not woken: %d of %d got an item", done.load(), C); std::this_thread::yield(); }
    for (auto &x : ts) x.join();
}
static void exchange() {
    drv::kase("two queues exchanged both ways at once");
    SafeQueue<long> a(0), b(0); for (int i = 0; i < 4; i++) a.push(i);
    std::atomic<bool> fin[2] = {{false}, {false}};
    auto w = [&](SafeQueue<long> &x, SafeQueue<long> &y, int k) { for (int i = 0; i < 300; i++) { if (i % 3 == 0) x.swap(y); else if (i % 3 == 1) x = y; else x = std::move(y); } fin[k] = true; };
    std::thread t([&] { w(a, b, 0); }), u([&] { w(b, a, 1); });
    double t0 = drv::elapsed();
    while (!fin[0] || !fin[1]) { if (drv::elapsed() - t0 > 30) drv::fail("exchanging queues both ways deadlocks"); std::this_thread::yield(); }
    t.join(); u.join();
}
int main() {
    drv::init();
    int n = 0;
    do {
#ifndef KTHREADS
        for (int i = 0; i < 30; i++) { Hist<long>().run(60); Hist<std::string>().run(40); Hist<std::shared_ptr<int>>().run(40); }
        if (n % 8 == 0) { for (int h = 0; h < 7; h++) crowd(h, 3); for (int h = 0; h < 3; h++) consumers(h, 3); }
#endif
        threads(1 + R.below(3), 1 + R.below(3), 60, R.below(4));
        if (n % 4 == 0) exchange();
        n++;
    } while (drv::more());
    return drv::done();
}
