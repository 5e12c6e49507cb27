// Bounded driver for the ring buffer's slots.
#include "common.h"
#include <memory>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;
static drv::Rng R(drv::seed());
struct P3 { char c[3]; bool operator==(const P3 &o) const { return !memcmp(c, o.c, 3); } };
struct Big { int64_t a[20]; bool operator==(const Big &o) const { return !memcmp(a, o.a, sizeof a); } };
static std::string mk(std::string *, int64_t i) { return "event with a long enough text " + std::to_string(i); }
static int64_t mk(int64_t *, int64_t i) { return i * 77 + 5; }
static P3 mk(P3 *, int64_t i) { return P3{{(char) i, (char) (i >> 8), (char) (i * 3)}}; }
static Big mk(Big *, int64_t i) { Big b; for (auto &x : b.a) x = i++; return b; }
static std::vector<int> mk(std::vector<int> *, int64_t i) { return std::vector<int>(i % 9 + 1, (int) i); }
template<class T, std::size_t N, producer_type PT> void test(const char *nm, std::vector<int64_t> hs) {
    typedef ring_buffer<T, N, busy_spin_wait_strategy, PT> RB;
    drv::kase("%s x %zu", nm, N);
    T v = mk((T *) 0, 4242);
    auto full = std::make_unique<RB>(&v);
    for (int64_t q = 0; q < (int64_t) N; q++) CHECK((*full)[q] == v, "slot %lld is not a copy of the initial value", (long long) q);
    T *none = nullptr;
    auto nul = std::make_unique<RB>((const T *) none);
    std::vector<T *> seen;
    auto rb = std::make_unique<RB>(std::function<void(T &)>([&](T &t) { seen.push_back(&t); t = mk((T *) 0, 1); }));
    CHECK(seen.size() == N, "the initialiser ran %zu times for %zu slots", seen.size(), N);
    for (int64_t q = 0; q < (int64_t) N; q++) { int c = 0; for (auto p : seen) c += p == &(*rb)[q]; CHECK(c == 1, "slot %lld was initialised %d times", (long long) q, c); }
    for (auto base : hs) {
        drv::kase("%s x %zu from sequence %lld", nm, N, (long long) base);
        for (int64_t i = 0; i < (int64_t) N; i++) (*rb)[base + i] = mk((T *) 0, base + i);
        const RB &cr = *rb;
        for (int64_t i = 0; i < (int64_t) N; i++) {
            CHECK((*rb)[base + i] == mk((T *) 0, base + i), "sequence %lld lost its event to another one within a buffer length", (long long) (base + i));
            CHECK(&cr[base + i] == &(*rb)[base + i] && &(*rb)[base + i + N] == &(*rb)[base + i], "sequence %lld changes slot", (long long) (base + i));
            CHECK((char *) &(*rb)[base + i] >= (char *) rb.get() && (char *) (&(*rb)[base + i] + 1) <= (char *) rb.get() + sizeof(RB), "slot outside the buffer");
        }
    }
}
int main() {
    drv::init();
    do {
        std::vector<int64_t> hs{0, 1, 7, 1000, (1LL << 31) - 3, (1LL << 32) - 5, (1LL << 61)};
        for (auto h : drv::hints()) if (h >= 0 && h < (1LL << 61)) hs.push_back(h);
        for (int i = 0; i < 6; i++) hs.push_back((int64_t) (R.next() >> (2 + R.below(60))));
        test<int64_t, 8, producer_type::single>("int", hs); test<std::string, 2, producer_type::multi>("string", hs); test<std::string, 64, producer_type::single>("string", hs);
        test<P3, 16, producer_type::single>("3 bytes", hs); test<Big, 4, producer_type::multi>("160 bytes", hs); test<std::vector<int>, 32, producer_type::multi>("vector", hs);
        test<int64_t, 1, producer_type::single>("int", hs); test<int64_t, 1024, producer_type::multi>("int", hs);
    } while (drv::more());
    return drv::done();
}
