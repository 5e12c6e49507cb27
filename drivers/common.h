// Shared by the bounded replay drivers: they run the real code on concrete inputs (solver hints first,
// then a seeded search) against an independent oracle, and print FAIL + the failing case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <atomic>
#include <chrono>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
namespace drv {
inline char cur[4096] = "start";
inline unsigned long ncases = 0;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return below(100) < (unsigned) pct; }
};
inline uint64_t seed() { auto e = getenv("KVC_SEED"); return e ? strtoull(e, 0, 10) : 1; }
inline double seconds() { auto e = getenv("KVC_SECONDS"); return e ? atof(e) : 3; }
inline std::string tmpdir() { auto e = getenv("KVC_TMP"); return e ? e : "."; }
inline std::vector<int64_t> hints() {
    std::vector<int64_t> v; auto e = getenv("KVC_HINTS"); if (!e) return v;
    std::string s(e); size_t i = 0;
    while (i < s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); v.push_back((int64_t) strtoll(s.substr(i, j - i).c_str(), 0, 10)); i = j + 1; }
    return v;
}
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more(double frac = 1.0) { return elapsed() < seconds() * frac; }
[[noreturn]] inline void fail(const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("FAIL %s | case: %s\n", b, cur); fflush(stdout); _exit(1);
}
// a case that lasts is not stuck as long as it says so
inline std::atomic<unsigned long> beats{0};
inline void beat() { beats.fetch_add(1, std::memory_order_relaxed); }
static const int PATIENCE = 60;
inline void onalarm(int) {
    static unsigned long last = 0; unsigned long b = beats.load();
    if (b != last) { last = b; alarm(PATIENCE); return; }
    const char *m = "FAIL no progress (hang) | case: "; (void)!write(1, m, strlen(m)); (void)!write(1, cur, strlen(cur)); (void)!write(1, "\n", 1); _exit(1); }
inline void onsegv(int sg) { const char *m = "FAIL crash | case: "; (void)!write(1, m, strlen(m)); (void)!write(1, cur, strlen(cur)); (void)!write(1, "\n", 1); _exit(1); }
inline void kase(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(cur, sizeof cur, fmt, ap); va_end(ap); ncases++;
    alarm(PATIENCE);
}
inline void init() {
    signal(SIGALRM, onalarm); setvbuf(stdout, 0, _IOLBF, 0);
    std::set_terminate([] { const char *m = "FAIL std::terminate | case: "; (void)!write(1, m, strlen(m)); (void)!write(1, cur, strlen(cur)); (void)!write(1, "\n", 1); _exit(1); });
}
#define CHECK(c, ...) do { if (!(c)) drv::fail(__VA_ARGS__); } while (0)
inline int done() { alarm(0); printf("STAT cases=%lu seconds=%.1f\n", ncases, elapsed()); return 0; }
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error() { const char *m = "FAIL memory error | case: "; (void)!write(1, m, strlen(m)); (void)!write(1, drv::cur, strlen(drv::cur)); (void)!write(1, "\n", 1); }
#endif
