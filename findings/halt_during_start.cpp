// halt() issued while run() is starting (after is_running() became true, before the barrier's alert is cleared) is lost:
// run() never returns.  The barrier type is the processor's own template parameter, so the window is hit deterministically.
#include <stdexcept>
#include <thread>
#include <cstdio>
#include <atomic>
#include <functional>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
#include <klepsydra/high_performance/disruptor4cpp/batch_event_processor.h>
using namespace disruptor4cpp;
typedef ring_buffer<int, 8, blocking_wait_strategy, producer_type::single> RB;
static std::function<void()> before_clear;
struct Bar { RB::sequence_barrier_type &b; void clear_alert() { if (before_clear) before_clear(); b.clear_alert(); } void alert() { b.alert(); } int64_t wait_for(int64_t s) { return b.wait_for(s); } };
struct RBX { typedef int event_type; typedef sequence sequence_type; typedef Bar sequence_barrier_type; RB rb; int &operator[](int64_t s) { return rb[s]; } };
struct H : event_handler<int> { void on_start() override {} void on_shutdown() override {} void on_event(int &, int64_t, bool) override {} void on_timeout(int64_t) override {}
    void on_event_exception(const std::exception &, int64_t, int *) override {} void on_start_exception(const std::exception &) override {} void on_shutdown_exception(const std::exception &) override {} };
int main() {
    static RBX rb; static auto nb = rb.rb.new_barrier(); static Bar bar{*nb}; static H h;
    static batch_event_processor<RBX> p(rb, bar, h);
    static std::atomic<bool> done{false};
    before_clear = [] { p.halt(); };
    std::thread t([] { p.run(); done = true; });
    for (int i = 0; i < 300 && !done; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    if (!done) { puts("run() did not return although halt() was called after it had started"); fflush(stdout); _exit(1); }
    t.join(); puts("ok");
}
