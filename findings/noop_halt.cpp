// no_op_event_processor::halt never ends run(): exits 1 if run() is still going 3 s after halt().
#include <stdexcept>
#include <thread>
#include <cstdio>
#include <atomic>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
#include <klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h>
using namespace disruptor4cpp;
typedef ring_buffer<int, 8, blocking_wait_strategy, producer_type::single> RB;
int main() {
    static RB rb; static no_op_event_processor<RB> p(rb, rb.new_barrier());
    std::atomic<bool> done{false};
    std::thread t([&] { p.run(); done = true; });
    while (!p.is_running()) std::this_thread::yield();
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    p.halt();
    for (int i = 0; i < 300 && !done; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    if (!done) { puts("run() did not return after halt()"); fflush(stdout); _exit(1); }
    t.join(); puts("ok");
}
