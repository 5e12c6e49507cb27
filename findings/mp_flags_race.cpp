// Demonstrates (ThreadSanitizer) that the multi producer sequencer's publication hand-off is a data
// race when the availability flags are plain ints.  g++ -fsanitize=thread ...
#include <stdexcept>
#include <thread>
#include <cstdio>
#include <klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/wait_strategies/busy_spin_wait_strategy.h>
using namespace disruptor4cpp;
int main() {
    static multi_producer_sequencer<8, busy_spin_wait_strategy> s;
    static int payload[8];
    std::thread c([] { for (int64_t i = 0; i < 8; i++) { while (!s.is_available(i)) std::this_thread::yield(); if (payload[i & 7] != (int)i + 1) std::puts("stale"); } });
    for (int i = 0; i < 8; i++) { int64_t n = s.next(); payload[n & 7] = (int)n + 1; s.publish(n); }
    c.join();
}
