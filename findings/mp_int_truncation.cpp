// try_next()/has_available_capacity() of the multi producer sequencer after 2^31 events.
#include <stdexcept>
#include <cstdio>
#include <klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h>
#include <klepsydra/high_performance/disruptor4cpp/wait_strategies/busy_spin_wait_strategy.h>
using namespace disruptor4cpp;
int main() {
    static multi_producer_sequencer<8, busy_spin_wait_strategy> s;
    sequence g;
    s.claim((1LL << 32) - 1);            // cursor after 2^32 events
    s.add_gating_sequences({&g});        // consumer starts there
    int got = 0;
    try { for (; got < 100; got++) s.try_next(); } catch (insufficient_capacity_exception &) {}
    std::printf("claimed %d slots of an 8-slot buffer without the consumer moving\n", got);
    return got != 8;
}
