// Lost wakeup in lite_blocking_wait_strategy: the waiter announces itself with a plain release store and then re-reads
// the cursor; the store may become visible after the read, so a concurrent publish sees no waiter and the re-read misses
// the publish.  Prints LOST and exits 1 when a published event does not wake the consumer.
#include <stdexcept>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;
int main(int argc, char **argv) {
    long rounds = argc > 1 ? atol(argv[1]) : 20000000;
    static single_producer_sequencer<64, lite_blocking_wait_strategy> s;
    static std::atomic<long> got{-1}, go{-1};
    static auto b = s.new_barrier();
    std::thread c([&] { for (long i = 0; i < rounds; i++) { while (go.load() < i); b->wait_for(i); got = i; } });
    unsigned x = 12345;
    for (long i = 0; i < rounds; i++) {
        go = i;
        x = x * 1664525u + 1013904223u;
        for (volatile int k = (x >> 16) % 200; k > 0; k--);
        s.publish(s.next());
        auto t = std::chrono::steady_clock::now();
        unsigned n = 0;
        while (got.load() < i) if ((++n & 1023) == 0 && std::chrono::steady_clock::now() - t > std::chrono::seconds(2)) { printf("LOST wakeup: event %ld published, consumer still asleep after 2s\n", i); fflush(stdout); _exit(1); }
    }
    c.join(); puts("ok");
}
