// C18 (fixed in 69a14f6): a callback that throws while it prepares an event in the data multiplexer's ring buffer.  Before the fix the
// claimed slot was never published, and the next publication made consumers see it: a half-made or stale event nobody published.
// g++ -std=c++17 -I /verif/harness/sdk -I /repo/core/modules/core/include -I /repo/high_performance/modules/high_performance/include mux_callback.cpp -lspdlog -lfmt -lpthread
#include <cstdio>
#include <stdexcept>
#include <klepsydra/high_performance/data_multiplexer_publisher.h>
int main()
{
    typedef kpsr::high_performance::DataMultiplexerPublisher<int, 4> P;
    P::RingBuffer rb;
    P p(nullptr, "p", nullptr, rb);
    p.publish(1);
    try { p.processAndPublish([](int &v) { v = -99; throw std::runtime_error("no data"); }); } catch (std::runtime_error &) {}
    p.publish(2);
    bool ok = rb.get_cursor() == 1;
    for (int64_t i = 0; i <= rb.get_cursor(); i++) printf("event %d\n", *rb[i].eventData);
    printf("%s\n", ok ? "ok" : "an event nobody published is visible");
    return !ok;
}
