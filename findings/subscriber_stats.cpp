// C19 (fixed in 1c5c859): asking a subscriber for the statistics of a name nobody registered.  Before the fix the name was entered in the
// subscriber's table under id 0: with an emitter whose ids begin at 0 it answered with the statistics of another listener, and removing
// the unknown name removed that listener; with the default emitter removing it threw.
// g++ -std=c++17 -I /verif/harness/sdk -I /repo/core/modules/core/include subscriber_stats.cpp -lspdlog -lfmt -lpthread
#include <atomic>
#include <cstdio>
#include <stdexcept>
#include <klepsydra/core/event_emitter_subscriber.h>
using namespace kpsr;
int main()
{
    int bad = 0;
    for (EventEmitterType t : {EventEmitterType::SAFE, EventEmitterType::UNSAFE_MULTI}) {
        std::shared_ptr<EventEmitterInterface<std::shared_ptr<const int>>> em = EventEmitterFactory::createEventEmitter<std::shared_ptr<const int>>(t);
        Container c;
        EventEmitterSubscriber<int> s(&c, em, "s");
        int seen = 0;
        s.registerListener("a", [&](const int &) { seen++; });
        auto st = s.getSubscriptionStats("b");
        if (st) { printf("type %d: statistics of %s for an unknown name\n", (int) t, "another listener"); bad++; }
        try { s.removeListener("b"); } catch (std::exception &e) { printf("type %d: removing an unknown name threw: %s\n", (int) t, e.what()); bad++; }
        em->emitEvent("s", 0, std::make_shared<const int>(1));
        if (seen != 1) { printf("type %d: removing an unknown name removed another listener\n", (int) t); bad++; }
    }
    printf("%s\n", bad ? "broken" : "ok");
    return bad != 0;
}
