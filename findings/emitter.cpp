// Listeners of the event emitters, on the code before the repairs:  once listeners ran more than once and made emitEvent throw; removing all
// listeners detached a null pointer; statistics of removed listeners were handed out, others not.
// g++ -std=c++17 -pthread -I/verif/harness/sdk -I<include dirs of /repo> emitter.cpp -lspdlog -lfmt
#include <atomic>
#include <algorithm>
#include <string>
#include <vector>
#include <klepsydra/core/safe_event_emitter.h>
#include <klepsydra/core/unsafe_multi_listener_event_emitter.h>
#include <klepsydra/core/unsafe_single_listener_event_emitter.h>
#include <cstdio>
using namespace kpsr;
struct Cont : Container {
    int attached = 0, nulls = 0;
    void attach(SubscriptionStats *s) override { attached++; }
    void detach(SubscriptionStats *s) override { attached--; if (!s) nulls++; }
};
int bad = 0;
#define REQ(c, m) do { if (!(c)) { printf("BROKEN: %s\n", m); bad++; } } while (0)
int main()
{
    {
        SafeEventEmitter<int> e; int n = 0;
        e.once("a", [&](const int &v) { n++; if (v > 0) e.emitEvent("a", 0, v - 1); });
        try { e.emitEvent("a", 0, 3); } catch (std::exception &x) { REQ(false, x.what()); }
        REQ(n == 1, "a once listener ran more than once");
    }
    {
        SafeEventEmitter<int> e; Cont c;
        e.once("a", [&](const int &) {}); e.on(&c, "l", "a", [](const int &) {});
        e.removeAllListeners(&c);
        REQ(!c.nulls && c.attached == 0, "a null pointer is detached");
    }
    {
        UnsafeMultiListenerEventEmitter<int> e; Cont c;
        auto a = e.on(nullptr, "x", "a", [](const int &) {}); auto b = e.on(&c, "y", "a", [](const int &) {});
        REQ(e.getListenerStats(b) != nullptr, "statistics of a listener are not found");
        try { REQ(!e.getListenerStats(a), "?"); } catch (std::exception &x) { REQ(false, "asking for statistics throws"); }
        e.removeAllListeners(&c);
        e.on(nullptr, "x", "a", [](const int &) {}); auto d = e.on(nullptr, "z", "a", [](const int &) {});
        try { REQ(!e.getListenerStats(d), "a listener without statistics is given those of a removed one"); } catch (std::exception &) {}
    }
    {
        UnsafeSingleListenerEventEmitter<int> e; Cont c;
        e.on(nullptr, "x", "a", [](const int &) {});
        e.removeListener(&c, 0);
        REQ(!c.nulls, "a null pointer is detached");
        e.on(&c, "x", "a", [](const int &) {}); e.removeListener(nullptr, 0); e.on(nullptr, "x", "a", [](const int &) {});
        REQ(!e.getListenerStats(0), "a listener without statistics is given those of a removed one");
    }
    puts(bad ? "defects" : "ok");
    return bad != 0;
}
