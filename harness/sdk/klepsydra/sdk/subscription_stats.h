// Stand-in for the KlepsydraSDK header of this name, which is not part of the repository: only what kpsr-core uses.
#pragma once
#include <string>
namespace kpsr {
class SubscriptionStats
{
public:
    SubscriptionStats(const std::string &name, const std::string &owner, const std::string &type, bool = false)
        : name(name)
    {}
    void startProcessMeasure() {}
    void stopProcessMeasure() {}
    std::string name;
    unsigned long long totalDiscardedEvents = 0;
    unsigned long long totalEnqueuedTimeInNs = 0;
};
} // namespace kpsr
