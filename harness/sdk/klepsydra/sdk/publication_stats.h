// Stand-in for the KlepsydraSDK header of this name, which is not part of the repository: only what kpsr-core uses.
#pragma once
#include <string>
namespace kpsr {
class PublicationStats
{
public:
    PublicationStats(const std::string &name, const std::string &owner, const std::string &type)
        : name(name)
    {}
    std::string name;
    unsigned long long _totalEventAllocations = 0;
    unsigned long long _totalPublishedEvents = 0;
    unsigned long long _totalDiscardedEvents = 0;
    unsigned long long totalDiscardedEvents = 0;
};
} // namespace kpsr
