// Stand-in for the KlepsydraSDK header of this name, which is not part of the repository: only what kpsr-core uses.
#pragma once
#include <chrono>
namespace kpsr {
struct TimeUtils
{
    static unsigned long long getCurrentNanosecondsAsLlu() { return std::chrono::steady_clock::now().time_since_epoch().count(); }
    static long getCurrentNanoseconds() { return std::chrono::steady_clock::now().time_since_epoch().count(); }
    static long getCurrentMilliseconds() { return getCurrentNanoseconds() / 1000000; }
};
} // namespace kpsr
