// Stand-in for the KlepsydraSDK header of this name, which is not part of the repository: only what kpsr-core uses.
#pragma once
namespace kpsr {
class ServiceStats;
} // namespace kpsr
