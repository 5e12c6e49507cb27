// Stand-in for the KlepsydraSDK header of this name, which is not part of the repository: only what kpsr-core uses.
#pragma once
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/subscription_stats.h>
#include <functional>
#include <memory>
#include <string>
namespace kpsr {
template<class T>
class Subscriber
{
public:
    Subscriber(Container *container, const std::string &name, const std::string &type)
        : container(container)
        , name(name)
    {}
    virtual ~Subscriber() {}
    virtual void registerListenerOnce(const std::function<void(const T &)> listener) = 0;
    virtual void registerListener(const std::string &name, const std::function<void(const T &)> listener) = 0;
    virtual void removeListener(const std::string &name) = 0;
    virtual std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name) = 0;
    Container *container;
    std::string name;
};
} // namespace kpsr
