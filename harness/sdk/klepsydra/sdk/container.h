// Stand-in for the KlepsydraSDK header of this name, which is not part of the repository: only what kpsr-core uses.
#pragma once
#include <string>
namespace kpsr {
class Environment;
class Service;
class FunctionStats;
class ServiceStats;
class PublicationStats;
class SubscriptionStats;
class Container
{
public:
    virtual ~Container() {}
    virtual void attach(Service *) {}
    virtual void attach(FunctionStats *) {}
    virtual void attach(ServiceStats *) {}
    virtual void attach(PublicationStats *) {}
    virtual void attach(SubscriptionStats *) {}
    virtual void detach(Service *) {}
    virtual void detach(FunctionStats *) {}
    virtual void detach(ServiceStats *) {}
    virtual void detach(PublicationStats *) {}
    virtual void detach(SubscriptionStats *) {}
    virtual std::string getName() const { return ""; }
    virtual Environment *getEnvironment() const { return nullptr; }
};
} // namespace kpsr
