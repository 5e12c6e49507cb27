// Stand-in for the KlepsydraSDK header of this name, which is not part of the repository: only what kpsr-core uses.
#pragma once
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/publication_stats.h>
#include <klepsydra/sdk/time_utils.h>
#include <functional>
#include <memory>
#include <string>
namespace kpsr {
template<class T>
class Publisher
{
public:
    Publisher(Container *container, const std::string &name, const std::string &type)
        : name(name)
        , publicationStats(name, name, type)
        , container(container)
    {}
    virtual ~Publisher() {}
    void publish(const T &event)
    {
        publicationStats._totalPublishedEvents++;
        internalPublish(event);
    }
    void publish(std::shared_ptr<const T> event)
    {
        publicationStats._totalPublishedEvents++;
        internalPublish(event);
    }
    virtual void processAndPublish(std::function<void(T &)> process) = 0;
    virtual void internalPublish(const T &event) = 0;
    virtual void internalPublish(std::shared_ptr<const T> event) = 0;
    std::string name;
    PublicationStats publicationStats;
    Container *container;
};
} // namespace kpsr
