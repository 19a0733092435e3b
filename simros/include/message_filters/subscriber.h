#ifndef SIM_MF_SUBSCRIBER_H
#define SIM_MF_SUBSCRIBER_H
#include <string>
#include <vector>
#include <boost/function.hpp>
#include <ros/ros.h>
namespace message_filters
{
template <class M>
class Subscriber
{
public:
  typedef boost::shared_ptr<M const> MConstPtr;
  typedef boost::function<void(const MConstPtr&)> Callback;
  Subscriber() {}
  Subscriber(ros::NodeHandle& nh, const std::string& topic, uint32_t queue, const ros::TransportHints& hints = ros::TransportHints())
  {
    subscribe(nh, topic, queue, hints);
  }
  Subscriber(const Subscriber&) = delete;
  Subscriber& operator=(const Subscriber&) = delete;
  void subscribe(ros::NodeHandle& nh, const std::string& topic, uint32_t queue, const ros::TransportHints& hints = ros::TransportHints())
  {
    sub_ = nh.subscribe<M>(topic, queue, Callback([this](const MConstPtr& m) {
      for (auto& c : cbs_)
        c(m);
    }), ros::VoidConstPtr(), hints);
  }
  void unsubscribe() { sub_.shutdown(); }
  void registerCallback(const Callback& c) { cbs_.push_back(c); }

private:
  ros::Subscriber sub_;
  std::vector<Callback> cbs_;
};
}  // namespace message_filters
#endif
