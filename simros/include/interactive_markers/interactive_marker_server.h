#ifndef SIM_INTERACTIVE_MARKER_SERVER_H
#define SIM_INTERACTIVE_MARKER_SERVER_H
#include <map>
#include <string>
#include <boost/function.hpp>
#include <ros/ros.h>
#include <visualization_msgs/InteractiveMarker.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>
#include <visualization_msgs/InteractiveMarkerUpdate.h>
namespace interactive_markers
{
class InteractiveMarkerServer
{
public:
  typedef visualization_msgs::InteractiveMarkerFeedbackConstPtr FeedbackConstPtr;
  typedef boost::function<void(const FeedbackConstPtr&)> FeedbackCallback;
  explicit InteractiveMarkerServer(const std::string& topic_ns, const std::string& server_id = "", bool = false)
    : nh_(topic_ns), id_(server_id)
  {
    pub_ = nh_.advertise<visualization_msgs::InteractiveMarkerUpdate>("update", 100);
    sub_ = nh_.subscribe("feedback", 100, &InteractiveMarkerServer::processFeedback, this);
  }
  void insert(const visualization_msgs::InteractiveMarker& m, FeedbackCallback cb, uint8_t = 255) { pending_[m.name] = C{m, cb}; }
  void insert(const visualization_msgs::InteractiveMarker& m) { pending_[m.name] = C{m, FeedbackCallback()}; }
  void clear() { pending_.clear(); erase_ = true; }
  bool empty() const { return ctx_.empty(); }
  size_t size() const { return ctx_.size(); }
  void applyChanges()
  {
    if (pending_.empty() && !erase_)
      return;
    visualization_msgs::InteractiveMarkerUpdate u;
    u.type = visualization_msgs::InteractiveMarkerUpdate::UPDATE;
    u.server_id = id_;
    if (erase_)
    {
      for (auto& c : ctx_)
        if (!pending_.count(c.first))
          u.erases.push_back(c.first);
      ctx_.clear();
    }
    for (auto& p : pending_)
    {
      ctx_[p.first] = p.second;
      u.markers.push_back(p.second.m);
    }
    pending_.clear();
    erase_ = false;
    u.seq_num = ++seq_;
    pub_.publish(u);
  }

private:
  struct C
  {
    visualization_msgs::InteractiveMarker m;
    FeedbackCallback cb;
    std::string client;
    ros::Time last;
  };
  void processFeedback(const FeedbackConstPtr& f)
  {
    const auto it = ctx_.find(f->marker_name);
    if (it == ctx_.end())
      return;
    C& c = it->second;
    const ros::Time now = ros::Time::now();
    // feedback of another client is rejected while one is in control
    if (c.client != f->client_id && now - c.last < ros::Duration(1.0))
      return;
    c.last = now;
    c.client = f->client_id;
    if (f->event_type == visualization_msgs::InteractiveMarkerFeedback::POSE_UPDATE)
      c.m.pose = f->pose;
    FeedbackCallback cb = c.cb;
    if (cb)
      cb(f);
  }
  ros::NodeHandle nh_;
  std::string id_;
  ros::Publisher pub_;
  ros::Subscriber sub_;
  std::map<std::string, C> ctx_, pending_;
  bool erase_ = false;
  uint64_t seq_ = 0;
};
}  // namespace interactive_markers
#endif
