// Transforms a node received, for the oracles: an own buffer fed with the messages which arrived at the node.
#ifndef TFREF_H
#define TFREF_H
#include <deque>
#include <string>
#include <tf2_ros/buffer.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
#include "world.h"
namespace world
{
struct TfRef
{
  sim::Sim& s;
  tf2::BufferCore b;
  std::function<void()> changed;
  TfRef(sim::Sim& ss, const std::string& node) : s(ss)
  {
    s.onRecv<tf2_msgs::TFMessage>(node, "/tf", [this](const tf2_msgs::TFMessage& m, sim::Node*) { got(m, false); });
    s.onRecv<tf2_msgs::TFMessage>(node, "/tf_static", [this](const tf2_msgs::TFMessage& m, sim::Node*) { got(m, true); });
  }
  void got(const tf2_msgs::TFMessage& m, bool st)
  {
    for (auto& t : m.transforms)
      b.setTransform(t, "ref", st);
    if (changed)
      changed();
  }
  bool can(const std::string& a, const std::string& c, ros::Time t = ros::Time(0)) const { return b.canTransform(a, c, t); }
  bool get(const std::string& a, const std::string& c, ros::Time t, tf2::Stamped<tf2::Transform>& o) const
  {
    if (!b.canTransform(a, c, t))
      return false;
    sim::Node* n = s.cur;  // no simulated time passes
    s.cur = nullptr;
    tf2::fromMsg(b.lookupTransform(a, c, t), o);
    s.cur = n;
    return true;
  }
  void reset() { b = tf2::BufferCore(); }
};
}  // namespace world
#endif
