#ifndef SIM_TF2_ROS_BUFFER_H
#define SIM_TF2_ROS_BUFFER_H
#include <deque>
#include <map>
#include <set>
#include <string>
#include <ros/ros.h>
#include <geometry_msgs/TransformStamped.h>
#include <tf2/LinearMath/Transform.h>
#include <tf2/convert.h>
#include <tf2/exceptions.h>
namespace tf2
{
/// Re-implementation of tf2::BufferCore: per-frame time cache (10 s), interpolation, the exception classes of tf2.
class BufferCore
{
public:
  explicit BufferCore(ros::Duration cache = ros::Duration(10.0)) : cache_(cache.toNSec()) {}
  virtual ~BufferCore() {}
  void clear() { frames_.clear(); }
  bool setTransform(const geometry_msgs::TransformStamped& t, const std::string& authority, bool is_static = false);
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t) const;
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                  const ros::Time& st, const std::string& fixed) const;
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string* err = nullptr) const;
  bool canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                    const std::string& fixed, std::string* err = nullptr) const;
  std::vector<std::string> frames() const { std::vector<std::string> r; for (auto& f : frames_) r.push_back(f.first); return r; }

private:
  struct E
  {
    int64_t t;
    Vector3 p;
    Quaternion q;
    std::string parent;
  };
  struct F
  {
    bool is_static = false;
    std::deque<E> d;  // oldest first
  };
  std::map<std::string, F> frames_;
  std::set<std::string> known_;
  int64_t cache_;
  bool at(const std::string& f, int64_t t, E& out, std::string* err) const;
  const std::string* parent(const std::string& f, int64_t t) const;
  int latest(const std::string& target, const std::string& source, int64_t& t, std::string* err) const;
  int compute(const std::string& target, const std::string& source, int64_t t, Transform& out, int64_t& used, std::string* err) const;
};
}  // namespace tf2
namespace tf2_ros
{
class Buffer : public tf2::BufferCore
{
public:
  explicit Buffer(ros::Duration cache = ros::Duration(10.0), bool debug = false) : tf2::BufferCore(cache) { (void)debug; }
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t,
                                                  const ros::Duration timeout = ros::Duration(0.0)) const;
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                  const ros::Time& st, const std::string& fixed,
                                                  const ros::Duration timeout = ros::Duration(0.0)) const;
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t,
                    const ros::Duration timeout = ros::Duration(0.0), std::string* err = nullptr) const;
  bool canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                    const std::string& fixed, const ros::Duration timeout = ros::Duration(0.0), std::string* err = nullptr) const;
  template <class T> T& transform(const T& in, T& out, const std::string& target, ros::Duration timeout = ros::Duration(0.0)) const
  {
    tf2::doTransform(in, out, lookupTransform(target, tf2::getFrameId(in), tf2::getTimestamp(in), timeout));
    return out;
  }
  template <class T> T transform(const T& in, const std::string& target, ros::Duration timeout = ros::Duration(0.0)) const
  {
    T out;
    transform(in, out, target, timeout);
    return out;
  }
  template <class T> T& transform(const T& in, T& out, const std::string& target, const ros::Time& tt, const std::string& fixed,
                                  ros::Duration timeout = ros::Duration(0.0)) const
  {
    tf2::doTransform(in, out, lookupTransform(target, tt, tf2::getFrameId(in), tf2::getTimestamp(in), fixed, timeout));
    return out;
  }
  template <class T> T transform(const T& in, const std::string& target, const ros::Time& tt, const std::string& fixed,
                                 ros::Duration timeout = ros::Duration(0.0)) const
  {
    T out;
    transform(in, out, target, tt, fixed, timeout);
    return out;
  }
  void setUsingDedicatedThread(bool) {}
};
}  // namespace tf2_ros
#endif
