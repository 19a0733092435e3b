#ifndef SIM_TF2_ROS_LISTENER_H
#define SIM_TF2_ROS_LISTENER_H
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformListener
{
public:
  TransformListener(tf2::BufferCore& buffer, bool spin_thread = true, ros::TransportHints = ros::TransportHints());
  TransformListener(tf2::BufferCore& buffer, const ros::NodeHandle& nh, bool spin_thread = true, ros::TransportHints = ros::TransportHints());
  ~TransformListener();

private:
  void init(tf2::BufferCore& b);
  std::shared_ptr<sim::SubHandle> a_, b_;
};
}
#endif
