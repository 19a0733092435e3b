#ifndef SIM_TF2_ROS_BC_H
#define SIM_TF2_ROS_BC_H
#include <vector>
#include <ros/ros.h>
#include <geometry_msgs/TransformStamped.h>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  TransformBroadcaster();
  void sendTransform(const geometry_msgs::TransformStamped& t);
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& t);

private:
  ros::Publisher pub_;
};
class StaticTransformBroadcaster
{
public:
  StaticTransformBroadcaster();
  void sendTransform(const geometry_msgs::TransformStamped& t);
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& t);

private:
  ros::Publisher pub_;
  std::vector<geometry_msgs::TransformStamped> all_;
};
}
#endif
