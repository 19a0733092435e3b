#ifndef SIM_TT_CONVERTER_H
#define SIM_TT_CONVERTER_H
#include <nav_msgs/Path.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
namespace trajectory_tracker_msgs
{
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const double vel)
{
  PathWithVelocity d;
  d.header = src.header;
  d.poses.resize(src.poses.size());
  for (size_t i = 0; i < src.poses.size(); ++i)
  {
    d.poses[i].header = src.poses[i].header;
    d.poses[i].pose = src.poses[i].pose;
    d.poses[i].linear_velocity.x = vel;
    d.poses[i].linear_velocity.y = d.poses[i].linear_velocity.z = 0;
  }
  return d;
}
inline nav_msgs::Path toPath(const PathWithVelocity& src)
{
  nav_msgs::Path d;
  d.header = src.header;
  d.poses.resize(src.poses.size());
  for (size_t i = 0; i < src.poses.size(); ++i)
  {
    d.poses[i].header = src.poses[i].header;
    d.poses[i].pose = src.poses[i].pose;
  }
  return d;
}
}
#endif
