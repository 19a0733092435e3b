// Helpers shared by the harnesses: poses, transforms, point clouds.
#ifndef WORLD_H
#define WORLD_H
#include <cmath>
#include <cstring>
#include <vector>
#include <sim/harness.h>
#include <ros/ros.h>
#include <geometry_msgs/TransformStamped.h>
#include <tf2_msgs/TFMessage.h>
#include <sensor_msgs/PointCloud2.h>
namespace world
{
using sim::ns_t;
struct Pose2
{
  double x = 0, y = 0, th = 0;
  Pose2() {}
  Pose2(double a, double b, double c) : x(a), y(b), th(c) {}
  Pose2 operator*(const Pose2& o) const
  {
    return Pose2(x + std::cos(th) * o.x - std::sin(th) * o.y, y + std::sin(th) * o.x + std::cos(th) * o.y, th + o.th);
  }
  Pose2 inv() const { return Pose2(-std::cos(th) * x - std::sin(th) * y, std::sin(th) * x - std::cos(th) * y, -th); }
  void apply(double px, double py, double& ox, double& oy) const
  {
    ox = x + std::cos(th) * px - std::sin(th) * py;
    oy = y + std::sin(th) * px + std::cos(th) * py;
  }
};
inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
inline geometry_msgs::Quaternion quatYaw(double y)
{
  geometry_msgs::Quaternion q;
  q.z = std::sin(y / 2);
  q.w = std::cos(y / 2);
  return q;
}
inline double yawOf(const geometry_msgs::Quaternion& q)
{
  return std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
}
inline geometry_msgs::TransformStamped tfMsg(const std::string& parent, const std::string& child, ns_t t, const Pose2& p, double z = 0)
{
  geometry_msgs::TransformStamped m;
  m.header.frame_id = parent;
  m.child_frame_id = child;
  m.header.stamp = sim::rosTime(t);
  m.transform.translation.x = p.x;
  m.transform.translation.y = p.y;
  m.transform.translation.z = z;
  m.transform.rotation = quatYaw(p.th);
  return m;
}
/// Publisher of /tf or /tf_static owned by the simulated world.
struct TfPub
{
  std::function<void(const tf2_msgs::TFMessage&)> dyn, stat;
  tf2_msgs::TFMessage st;
  explicit TfPub(sim::Sim& s) : dyn(s.pub<tf2_msgs::TFMessage>("/tf")), stat(s.pub<tf2_msgs::TFMessage>("/tf_static", true)) {}
  void send(const geometry_msgs::TransformStamped& t)
  {
    tf2_msgs::TFMessage m;
    m.transforms.push_back(t);
    dyn(m);
  }
  void sendStatic(const geometry_msgs::TransformStamped& t)
  {
    st.transforms.push_back(t);
    stat(st);
  }
};
struct P3
{
  double x, y, z;
};
inline sensor_msgs::PointCloud2 cloudMsg(const std::string& frame, ns_t stamp, const std::vector<P3>& pts, int extra_pad = 0)
{
  sensor_msgs::PointCloud2 c;
  c.header.frame_id = frame;
  c.header.stamp = sim::rosTime(stamp);
  c.height = 1;
  c.width = static_cast<uint32_t>(pts.size());
  const char* nm[3] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i)
  {
    sensor_msgs::PointField f;
    f.name = nm[i];
    f.offset = static_cast<uint32_t>(4 * i);
    f.datatype = sensor_msgs::PointField::FLOAT32;
    f.count = 1;
    c.fields.push_back(f);
  }
  c.point_step = static_cast<uint32_t>(16 + extra_pad);
  c.row_step = c.point_step * c.width;
  c.is_dense = true;
  c.data.resize(c.row_step);
  for (size_t i = 0; i < pts.size(); ++i)
  {
    float v[3] = {static_cast<float>(pts[i].x), static_cast<float>(pts[i].y), static_cast<float>(pts[i].z)};
    memcpy(&c.data[i * c.point_step], v, 12);
  }
  return c;
}
inline bool contains(const std::string& a, const char* b) { return a.find(b) != std::string::npos; }
}  // namespace world
#endif
