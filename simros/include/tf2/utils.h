#ifndef SIM_TF2_UTILS_H
#define SIM_TF2_UTILS_H
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <tf2/LinearMath/Transform.h>
#include <tf2/transform_datatypes.h>
namespace tf2
{
namespace impl
{
inline Quaternion toQuaternion(const geometry_msgs::Quaternion& q) { return Quaternion(q.x, q.y, q.z, q.w); }
inline Quaternion toQuaternion(const geometry_msgs::QuaternionStamped& q) { return toQuaternion(q.quaternion); }
inline Quaternion toQuaternion(const Quaternion& q) { return q; }
inline void getEulerYPR(const Quaternion& q, double& yaw, double& pitch, double& roll)
{
  const double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999)
  {
    pitch = -0.5 * M_PI;
    roll = 0;
    yaw = -2 * std::atan2(q.y(), q.x());
  }
  else if (sarg >= 0.99999)
  {
    pitch = 0.5 * M_PI;
    roll = 0;
    yaw = 2 * std::atan2(q.y(), q.x());
  }
  else
  {
    pitch = std::asin(sarg);
    roll = std::atan2(2 * (q.y() * q.z() + q.w() * q.x()), sqw - sqx - sqy + sqz);
    yaw = std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
  }
}
inline double getYaw(const Quaternion& q)
{
  double y, p, r;
  getEulerYPR(q, y, p, r);
  return y;
}
}
template <class A> void getEulerYPR(const A& a, double& y, double& p, double& r) { impl::getEulerYPR(impl::toQuaternion(a), y, p, r); }
template <class A> double getYaw(const A& a) { return impl::getYaw(impl::toQuaternion(a)); }
template <class A> A getTransformIdentity() { A t; t.setIdentity(); return t; }
}
#endif
