#ifndef SIM_TF2_GM_H
#define SIM_TF2_GM_H
#include <geometry_msgs/Point.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PoseWithCovariance.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <geometry_msgs/Transform.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <tf2/LinearMath/Transform.h>
#include <tf2/convert.h>
namespace tf2
{
// Vector3
inline geometry_msgs::Vector3 toMsg(const Vector3& in) { geometry_msgs::Vector3 o; o.x = in.x(); o.y = in.y(); o.z = in.z(); return o; }
inline void fromMsg(const geometry_msgs::Vector3& in, Vector3& out) { out = Vector3(in.x, in.y, in.z); }
// Point
inline geometry_msgs::Point& toMsg(const Vector3& in, geometry_msgs::Point& o) { o.x = in.x(); o.y = in.y(); o.z = in.z(); return o; }
inline void fromMsg(const geometry_msgs::Point& in, Vector3& out) { out = Vector3(in.x, in.y, in.z); }
// Quaternion
inline geometry_msgs::Quaternion toMsg(const Quaternion& in) { geometry_msgs::Quaternion o; o.x = in.x(); o.y = in.y(); o.z = in.z(); o.w = in.w(); return o; }
inline void fromMsg(const geometry_msgs::Quaternion& in, Quaternion& out) { out = Quaternion(in.x, in.y, in.z, in.w); }
inline geometry_msgs::QuaternionStamped toMsg(const Stamped<Quaternion>& in)
{
  geometry_msgs::QuaternionStamped o;
  o.header.stamp = in.stamp_;
  o.header.frame_id = in.frame_id_;
  o.quaternion = toMsg(static_cast<const Quaternion&>(in));
  return o;
}
inline void fromMsg(const geometry_msgs::QuaternionStamped& m, Stamped<Quaternion>& out)
{
  out.stamp_ = m.header.stamp;
  out.frame_id_ = m.header.frame_id;
  Quaternion q;
  fromMsg(m.quaternion, q);
  out.setData(q);
}
// Pose
inline geometry_msgs::Pose& toMsg(const Transform& in, geometry_msgs::Pose& o) { toMsg(in.getOrigin(), o.position); o.orientation = toMsg(in.getRotation()); return o; }
inline void fromMsg(const geometry_msgs::Pose& in, Transform& out)
{
  out.setOrigin(Vector3(in.position.x, in.position.y, in.position.z));
  out.setRotation(Quaternion(in.orientation.x, in.orientation.y, in.orientation.z, in.orientation.w));
}
inline geometry_msgs::PoseStamped& toMsg(const Stamped<Transform>& in, geometry_msgs::PoseStamped& o) { o.header.stamp = in.stamp_; o.header.frame_id = in.frame_id_; toMsg(static_cast<const Transform&>(in), o.pose); return o; }
inline void fromMsg(const geometry_msgs::PoseStamped& m, Stamped<Transform>& out) { out.stamp_ = m.header.stamp; out.frame_id_ = m.header.frame_id; Transform t; fromMsg(m.pose, t); out.setData(t); }
// Transform
inline geometry_msgs::Transform toMsg(const Transform& in) { geometry_msgs::Transform o; o.translation = toMsg(in.getOrigin()); o.rotation = toMsg(in.getRotation()); return o; }
inline void fromMsg(const geometry_msgs::Transform& in, Transform& out)
{
  out.setOrigin(Vector3(in.translation.x, in.translation.y, in.translation.z));
  out.setRotation(Quaternion(in.rotation.x, in.rotation.y, in.rotation.z, in.rotation.w));
}
inline void fromMsg(const geometry_msgs::TransformStamped& m, Stamped<Transform>& out) { out.stamp_ = m.header.stamp; out.frame_id_ = m.header.frame_id; Transform t; fromMsg(m.transform, t); out.setData(t); }
inline geometry_msgs::TransformStamped toMsg(const Stamped<Transform>& in)
{
  geometry_msgs::TransformStamped o;
  o.header.stamp = in.stamp_;
  o.header.frame_id = in.frame_id_;
  o.transform = toMsg(static_cast<const Transform&>(in));
  return o;
}
inline const geometry_msgs::PoseStamped& toMsg(const geometry_msgs::PoseStamped& m) { return m; }

inline Transform tfOf(const geometry_msgs::TransformStamped& t) { Transform r; fromMsg(t.transform, r); return r; }
template <> inline void doTransform(const geometry_msgs::Point& in, geometry_msgs::Point& out, const geometry_msgs::TransformStamped& t)
{
  toMsg(tfOf(t) * Vector3(in.x, in.y, in.z), out);
}
template <> inline void doTransform(const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.point, out.point, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <> inline void doTransform(const geometry_msgs::Vector3& in, geometry_msgs::Vector3& out, const geometry_msgs::TransformStamped& t)
{
  out = toMsg(tfOf(t).getBasis() * Vector3(in.x, in.y, in.z));
}
template <> inline void doTransform(const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.vector, out.vector, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <> inline void doTransform(const geometry_msgs::Quaternion& in, geometry_msgs::Quaternion& out, const geometry_msgs::TransformStamped& t)
{
  Quaternion q(t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z, t.transform.rotation.w);
  out = toMsg(q * Quaternion(in.x, in.y, in.z, in.w));
}
template <> inline void doTransform(const geometry_msgs::QuaternionStamped& in, geometry_msgs::QuaternionStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.quaternion, out.quaternion, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <> inline void doTransform(const geometry_msgs::Pose& in, geometry_msgs::Pose& out, const geometry_msgs::TransformStamped& t)
{
  Transform p;
  fromMsg(in, p);
  toMsg(tfOf(t) * p, out);
}
template <> inline void doTransform(const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.pose, out.pose, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <> inline void doTransform(const geometry_msgs::PoseWithCovarianceStamped& in, geometry_msgs::PoseWithCovarianceStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.pose.pose, out.pose.pose, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
  // covariance rotation: C' = R C R^T on both 3x3 blocks
  const Matrix3x3 r = tfOf(t).getBasis();
  double R[6][6] = {}, T[6][6] = {};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      R[i][j] = R[i + 3][j + 3] = r[i][j];
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j)
      for (int k = 0; k < 6; ++k)
        T[i][j] += R[i][k] * in.pose.covariance[k * 6 + j];
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j)
    {
      double s = 0;
      for (int k = 0; k < 6; ++k)
        s += T[i][k] * R[j][k];
      out.pose.covariance[i * 6 + j] = s;
    }
}
template <> inline void doTransform(const geometry_msgs::TransformStamped& in, geometry_msgs::TransformStamped& out, const geometry_msgs::TransformStamped& t)
{
  Transform p;
  fromMsg(in.transform, p);
  const std::string child = in.child_frame_id;
  out.transform = toMsg(tfOf(t) * p);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
  out.child_frame_id = child;
}
}  // namespace tf2
#endif
