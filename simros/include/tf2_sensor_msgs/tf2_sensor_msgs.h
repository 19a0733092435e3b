#ifndef SIM_TF2_SM_H
#define SIM_TF2_SM_H
#include <Eigen/Geometry>
#include <geometry_msgs/TransformStamped.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <tf2/convert.h>
namespace tf2
{
template <> inline void doTransform(const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const geometry_msgs::TransformStamped& t_in)
{
  out = in;
  out.header = t_in.header;
  const Eigen::Transform<float, 3, Eigen::Affine> t =
      Eigen::Translation3f(t_in.transform.translation.x, t_in.transform.translation.y, t_in.transform.translation.z) *
      Eigen::Quaternion<float>(t_in.transform.rotation.w, t_in.transform.rotation.x, t_in.transform.rotation.y, t_in.transform.rotation.z);
  sensor_msgs::PointCloud2ConstIterator<float> xi(in, "x"), yi(in, "y"), zi(in, "z");
  sensor_msgs::PointCloud2Iterator<float> xo(out, "x"), yo(out, "y"), zo(out, "z");
  for (; xi != xi.end(); ++xi, ++yi, ++zi, ++xo, ++yo, ++zo)
  {
    const Eigen::Vector3f p = t * Eigen::Vector3f(*xi, *yi, *zi);
    *xo = p.x();
    *yo = p.y();
    *zo = p.z();
  }
}
}
#endif
