#ifndef SIM_PCL_TRANSFORMS_H
#define SIM_PCL_TRANSFORMS_H
#include <pcl/point_types.h>
namespace pcl
{
inline PointXYZ transformPoint(const PointXYZ& p, const Eigen::Affine3f& t)
{
  const Eigen::Vector3f v = t * p.getVector3fMap();
  PointXYZ r = p;
  r.x = v.x();
  r.y = v.y();
  r.z = v.z();
  return r;
}
template <class P>
void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Affine3f& t)
{
  if (&in != &out)
  {
    out.header = in.header;
    out.is_dense = in.is_dense;
    out.width = in.width;
    out.height = in.height;
    out.points = in.points;
  }
  for (auto& p : out.points)
    if (isFinite(p))
      p = transformPoint(p, t);
}
template <class P>
void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Matrix4f& m)
{
  transformPointCloud(in, out, Eigen::Affine3f(m));
}
}
#endif
