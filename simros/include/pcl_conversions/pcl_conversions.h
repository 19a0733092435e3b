#ifndef SIM_PCL_CONVERSIONS_H
#define SIM_PCL_CONVERSIONS_H
#include <pcl/point_types.h>
#include <ros/console.h>
#include <ros/time.h>
#include <sensor_msgs/PointCloud2.h>
#include <std_msgs/Header.h>
namespace pcl_conversions
{
inline ros::Time fromPCL(const uint64_t& s) { ros::Time t; t.fromNSec(s * 1000ull); return t; }
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ull; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& o) { o.seq = h.seq; o.stamp = toPCL(h.stamp); o.frame_id = h.frame_id; }
inline void fromPCL(const pcl::PCLHeader& h, std_msgs::Header& o) { o.seq = h.seq; o.stamp = fromPCL(h.stamp); o.frame_id = h.frame_id; }
}
namespace pcl
{
template <class P>
void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c)
{
  pcl_conversions::toPCL(m.header, c.header);
  c.width = m.width;
  c.height = m.height;
  c.is_dense = m.is_dense;
  const size_t n = static_cast<size_t>(m.width) * m.height;
  c.points.assign(n, P());
  const char* names[3] = {"x", "y", "z"};
  for (int k = 0; k < 3; ++k)
  {
    const sensor_msgs::PointField* f = nullptr;
    for (auto& g : m.fields)
      if (g.name == names[k] && g.datatype == 7)
        f = &g;
    if (!f)
    {
      ROS_WARN("Failed to find match for field '%s'.", names[k]);
      continue;
    }
    for (size_t i = 0; i < n; ++i)
    {
      const size_t off = (i / m.width) * m.row_step + (i % m.width) * m.point_step + f->offset;
      if (off + 4 <= m.data.size())
        memcpy(&c.points[i].data[k], &m.data[off], 4);
    }
  }
}
template <class P>
void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m)
{
  pcl_conversions::fromPCL(c.header, m.header);
  if (c.width == 0 && c.height == 0)
  {
    m.width = c.points.size();
    m.height = 1;
  }
  else
  {
    m.width = c.width;
    m.height = c.height;
  }
  m.fields.clear();
  const char* names[3] = {"x", "y", "z"};
  for (int k = 0; k < 3; ++k)
  {
    sensor_msgs::PointField f;
    f.name = names[k];
    f.offset = 4 * k;
    f.datatype = 7;
    f.count = 1;
    m.fields.push_back(f);
  }
  m.point_step = 16;
  m.row_step = 16 * m.width;
  m.is_bigendian = false;
  m.is_dense = c.is_dense;
  m.data.assign(static_cast<size_t>(m.row_step) * m.height, 0);
  for (size_t i = 0; i < c.points.size() && (i + 1) * 16 <= m.data.size(); ++i)
    memcpy(&m.data[i * 16], c.points[i].data, 12);
}
}
#endif
