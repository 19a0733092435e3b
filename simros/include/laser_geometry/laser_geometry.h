// Replacement of laser_geometry: planar projection of a scan into the scanner frame.
#ifndef SIM_LASER_GEOMETRY_H
#define SIM_LASER_GEOMETRY_H
#include <cmath>
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
namespace laser_geometry
{
class LaserProjection
{
public:
  void projectLaser(const sensor_msgs::LaserScan& s, sensor_msgs::PointCloud2& c, double range_cutoff = -1.0, int = 0)
  {
    c.header = s.header;
    c.height = 1;
    c.is_dense = false;
    sensor_msgs::PointCloud2Modifier m(c);
    m.setPointCloud2FieldsByString(1, "xyz");
    m.resize(s.ranges.size());
    if (range_cutoff < 0)
      range_cutoff = s.range_max;
    size_t n = 0;
    {
      sensor_msgs::PointCloud2Iterator<float> x(c, "x"), y(c, "y"), z(c, "z");
      for (size_t i = 0; i < s.ranges.size(); ++i)
      {
        const float r = s.ranges[i];
        if (!(r < range_cutoff && r >= s.range_min))
          continue;
        const double a = s.angle_min + s.angle_increment * static_cast<double>(i);
        *x = static_cast<float>(r * std::cos(a));
        *y = static_cast<float>(r * std::sin(a));
        *z = 0;
        ++x;
        ++y;
        ++z;
        ++n;
      }
    }
    m.resize(n);
  }
};
}
#endif
