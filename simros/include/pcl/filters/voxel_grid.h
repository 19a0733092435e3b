#ifndef SIM_PCL_VOXEL_H
#define SIM_PCL_VOXEL_H
#include <algorithm>
#include <cfloat>
#include <pcl/point_types.h>
namespace pcl
{
template <class P>
class VoxelGrid
{
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in_ = c; }
  void setLeafSize(float x, float y, float z) { l_[0] = x; l_[1] = y; l_[2] = z; }
  void filter(PointCloud<P>& out)
  {
    out.header = in_->header;
    out.points.clear();
    out.width = out.height = 0;
    out.is_dense = true;
    if (in_->points.empty())
      return;
    float mn[3] = {FLT_MAX, FLT_MAX, FLT_MAX}, mx[3] = {-FLT_MAX, -FLT_MAX, -FLT_MAX};
    float inv[3];
    for (int k = 0; k < 3; ++k)
      inv[k] = 1.0f / l_[k];
    for (const P& p : in_->points)
      if (isFinite(p))
        for (int k = 0; k < 3; ++k)
        {
          mn[k] = std::min(mn[k], p.data[k]);
          mx[k] = std::max(mx[k], p.data[k]);
        }
    const double dx = std::floor((mx[0] - mn[0]) * static_cast<double>(inv[0])) + 1, dy = std::floor((mx[1] - mn[1]) * static_cast<double>(inv[1])) + 1,
                 dz = std::floor((mx[2] - mn[2]) * static_cast<double>(inv[2])) + 1;
    if (!(dx * dy * dz <= 2147483647.0))
    {
      out = *in_;  // "Leaf size is too small for the input dataset"
      return;
    }
    int mb[3], div[3];
    for (int k = 0; k < 3; ++k)
    {
      mb[k] = static_cast<int>(std::floor(mn[k] * inv[k]));
      div[k] = static_cast<int>(std::floor(mx[k] * inv[k])) - mb[k] + 1;
    }
    std::vector<std::pair<int64_t, size_t>> idx;
    for (size_t i = 0; i < in_->points.size(); ++i)
    {
      const P& p = in_->points[i];
      if (!isFinite(p))
        continue;
      int64_t a[3];
      for (int k = 0; k < 3; ++k)
        a[k] = static_cast<int64_t>(std::floor(p.data[k] * inv[k])) - mb[k];
      idx.emplace_back(a[0] + a[1] * div[0] + a[2] * div[0] * static_cast<int64_t>(div[1]), i);
    }
    std::sort(idx.begin(), idx.end());
    for (size_t i = 0; i < idx.size();)
    {
      float s[3] = {0, 0, 0};
      size_t j = i;
      for (; j < idx.size() && idx[j].first == idx[i].first; ++j)
        for (int k = 0; k < 3; ++k)
          s[k] += in_->points[idx[j].second].data[k];
      const float n = static_cast<float>(j - i);
      out.points.push_back(P(s[0] / n, s[1] / n, s[2] / n));
      i = j;
    }
    out.width = out.points.size();
    out.height = 1;
  }

private:
  typename PointCloud<P>::ConstPtr in_;
  float l_[3] = {0, 0, 0};
};
}
#endif
