#ifndef SIM_PCL_KDTREE_H
#define SIM_PCL_KDTREE_H
#include <algorithm>
#include <pcl/point_types.h>
namespace pcl
{
template <class P>
class KdTreeFLANN
{
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in_ = c; }
  int radiusSearch(const P& q, double r, std::vector<int>& idx, std::vector<float>& d, unsigned int max_nn = 0) const
  {
    std::vector<std::pair<float, int>> f;
    const float r2 = static_cast<float>(r * r);
    for (size_t i = 0; i < in_->points.size(); ++i)
    {
      const P& p = in_->points[i];
      if (!isFinite(p))
        continue;
      const float a = p.x - q.x, b = p.y - q.y, c = p.z - q.z;
      const float s = a * a + b * b + c * c;
      if (s < r2)
        f.emplace_back(s, static_cast<int>(i));
    }
    std::sort(f.begin(), f.end());
    if (max_nn && f.size() > max_nn)
      f.resize(max_nn);
    idx.clear();
    d.clear();
    for (auto& e : f)
    {
      idx.push_back(e.second);
      d.push_back(e.first);
    }
    return static_cast<int>(f.size());
  }
  int nearestKSearch(const P& q, int k, std::vector<int>& idx, std::vector<float>& d) const
  {
    return radiusSearch(q, 1e18, idx, d, static_cast<unsigned>(k));
  }

private:
  typename PointCloud<P>::ConstPtr in_;
};
}
#endif
