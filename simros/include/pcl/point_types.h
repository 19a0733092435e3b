#ifndef SIM_PCL_POINT_TYPES_H
#define SIM_PCL_POINT_TYPES_H
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
namespace pcl
{
struct PCLHeader
{
  uint32_t seq = 0;
  uint64_t stamp = 0;
  std::string frame_id;
};
struct alignas(16) PointXYZ
{
  union
  {
    float data[4];
    struct { float x, y, z; };
  };
  PointXYZ() : data{0, 0, 0, 1} {}
  PointXYZ(float a, float b, float c) : data{a, b, c, 1} {}
  PointXYZ(const PointXYZ&) = default;
  PointXYZ& operator=(const PointXYZ&) = default;
  Eigen::Vector3f getVector3fMap() const { return Eigen::Vector3f(x, y, z); }
};
inline bool isFinite(const PointXYZ& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
template <class P>
class PointCloud
{
public:
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef P PointType;
  typedef std::vector<P> VectorType;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  PCLHeader header;
  VectorType points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); width = n; height = 1; }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  P& operator[](size_t i) { return points[i]; }
  const P& operator[](size_t i) const { return points[i]; }
  P& at(size_t i) { return points.at(i); }
  const P& at(size_t i) const { return points.at(i); }
  void push_back(const P& p) { points.push_back(p); width = points.size(); height = 1; }
  iterator erase(iterator a) { iterator r = points.erase(a); width = points.size(); height = 1; return r; }
  iterator erase(iterator a, iterator b) { iterator r = points.erase(a, b); width = points.size(); height = 1; return r; }
  void clear() { points.clear(); width = height = 0; }
  PointCloud& operator+=(const PointCloud& o)
  {
    if (o.header.stamp > header.stamp)
      header.stamp = o.header.stamp;
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = points.size();
    height = 1;
    is_dense = is_dense && o.is_dense;
    return *this;
  }
  Ptr makeShared() const { return Ptr(new PointCloud(*this)); }
};
struct PCLPointCloud2
{
  PCLHeader header;
  std::vector<PointXYZ> pts;
};
struct Vertices
{
  std::vector<uint32_t> vertices;
};
struct PolygonMesh
{
  typedef boost::shared_ptr<PolygonMesh> Ptr;
  PCLHeader header;
  PCLPointCloud2 cloud;
  std::vector<Vertices> polygons;
};
inline void fromPCLPointCloud2(const PCLPointCloud2& m, PointCloud<PointXYZ>& c)
{
  c.header = m.header;
  c.points = m.pts;
  c.width = m.pts.size();
  c.height = 1;
}
}  // namespace pcl
#endif
