#ifndef SIM_PCL_VTK_LIB_IO_H
#define SIM_PCL_VTK_LIB_IO_H
// Loaders with the results PCL's have: the number of polygons (0 if the OBJ file cannot be read), -1 if a PCD file cannot be read.
#include <cstdio>
#include <sstream>
#include <string>
#include <pcl/point_types.h>
namespace pcl
{
namespace io
{
inline bool slurp(const std::string& f, std::string& o)
{
  FILE* p = fopen(f.c_str(), "rb");
  if (!p)
    return false;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), p)) > 0)
    o.append(b, n);
  const bool ok = !ferror(p);
  fclose(p);
  return ok;
}
inline int loadPolygonFileOBJ(const std::string& f, PolygonMesh& m)
{
  m.cloud.pts.clear();
  m.polygons.clear();
  std::string d;
  if (!slurp(f, d))
    return 0;
  std::istringstream in(d);
  std::string l;
  while (std::getline(in, l))
  {
    std::istringstream s(l);
    std::string w;
    s >> w;
    if (w == "v")
    {
      float x, y, z;
      if (!(s >> x >> y >> z))
      {
        m.cloud.pts.clear();
        m.polygons.clear();
        return 0;
      }
      m.cloud.pts.emplace_back(x, y, z);
    }
    else if (w == "f")
    {
      Vertices v;
      while (s >> w)
      {
        const long i = strtol(w.c_str(), nullptr, 10);
        const long n = static_cast<long>(m.cloud.pts.size());
        if (i > n || i == 0 || i < -n)
        {
          m.cloud.pts.clear();
          m.polygons.clear();
          return 0;
        }
        v.vertices.push_back(static_cast<uint32_t>(i > 0 ? i - 1 : n + i));
      }
      if (v.vertices.size() < 2)
      {
        m.cloud.pts.clear();
        m.polygons.clear();
        return 0;
      }
      m.polygons.push_back(v);
    }
  }
  if (m.cloud.pts.empty())
    m.polygons.clear();
  return static_cast<int>(m.polygons.size());
}
template <class P>
int loadPCDFile(const std::string& f, PointCloud<P>& c)
{
  std::string d;
  if (!slurp(f, d))
    return -1;
  std::istringstream in(d);
  std::string l;
  size_t n = 0;
  bool data = false;
  while (!data && std::getline(in, l))
  {
    std::istringstream s(l);
    std::string w;
    s >> w;
    if (w == "POINTS")
      s >> n;
    data = w == "DATA";
  }
  if (!data)
    return -1;
  c.points.clear();
  float x, y, z;
  while (in >> x >> y >> z)
    c.points.emplace_back(x, y, z);
  if (c.points.size() != n)
    return -1;
  c.width = n;
  c.height = 1;
  c.is_dense = true;
  return 0;
}
}
}
#endif
