#include <map_server/image_loader.h>
#include <cmath>
#include <fstream>
#include <iterator>
#include <sstream>
#include <stdexcept>
namespace map_server
{
static int number(const std::string& d, size_t& i, bool& ok)
{
  while (i < d.size() && (isspace(static_cast<unsigned char>(d[i])) || d[i] == '#'))
    if (d[i] == '#')
      while (i < d.size() && d[i] != '\n')
        ++i;
    else
      ++i;
  if (i >= d.size() || !isdigit(static_cast<unsigned char>(d[i])))
  {
    ok = false;
    return 0;
  }
  long v = 0;
  while (i < d.size() && isdigit(static_cast<unsigned char>(d[i])) && v < 100000000)
    v = v * 10 + (d[i++] - '0');
  return static_cast<int>(v);
}
void loadMapFromFile(nav_msgs::GetMap::Response* resp, const char* fname, double res, bool negate, double occ_th, double free_th, double* origin, MapMode mode)
{
  const std::string err = std::string("failed to open image file \"") + fname + "\"";
  std::ifstream f(fname, std::ios::binary);
  if (!f)
    throw std::runtime_error(err + ": Couldn't open");
  std::string d;
  char buf[4096];
  while (f.read(buf, sizeof buf) || f.gcount() > 0)
    d.append(buf, static_cast<size_t>(f.gcount()));
  if (f.bad() || d.size() < 2 || d[0] != 'P' || (d[1] != '5' && d[1] != '2'))
    throw std::runtime_error(err + ": Unsupported image format");
  bool ok = true;
  size_t i = 2;
  const int w = number(d, i, ok), h = number(d, i, ok), mx = number(d, i, ok);
  if (!ok || w <= 0 || h <= 0 || mx <= 0 || mx > 255 || static_cast<double>(w) * h > 1e8)
    throw std::runtime_error(err + ": Unable to read image width and height");
  std::vector<uint8_t> px(static_cast<size_t>(w) * h);
  if (d[1] == '5')
  {
    ++i;
    if (d.size() < i + px.size())
      throw std::runtime_error(err + ": Error reading from PNM");
    for (size_t k = 0; k < px.size(); ++k)
      px[k] = static_cast<uint8_t>(d[i + k]);
  }
  else
    for (auto& p : px)
    {
      p = static_cast<uint8_t>(number(d, i, ok));
      if (!ok)
        throw std::runtime_error(err + ": Error reading from PNM");
    }
  auto& m = resp->map;
  m.info.width = static_cast<uint32_t>(w);
  m.info.height = static_cast<uint32_t>(h);
  m.info.resolution = static_cast<float>(res);
  m.info.origin.position.x = origin[0];
  m.info.origin.position.y = origin[1];
  m.info.origin.position.z = 0;
  m.info.origin.orientation.x = 0;
  m.info.origin.orientation.y = 0;
  m.info.origin.orientation.z = std::sin(origin[2] / 2);
  m.info.origin.orientation.w = std::cos(origin[2] / 2);
  m.data.resize(px.size());
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
    {
      double c = px[static_cast<size_t>(y) * w + x];
      auto& o = m.data[static_cast<size_t>(h - y - 1) * w + x];
      if (negate)
        c = 255 - c;
      if (mode == RAW)
      {
        o = static_cast<int8_t>(c);
        continue;
      }
      const double occ = (255 - c) / 255.0;
      if (occ > occ_th)
        o = 100;
      else if (occ < free_th)
        o = 0;
      else if (mode == TRINARY)
        o = -1;
      else
        o = static_cast<int8_t>(1 + 98 * (occ - free_th) / (occ_th - free_th));
    }
}
}  // namespace map_server
