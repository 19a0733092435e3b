// costmap_3d (P17) against an independent layer-by-layer reference; local map generators (P18).
#include <array>
#include <world.h>
#include <Eigen/Geometry>
#include <costmap_cspace_msgs/CSpace3D.h>
#include <costmap_cspace_msgs/CSpace3DUpdate.h>
#include <nav_msgs/OccupancyGrid.h>
#include <sensor_msgs/LaserScan.h>
#include <xmlrpcpp/XmlRpcValue.h>
using namespace sim;
using namespace world;
int costmap_3d_main(int, char**);
int laserscan_to_map_main(int, char**);
int pointcloud2_to_map_main(int, char**);
int largemap_to_map_main(int, char**);
namespace
{
typedef boost::shared_ptr<const nav_msgs::OccupancyGrid> GridPtr;
struct Iv
{
  int8_t lo, hi;
};
struct Poly
{
  std::vector<std::pair<double, double>> v;  // open
  double radius() const
  {
    double r = 0;
    for (auto& p : v)
      r = std::max(r, std::hypot(p.first, p.second));
    return r;
  }
  // signed distance (negative inside) of a point
  double sdist(double x, double y) const
  {
    double d = 1e9;
    bool in = false;
    for (size_t i = 0; i < v.size(); ++i)
    {
      const auto &a = v[i], &b = v[(i + 1) % v.size()];
      const double ex = b.first - a.first, ey = b.second - a.second;
      const double l2 = ex * ex + ey * ey;
      double t = l2 > 0 ? ((x - a.first) * ex + (y - a.second) * ey) / l2 : 0;
      t = std::min(1.0, std::max(0.0, t));
      d = std::min(d, std::hypot(x - a.first - t * ex, y - a.second - t * ey));
      if ((a.second <= y) != (b.second <= y) && x < a.first + ex * (y - a.second) / ey)
        in = !in;
    }
    return in ? -d : d;
  }
};
struct Layer
{
  enum Type { FOOT, PLAIN, UNKNOWN, STOP } type = FOOT;
  std::string topic;
  bool overwrite = false, keep_unknown = false, is_static = false;
  double expand = 0, spread = 0;
  int min_cost = 0, unknown_cost = -1;
  Poly foot;
  GridPtr in;  // latest input processed
  // template for the current base
  int R = 0, rmax = 0;
  std::vector<Iv> tpl;
  const Iv& T(int x, int y, int a) const { return tpl[(static_cast<size_t>(a) * (2 * R + 1) + y + R) * (2 * R + 1) + x + R]; }
  void build(double res, int ang)
  {
    if (type != FOOT && type != PLAIN)
      return;
    const double rad = type == PLAIN ? 0 : foot.radius();
    rmax = static_cast<int>(std::ceil(static_cast<float>(rad + expand + spread) / static_cast<float>(res)));
    R = rmax + 1;
    tpl.assign(static_cast<size_t>(2 * R + 1) * (2 * R + 1) * ang, Iv{0, 0});
    const double tol = 3e-5;
    for (int a = 0; a < ang; ++a)
      for (int y = -R; y <= R; ++y)
        for (int x = -R; x <= R; ++x)
        {
          // robot at (x, y, a) relative to the obstacle: the obstacle in the robot frame
          double ox, oy;
          Pose2(x * res, y * res, a * 2 * M_PI / ang).inv().apply(0, 0, ox, oy);
          const double d = type == PLAIN ? std::hypot(ox, oy) : foot.sdist(ox, oy);
          auto cost = [&](double dd) {
            if (dd < expand || dd < 0)
              return 100.0;
            if (dd < expand + spread)
              return 100.0 - (dd - expand) * (100 - min_cost) / spread;
            return 0.0;
          };
          double lo = std::floor(cost(d + tol) - 1e-4), hi = std::floor(cost(d - tol) + 1e-4);
          if (std::abs(d) < tol)
            lo = std::min(lo, std::floor(cost(std::abs(d) + tol)));
          if (std::abs(d - expand - spread) < res / 100 + tol)
          {
            lo = 0;
            hi = std::max(hi, static_cast<double>(min_cost) + 1);
          }
          if ((type == PLAIN || rad == 0) && x == 0 && y == 0)
            lo = hi = 100;
          Iv& t = tpl[(static_cast<size_t>(a) * (2 * R + 1) + y + R) * (2 * R + 1) + x + R];
          t.lo = static_cast<int8_t>(std::max(0.0, std::min(lo, hi)));
          t.hi = static_cast<int8_t>(std::min(100.0, std::max(lo, hi)));
        }
  }
};
struct Cmap
{
  int w = 0, h = 0, n = 0;
  std::vector<Iv> c;
  Iv& at(int x, int y, int a) { return c[(static_cast<size_t>(a) * h + y) * w + x]; }
};
struct Base
{
  GridPtr g;
  int w = 0, h = 0, ang = 0;
  double res = 1, ox = 0, oy = 0;
};
void applyGrid(Cmap& m, const Layer& l, const nav_msgs::OccupancyGrid& g, const Base& b, bool root)
{
  const int ox = static_cast<int>(std::lround((g.info.origin.position.x - b.ox) / b.res));
  const int oy = static_cast<int>(std::lround((g.info.origin.position.y - b.oy) / b.res));
  const int gw = static_cast<int>(g.info.width), gh = static_cast<int>(g.info.height);
  auto in = [&](int x, int y) { return x >= 0 && y >= 0 && x < m.w && y < m.h; };
  for (int a = 0; a < m.n; ++a)
  {
    if (l.overwrite && !root)
      for (int y = l.rmax; y < gh - l.rmax; ++y)
        for (int x = l.rmax; x < gw - l.rmax; ++x)
          if (g.data[y * gw + x] >= 0 && in(x + ox, y + oy))
            m.at(x + ox, y + oy, a) = Iv{-1, -1};
    std::vector<int8_t> keep;
    if (l.keep_unknown)
    {
      keep.assign(g.data.size(), 0);
      for (int y = 0; y < gh; ++y)
        for (int x = 0; x < gw; ++x)
          if (g.data[y * gw + x] < 0 && in(x + ox, y + oy))
          {
            const Iv& c = m.at(x + ox, y + oy, a);
            keep[y * gw + x] = c.hi < 0 ? 2 : c.lo < 0 ? 1 : 0;
          }
    }
    for (int y = 0; y < gh; ++y)
      for (int x = 0; x < gw; ++x)
      {
        const int v = g.data[y * gw + x];
        if (v < 0 || !in(x + ox, y + oy))
          continue;
        if (v == 0)
        {
          Iv& c = m.at(x + ox, y + oy, a);
          c.lo = std::max<int8_t>(c.lo, 0);
          c.hi = std::max<int8_t>(c.hi, 0);
          continue;
        }
        for (int dy = -l.R; dy <= l.R; ++dy)
          for (int dx = -l.R; dx <= l.R; ++dx)
          {
            if (!in(x + ox + dx, y + oy + dy))
              continue;
            const Iv& t = l.T(dx, dy, a);
            if (!t.hi)
              continue;
            const int8_t cl = static_cast<int8_t>(t.lo * v / 100), ch = static_cast<int8_t>(t.hi * v / 100);
            Iv& c = m.at(x + ox + dx, y + oy + dy, a);
            if (cl > 0)
              c.lo = std::max(c.lo, cl);
            if (ch > 0)
              c.hi = std::max(c.hi, ch);
          }
      }
    for (size_t i = 0; i < keep.size(); ++i)
      if (keep[i])
      {
        Iv& c = m.at(static_cast<int>(i) % gw + ox, static_cast<int>(i) / gw + oy, a);
        c = keep[i] == 2 ? Iv{-1, -1} : Iv{-1, c.hi};
      }
  }
}
/// Composition of the layers [0, n) over the base.
Cmap compose(const Base& b, const std::vector<Layer>& L, size_t n)
{
  Cmap m;
  m.w = b.w;
  m.h = b.h;
  m.n = b.ang;
  m.c.assign(static_cast<size_t>(m.w) * m.h * m.n, Iv{-1, -1});
  Layer root = L[0];
  applyGrid(m, root, *b.g, b, true);
  for (int a = 0; a < m.n; ++a)
    for (int i = 0; i < m.w * m.h; ++i)
      if (b.g->data[i] < 0)
        m.c[static_cast<size_t>(a) * m.w * m.h + i] = Iv{-1, -1};
  for (size_t k = 1; k < n; ++k)
  {
    const Layer& l = L[k];
    switch (l.type)
    {
      case Layer::UNKNOWN:
        for (auto& c : m.c)
        {
          const int8_t u = static_cast<int8_t>(l.unknown_cost);
          if (c.hi < 0)
            c = Iv{u, u};
          else if (c.lo < 0)
            c = Iv{std::min<int8_t>(u, 0), std::max(u, c.hi)};
        }
        break;
      case Layer::STOP:
        for (auto& c : m.c)
          c = Iv{-1, -1};
        break;
      default:
        if (l.in && l.in->header.frame_id == b.g->header.frame_id)
          applyGrid(m, l, *l.in, b, false);
        break;
    }
  }
  return m;
}
nav_msgs::OccupancyGrid randomGrid(Rng& g, int w, int h, double res, double ox, double oy, const std::string& frame)
{
  nav_msgs::OccupancyGrid m;
  m.header.frame_id = frame;
  m.info.width = w;
  m.info.height = h;
  m.info.resolution = static_cast<float>(res);
  m.info.origin.position.x = ox;
  m.info.origin.position.y = oy;
  m.info.origin.orientation.w = 1;
  m.data.assign(static_cast<size_t>(w) * h, g.p(0.2) ? -1 : 0);
  auto put = [&](int x, int y, int v) {
    if (x >= 0 && y >= 0 && x < w && y < h)
      m.data[y * w + x] = static_cast<int8_t>(v);
  };
  auto val = [&] { return g.p(0.7) ? 100 : static_cast<int>(g.i(1, 100)); };
  const int nr = static_cast<int>(g.i(0, 3));
  for (int i = 0; i < nr; ++i)
  {
    const int x0 = static_cast<int>(g.i(0, w)), y0 = static_cast<int>(g.i(0, h)), dw = static_cast<int>(g.i(1, w)), dh = static_cast<int>(g.i(1, h));
    const int v = g.p(0.5) ? -1 : g.p(0.5) ? 0 : val();
    for (int y = y0; y < y0 + dh; ++y)
      for (int x = x0; x < x0 + dw; ++x)
        put(x, y, v);
  }
  const int nw = static_cast<int>(g.i(0, 4));
  for (int i = 0; i < nw; ++i)  // walls
  {
    double x = g.uni(0, w), y = g.uni(0, h);
    const double th = g.p(0.7) ? M_PI / 2 * static_cast<double>(g.i(0, 3)) : g.uni(0, 2 * M_PI);
    const int len = static_cast<int>(g.i(1, w)), v = val();
    for (int k = 0; k < len; ++k, x += std::cos(th), y += std::sin(th))
      put(static_cast<int>(std::floor(x)), static_cast<int>(std::floor(y)), v);
  }
  const int np = static_cast<int>(g.i(0, 6));
  for (int i = 0; i < np; ++i)
    put(static_cast<int>(g.i(0, w - 1)), static_cast<int>(g.i(0, h - 1)), val());
  if (g.p(0.1))
    for (auto& c : m.data)
      c = static_cast<int8_t>(g.p(0.5) ? c : val());
  return m;
}
Poly randomPoly(Rng& g, double scale)
{
  Poly p;
  const int k = static_cast<int>(g.i(0, 4));
  auto r2 = [](double v) { return std::round(v * 1000) / 1000; };
  if (k <= 1)  // rectangle, often long
  {
    const double f = g.uni(0.1, 1) * scale, b = -g.uni(0.0, 1) * scale, l = g.uni(0.05, 0.5) * scale, q = -g.uni(0.05, 0.5) * scale;
    p.v = {{r2(f), r2(l)}, {r2(b), r2(l)}, {r2(b), r2(q)}, {r2(f), r2(q)}};
    if (g.p(0.3))
      std::reverse(p.v.begin(), p.v.end());
  }
  else
  {
    const int n = k == 2 ? 3 : static_cast<int>(g.i(4, 8));
    for (int i = 0; i < n; ++i)
    {
      const double a = 2 * M_PI * (i + g.uni(0, 0.8)) / n, d = (k == 4 ? g.uni(0.2, 1) : g.uni(0.7, 1)) * scale;
      p.v.emplace_back(r2(d * std::cos(a)), r2(d * std::sin(a)));
    }
    if (g.p(0.15))
      for (auto& q : p.v)
        q.first = r2(q.first + scale * 0.8);  // rotation centre at the edge or outside
  }
  return p;
}
XmlRpc::XmlRpcValue toXml(const Poly& p)
{
  XmlRpc::XmlRpcValue v;
  v.setSize(static_cast<int>(p.v.size()));
  for (size_t i = 0; i < p.v.size(); ++i)
  {
    v[static_cast<int>(i)].setSize(2);
    v[static_cast<int>(i)][0] = p.v[i].first;
    v[static_cast<int>(i)][1] = p.v[i].second;
  }
  return v;
}

void layers(Run& r)
{
  struct St
  {
    std::vector<Layer> L;  // root first
    Base base;
    size_t n_static = 1;  // layers before the static output
    std::vector<std::vector<GridPtr>> pending;
    // consumer: the latest costmap and the latest update on it
    bool has = false, base_pub = false, upd_pub = false;
    int w = 0, h = 0, n = 0;
    std::vector<int8_t> view;
    boost::shared_ptr<const costmap_cspace_msgs::CSpace3DUpdate> upd;
    size_t last_in = 0;
    int changed = 0;
    uint64_t n_base = 0, n_upd = 0, n_empty = 0, n_part = 0, n_cells = 0, n_lethal = 0, n_amb = 0, n_buf = 0;
  };
  auto c = std::make_shared<St>();
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const bool compat = g.p(0.15);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string nn = "/costmap_3d", pn = nn + "/";
  const double res = g.pick({0.05, 0.1, 0.25, 1.0});
  const int ang = static_cast<int>(g.pick({1, 4, 8, 8, 12, 16}));
  const int maxR = static_cast<int>(g.i(1, 7));
  s.setParam(pn + "ang_resolution", ang);
  c->base.ang = ang;
  r.note("res", res);
  r.note("ang", ang);
  auto randExp = [&](Layer& l) {
    l.expand = g.p(0.4) ? 0 : std::round(g.uni(0, 0.5) * maxR * res * 100) / 100;
    l.spread = g.p(0.4) ? 0 : std::round(g.uni(0, 1) * maxR * res * 100) / 100;
    l.min_cost = g.p(0.6) ? 0 : static_cast<int>(g.i(0, 99));
  };
  Layer root;
  root.foot = randomPoly(g, res * g.uni(0.5, maxR));
  randExp(root);
  s.setParam(pn + "footprint", toXml(root.foot));
  s.setParam(pn + "linear_expand", root.expand);
  s.setParam(pn + "linear_spread", root.spread);
  s.setParam(pn + "linear_spread_min_cost", root.min_cost);
  c->L.push_back(root);
  static const char* TN[] = {"Costmap3dLayerFootprint", "Costmap3dLayerPlain", "Costmap3dLayerUnknownHandle", "Costmap3dLayerStopPropagation"};
  int topic_i = 0;
  auto mkLayers = [&](const char* key, bool st, int n) {
    XmlRpc::XmlRpcValue v;
    v.setSize(n);
    for (int i = 0; i < n; ++i)
    {
      Layer l;
      l.is_static = st;
      l.type = static_cast<Layer::Type>(g.p(0.6) ? 0 : g.i(0, 3));
      if (!st && i == 0 && g.p(0.4))
        l.type = Layer::STOP;
      l.topic = strf("/layer%d", topic_i++);
      l.overwrite = g.p(0.4);
      randExp(l);
      l.foot = root.foot;
      XmlRpc::XmlRpcValue e;
      e["name"] = l.topic;
      e["type"] = TN[l.type];
      e["overlay_mode"] = l.overwrite ? "overwrite" : "max";
      if (l.type == Layer::FOOT)
      {
        if (g.p(0.5))
        {
          l.foot = randomPoly(g, res * g.uni(0.5, maxR));
          e["footprint"] = toXml(l.foot);
        }
        if (g.p(0.4))
          e["keep_unknown"] = l.keep_unknown = g.p(0.7);
      }
      if (l.type == Layer::FOOT || l.type == Layer::PLAIN)
      {
        e["linear_expand"] = l.expand;
        e["linear_spread"] = l.spread;
        if (l.min_cost || g.p(0.3))
          e["linear_spread_min_cost"] = l.min_cost;
      }
      if (l.type == Layer::UNKNOWN && g.p(0.8))
        e["unknown_cost"] = l.unknown_cost = static_cast<int>(g.pick({0, 100, 50, 99, 30}));
      v[i] = e;
      r.note(st ? "static" : "layer", strf("%s%s%s", TN[l.type] + 14, l.overwrite ? "/ow" : "/max", l.keep_unknown ? "/keep" : ""));
      c->L.push_back(l);
    }
    s.setParam(pn + key, v);
  };
  if (g.p(0.4))
    mkLayers("static_layers", true, static_cast<int>(g.i(1, 2)));
  c->n_static = c->L.size();
  if (g.p(0.7))
    mkLayers("layers", false, static_cast<int>(g.i(1, 3)));
  else
  {
    Layer l;
    l.topic = "/map_overlay";
    l.overwrite = g.p(0.5);
    l.expand = root.expand;
    l.spread = root.spread;
    l.foot = root.foot;
    s.setParam(pn + "overlay_mode", l.overwrite ? "overwrite" : "max");
    r.note("single", l.overwrite ? "overwrite" : "max");
    c->L.push_back(l);
  }
  c->pending.resize(c->L.size());
  // inputs in the order the node processes them
  s.exec_taps.emplace(nn + " /map", [c](const std::string&, const MsgRef& m, Node*) {
    const auto* g0 = m.get<nav_msgs::OccupancyGrid>();
    c->base.g = GridPtr(boost::static_pointer_cast<const nav_msgs::OccupancyGrid>(m.p));
    c->base.w = static_cast<int>(g0->info.width);
    c->base.h = static_cast<int>(g0->info.height);
    c->base.res = g0->info.resolution;
    c->base.ox = g0->info.origin.position.x;
    c->base.oy = g0->info.origin.position.y;
    for (auto& l : c->L)
      l.build(c->base.res, c->base.ang);
    c->changed = 1;
  });
  for (size_t i = 1; i < c->L.size(); ++i)
    s.exec_taps.emplace(nn + " " + c->L[i].topic, [c, i](const std::string&, const MsgRef& m, Node*) {
      c->L[i].in = GridPtr(boost::static_pointer_cast<const nav_msgs::OccupancyGrid>(m.p));
      c->last_in = i;
      if (!c->base.g)
        ++c->n_buf;
      c->changed = c->L[i].is_static ? 1 : 2;
    });
  const std::string tb = compat ? "/costmap_3d/costmap" : "/costmap", tu = tb + "_update";
  s.tap<costmap_cspace_msgs::CSpace3D>(tb, [&, c](const costmap_cspace_msgs::CSpace3D& m, Node*) {
    ++c->n_base;
    c->base_pub = true;
    c->w = static_cast<int>(m.info.width);
    c->h = static_cast<int>(m.info.height);
    c->n = static_cast<int>(m.info.angle);
    r.expect(c->base.g && c->w == c->base.w && c->h == c->base.h && c->n == c->base.ang && m.data.size() == static_cast<size_t>(c->w) * c->h * c->n &&
                 m.info.linear_resolution == c->base.g->info.resolution && std::abs(m.info.angular_resolution - 2 * M_PI / c->base.ang) < 1e-5 &&
                 m.info.origin.position.x == c->base.ox && m.info.origin.position.y == c->base.oy && m.header.frame_id == c->base.g->header.frame_id,
             "P17", "base-geometry", [&] { return strf("costmap %dx%dx%d with %zu cells does not match the map %dx%d with %d angles", c->w, c->h, c->n, m.data.size(), c->base.w, c->base.h, c->base.ang); });
    c->has = m.data.size() == static_cast<size_t>(c->w) * c->h * c->n;
    c->view.assign(m.data.begin(), m.data.end());
    c->upd = nullptr;
    c->upd_pub = false;
  });
  s.tap<costmap_cspace_msgs::CSpace3DUpdate>(tu, [&, c](const costmap_cspace_msgs::CSpace3DUpdate& m, Node*) {
    ++c->n_upd;
    c->upd_pub = true;
    c->upd = boost::make_shared<costmap_cspace_msgs::CSpace3DUpdate>(m);
    const uint64_t x1 = static_cast<uint64_t>(m.x) + m.width, y1 = static_cast<uint64_t>(m.y) + m.height, a1 = static_cast<uint64_t>(m.yaw) + m.angle;
    const uint64_t n = static_cast<uint64_t>(m.width) * m.height * m.angle;
    const bool empty = m.width == 0 || m.height == 0;
    r.expect(c->has && (empty || (x1 <= static_cast<uint64_t>(c->w) && y1 <= static_cast<uint64_t>(c->h) && a1 <= static_cast<uint64_t>(c->n))) && m.data.size() == (empty ? 0 : n), "P17", "update-region",
             [&] { return strf("update at (%u %u %u) size %ux%ux%u with %zu cells on a %dx%dx%d costmap", m.x, m.y, m.yaw, m.width, m.height, m.angle, m.data.size(), c->w, c->h, c->n); });
    if (!c->has || r.failed)
      return;
    if (empty)
    {
      ++c->n_empty;
      return;
    }
    if (static_cast<int>(m.width) < c->w || static_cast<int>(m.height) < c->h)
      ++c->n_part;
  });
  Node* n = nullptr;
  s.cb_hooks.push_back([&, c](Node* k, const std::string&, bool begin) {
    if (k != n || begin || !c->changed)
      return;
    const int ch = c->changed;
    const bool bp = c->base_pub, up = c->upd_pub;
    c->changed = 0;
    c->base_pub = c->upd_pub = false;
    if (!c->base.g || r.failed)
      return;
    r.expect(c->has && (ch == 2 ? up : bp), "P17", "not-published", [&] { return strf("no %s was published for a new %s", ch == 2 ? "update" : "costmap", ch == 2 ? "layer input" : "map or static layer input"); });
    if (r.failed || !c->has)
      return;
    uint64_t h = 7;
    auto where = [&] {
      std::string lay;
      for (size_t i = 1; i < c->L.size(); ++i)
        if (c->L[i].in)
          lay += strf(" %s(%d,%d %dx%d)", c->L[i].topic.c_str(), static_cast<int>(std::lround((c->L[i].in->info.origin.position.x - c->base.ox) / c->base.res)),
                      static_cast<int>(std::lround((c->L[i].in->info.origin.position.y - c->base.oy) / c->base.res)), static_cast<int>(c->L[i].in->info.width), static_cast<int>(c->L[i].in->info.height));
      return lay;
    };
    Cmap st = compose(c->base, c->L, c->n_static);
    auto cmp = [&](int v, Iv e, int x, int y, int a, const char* what) {
      ++c->n_cells;
      c->n_lethal += v == 100;
      c->n_amb += e.lo != e.hi;
      h = h * 31 + static_cast<uint64_t>(v + 1);
      if (v < e.lo || v > e.hi)
        r.expect(false, "P17", v < e.lo ? (e.lo == 100 ? "lethal-cell-missing" : "cost-too-low") : "cost-too-high",
                 [&] { return strf("cell (%d,%d) angle %d: %s has %d, the layers give %d..%d (static part %d..%d); inputs:%s", x, y, a, what, v, e.lo, e.hi, st.at(x, y, a).lo, st.at(x, y, a).hi, where().c_str()); });
    };
    if (bp)
      for (int a = 0; a < c->n && !r.failed; ++a)
        for (int y = 0; y < c->h; ++y)
          for (int x = 0; x < c->w; ++x)
            cmp(c->view[(static_cast<size_t>(a) * c->h + y) * c->w + x], st.at(x, y, a), x, y, a, "the costmap");
    if (up && c->upd && !r.failed)
    {
      Cmap all = compose(c->base, c->L, c->L.size());
      const auto& u = *c->upd;
      for (int a = 0; a < c->n && !r.failed; ++a)
        for (int y = 0; y < c->h && !r.failed; ++y)
          for (int x = 0; x < c->w; ++x)
          {
            const Iv e = all.at(x, y, a), b = st.at(x, y, a);
            const int ux = x - static_cast<int>(u.x), uy = y - static_cast<int>(u.y), ua = a - static_cast<int>(u.yaw);
            if (ux >= 0 && uy >= 0 && ua >= 0 && ux < static_cast<int>(u.width) && uy < static_cast<int>(u.height) && ua < static_cast<int>(u.angle))
              cmp(u.data[(static_cast<size_t>(ua) * u.height + uy) * u.width + ux], e, x, y, a, "the update");
            else if (!bp && e.lo > 0 && b.hi < e.lo)
            {
              // a cost raised by the processed input has to be in the region
              const Layer& l = c->L[c->last_in];
              if (!l.in || l.in->header.frame_id != c->base.g->header.frame_id)
                continue;
              auto reach = [&](const Layer& k) {
                if (!k.in)
                  return false;
                const int ox = static_cast<int>(std::lround((k.in->info.origin.position.x - c->base.ox) / c->base.res)), oy = static_cast<int>(std::lround((k.in->info.origin.position.y - c->base.oy) / c->base.res));
                return x >= ox - k.rmax && y >= oy - k.rmax && x < ox + static_cast<int>(k.in->info.width) + k.rmax && y < oy + static_cast<int>(k.in->info.height) + k.rmax;
              };
              bool other = false;
              for (size_t i = c->n_static; i < c->L.size(); ++i)
                other = other || (i != c->last_in && (c->L[i].type == Layer::UNKNOWN || reach(c->L[i])));
              if (!other)
                r.expect(false, "P17", "update-region-too-small", [&] { return strf("cell (%d,%d) angle %d: cost %d..%d of the latest input is outside of the updated region (%u,%u %ux%u); inputs:%s", x, y, a, e.lo, e.hi, u.x, u.y, u.width, u.height, where().c_str()); });
            }
          }
    }
    s.state(mix64(h));
    r.nontrivial = r.nontrivial || c->n_upd > 0;
  });
  n = s.spawn(nn, costmap_3d_main);
  keepServing(r, n);
  const ns_t T = s.t_start;
  auto reset = [c] {
    c->base = Base{nullptr, 0, 0, c->base.ang, 1, 0, 0};
    for (auto& l : c->L)
      l.in = nullptr;
    c->has = c->base_pub = c->upd_pub = false;
    c->upd = nullptr;
    c->changed = 0;
  };
  auto pm = s.pub<nav_msgs::OccupancyGrid>("/map", true);
  std::vector<std::function<void(const nav_msgs::OccupancyGrid&)>> pl(c->L.size());
  for (size_t i = 1; i < c->L.size(); ++i)
    pl[i] = s.pub<nav_msgs::OccupancyGrid>(c->L[i].topic, g.p(0.3));
  // world: current base geometry (for the generation of overlays)
  struct Geo
  {
    int w = 10, h = 10;
    double ox = 0, oy = 0;
    double px = 5, py = 5;
  };
  auto geo = std::make_shared<Geo>();
  const int big = static_cast<int>(g.i(6, 26));
  auto sendMap = [=, &r](uint64_t k) {
    Rng q(r.seed, "map" + std::to_string(k));
    if (k == 0 || q.p(0.4))
    {
      geo->w = static_cast<int>(q.i(4, big));
      geo->h = static_cast<int>(q.i(4, big));
      geo->ox = static_cast<double>(q.i(-20, 20)) * res * 0.5;
      geo->oy = static_cast<double>(q.i(-20, 20)) * res * 0.5;
    }
    auto m = randomGrid(q, geo->w, geo->h, res, geo->ox, geo->oy, "map");
    m.header.stamp = rosTime(r.sim.now);
    pm(m);
  };
  auto sendOverlay = [=, &r](size_t i, uint64_t k) {
    Rng q(r.seed, "ov" + std::to_string(k));
    const int mode = static_cast<int>(q.i(0, 9));
    // windows follow a wandering robot, jump, or leave the map
    if (mode < 6)
    {
      geo->px += static_cast<double>(q.i(-3, 3));
      geo->py += static_cast<double>(q.i(-3, 3));
      geo->px = std::min<double>(geo->w + 2, std::max<double>(-2, geo->px));
      geo->py = std::min<double>(geo->h + 2, std::max<double>(-2, geo->py));
    }
    else if (mode < 9)
    {
      geo->px = static_cast<double>(q.i(0, geo->w));
      geo->py = static_cast<double>(q.i(0, geo->h));
    }
    else
    {
      geo->px = static_cast<double>(q.i(-geo->w - 8, 2 * geo->w + 8));
      geo->py = static_cast<double>(q.i(-geo->h - 8, 2 * geo->h + 8));
    }
    const int w = static_cast<int>(q.p(0.1) ? q.i(1, 2 * big) : q.i(2, std::max(3, big / 2))), h = q.p(0.7) ? w : static_cast<int>(q.i(1, big));
    const double sx = q.uni(-0.4, 0.4), sy = q.uni(-0.4, 0.4);
    auto m = randomGrid(q, w, h, res, geo->ox + (std::floor(geo->px - w / 2) + sx) * res, geo->oy + (std::floor(geo->py - h / 2) + sy) * res, q.p(0.05) ? "odom" : "map");
    m.header.stamp = rosTime(r.sim.now - static_cast<ns_t>(q.uni(0, 0.2) * SEC));
    pl[i](m);
  };
  Rng o = r.rng("ops");
  const int nops = static_cast<int>(o.i(3, 22));
  const ns_t chaos = T + sec(10);
  const double t_map = o.p(0.6) ? 0.1 : o.uni(0.1, 4);
  r.op(T + sec(t_map), "map 0", [=] { sendMap(0); });
  bool burst = o.p(0.3);
  for (int i = 1; i <= nops; ++i)
  {
    const ns_t t = T + sec(burst ? 1 + 0.01 * static_cast<double>(o.i(0, 40)) : o.uni(0.05, 9.9));
    const int k = static_cast<int>(o.i(0, 11));
    // unknown handling and stop-propagation layers have no input
    std::vector<size_t> cand;
    for (size_t j = 1; j < c->L.size(); ++j)
      if (c->L[j].type == Layer::FOOT || c->L[j].type == Layer::PLAIN)
        cand.push_back(j);
    const uint64_t pick = o.u64();
    const size_t li = cand.empty() ? 1 : cand[pick % cand.size()];
    if (k == 0 || cand.empty())
      r.op(t, strf("map %d", i), [=] { sendMap(static_cast<uint64_t>(i)); });
    else
      r.op(t, strf("input of %s #%d", c->L[li].topic.c_str(), i), [=] { sendOverlay(li, static_cast<uint64_t>(i)); });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/layer", "/map", ">/costmap_3d"};
    mix.max_delay = 1.0;
    netFaults(r, mix, T + sec(0.5), chaos, 5);
    stallFaults(r, {nn}, T, chaos, 3, 1.5);
    if (g.p(0.2))
      r.faultAt("crash", nn + " restart", T + sec(g.uni(0.5, 9)), [&s, n, reset] {
        s.kill(n);
        reset();
        s.after(sec(0.3), [&s, n] { s.restart(n); });
      });
  }
  s.run(chaos + 3 * SEC);
  r.expect(c->n_base > 0 || !c->base.g, "P17", "dead", [&] { return std::string("no costmap was published"); });
  s.probe("cm.costmaps", c->n_base);
  s.probe("cm.updates", c->n_upd);
  s.probe("cm.partial_updates", c->n_part);
  s.probe("cm.empty_updates", c->n_empty);
  s.probe("cm.buffered_overlays", c->n_buf);
  s.probe("cm.cells_checked", c->n_cells);
  s.probe("cm.cells_lethal", c->n_lethal);
  s.probe("cm.cells_with_tolerance", c->n_amb);
}
// ---------------------------------------------------------------------------------------------
// Local map generators.
struct Motion
{
  // constant velocities: interpolation of transforms is exact however many samples are lost
  double x0, y0, z0, th0, vx, vy, vz, w;
  ns_t t0;
  Eigen::Isometry3d mount = Eigen::Isometry3d::Identity();
  Eigen::Isometry3d base(ns_t t) const
  {
    const double d = (t - t0) * 1e-9;
    return Eigen::Translation3d(x0 + vx * d, y0 + vy * d, z0 + vz * d) * Eigen::AngleAxisd(th0 + w * d, Eigen::Vector3d::UnitZ());
  }
};
geometry_msgs::TransformStamped tfOf(const std::string& parent, const std::string& child, ns_t t, const Eigen::Isometry3d& p)
{
  geometry_msgs::TransformStamped m;
  m.header.frame_id = parent;
  m.child_frame_id = child;
  m.header.stamp = rosTime(t);
  m.transform.translation.x = p.translation().x();
  m.transform.translation.y = p.translation().y();
  m.transform.translation.z = p.translation().z();
  const Eigen::Quaterniond q(p.linear());
  m.transform.rotation.x = q.x();
  m.transform.rotation.y = q.y();
  m.transform.rotation.z = q.z();
  m.transform.rotation.w = q.w();
  return m;
}
Motion randomMotion(Rng& g, ns_t t0)
{
  Motion m;
  m.t0 = t0;
  m.x0 = g.uni(-3, 3);
  m.y0 = g.uni(-3, 3);
  m.z0 = g.p(0.5) ? 0 : g.uni(-1, 1);
  m.th0 = g.uni(-3, 3);
  const bool mv = g.p(0.8);
  m.vx = mv ? g.uni(-0.8, 0.8) : 0;
  m.vy = mv ? g.uni(-0.8, 0.8) : 0;
  m.vz = g.p(0.3) ? g.uni(-0.1, 0.1) : 0;
  m.w = g.p(0.7) ? g.uni(-0.7, 0.7) : 0;
  return m;
}
/// What the node under test has received of the transform tree.
struct TfSeen
{
  bool stat = false, need_stat = true;
  ns_t oldest = T_MAX, newest = 0;
  std::vector<std::pair<ns_t, ns_t>> arr;  // (arrival, newest stamp so far)
  void reset()
  {
    stat = false;
    oldest = T_MAX;
    newest = 0;
    arr.clear();
  }
  void attach(Sim& s, const std::string& nn)
  {
    s.onRecv<tf2_msgs::TFMessage>(nn, "/tf", [this, &s](const tf2_msgs::TFMessage& m, Node*) {
      for (auto& t : m.transforms)
      {
        const ns_t k = static_cast<ns_t>(t.header.stamp.toNSec());
        oldest = std::min(oldest, k);
        newest = std::max(newest, k);
      }
      arr.emplace_back(s.now, newest);
    });
    s.onRecv<tf2_msgs::TFMessage>(nn, "/tf_static", [this](const tf2_msgs::TFMessage&, Node*) { stat = true; });
  }
  // when the transform at t became available
  ns_t since(ns_t t) const
  {
    if ((need_stat && !stat) || t < oldest)
      return T_MAX;
    for (auto& a : arr)
      if (a.second >= t)
        return a.first;
    return T_MAX;
  }
};

void localT(Run& r, bool laser)
{
  struct Shot
  {
    ns_t stamp;
    int stream;
    bool sure;
    std::vector<Eigen::Vector3d> p;  // map frame
  };
  struct St
  {
    TfSeen tf;
    std::vector<Shot> shots;
    ns_t latest[2] = {0, 0}, last[2] = {0, 0};  // newest pushed for sure / stamp of the last processed message
    bool what = false;
    Shot cur;
    ns_t t_begin = 0, last_pub = 0, last_fail = 0;
    std::vector<boost::shared_ptr<nav_msgs::OccupancyGrid>> outs;
    uint64_t n_msg = 0, n_fail = 0, n_amb = 0, n_pub = 0, n_occ = 0, n_multi = 0, n_zcut = 0, n_expired = 0;
  };
  auto c = std::make_shared<St>();
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const bool compat = g.p(0.15);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string nn = laser ? "/laserscan_to_map" : "/pointcloud2_to_map", pn = nn + "/";
  double z_min = laser ? -1e300 : 0.1, z_max = laser ? 1e300 : 1.0, dur = 1.0, res = 0.1, hz = 1.0;
  int width = 30;
  auto P = [&](const char* k, double& v, double nv) {
    if (g.p(0.8))
      s.setParam(pn + k, v = nv);
  };
  P("z_min", z_min, g.uni(-0.6, 0.3));
  P("z_max", z_max, g.uni(0.4, 1.2));
  P("accum_duration", dur, g.pick({0.0, 0.05, 0.3, 1.0, 2.0, 3.0}));
  P("resolution", res, g.pick({0.05, 0.1, 0.2, 0.5}));
  P("hz", hz, g.pick({1.0, 5.0, 10.0, 30.0}));
  if (g.p(0.8))
    s.setParam(pn + "width", width = static_cast<int>(g.i(5, 60)));
  r.note("accum", dur);
  r.note("res", res);
  r.note("hz", hz);
  r.note("width", width);
  const ns_t T = s.t_start;
  auto mo = std::make_shared<Motion>(randomMotion(g, T));
  if (g.p(0.8))
    mo->mount = Eigen::Translation3d(g.uni(-0.5, 0.5), g.uni(-0.5, 0.5), g.uni(0, 0.8)) * Eigen::AngleAxisd(g.p(0.3) ? M_PI : g.uni(-3, 3), Eigen::Vector3d::UnitZ()) *
                Eigen::AngleAxisd(g.p(0.5) ? 0 : g.uni(-0.3, 0.3), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(g.p(0.6) ? 0 : g.uni(-0.3, 0.3), Eigen::Vector3d::UnitX());
  c->tf.attach(s, nn);
  auto nodeNow = [&s] { return s.now + (s.cur ? s.cur->debt : 0); };
  auto begin = [&, c](ns_t stamp, int stream, const std::vector<Eigen::Vector3d>& pts) {
    c->what = true;
    c->t_begin = nodeNow();
    c->cur = Shot{stamp, stream, false, {}};
    const Eigen::Isometry3d w = mo->base(stamp) * mo->mount;
    for (auto& p : pts)
      c->cur.p.push_back(w * p);
    ++c->n_msg;
  };
  if (laser)
    s.onExec<sensor_msgs::LaserScan>(nn, "/scan", [begin](const sensor_msgs::LaserScan& m, Node*) {
      std::vector<Eigen::Vector3d> p;
      for (size_t i = 0; i < m.ranges.size(); ++i)
        if (m.ranges[i] >= m.range_min && m.ranges[i] < m.range_max)
        {
          const double a = m.angle_min + m.angle_increment * static_cast<double>(i);
          p.emplace_back(m.ranges[i] * std::cos(a), m.ranges[i] * std::sin(a), 0);
        }
      begin(static_cast<ns_t>(m.header.stamp.toNSec()), 0, p);
    });
  else
    for (int k = 0; k < 2; ++k)
      s.onExec<sensor_msgs::PointCloud2>(nn, k ? "/cloud_singleshot" : "/cloud", [begin, k](const sensor_msgs::PointCloud2& m, Node*) {
        std::vector<Eigen::Vector3d> p;
        for (size_t i = 0; i < m.width; ++i)
        {
          float v[3];
          memcpy(v, &m.data[i * m.point_step], 12);
          p.emplace_back(v[0], v[1], v[2]);
        }
        begin(static_cast<ns_t>(m.header.stamp.toNSec()), k, p);
      });
  const std::string out = compat ? nn + "/map" : "/map_local";
  s.tap<nav_msgs::OccupancyGrid>(out, [&, c](const nav_msgs::OccupancyGrid& m, Node*) {
    r.expect(c->what, "P18", "spontaneous-map", [&] { return std::string("map published without an input"); });
    c->outs.push_back(boost::make_shared<nav_msgs::OccupancyGrid>(m));
  });
  Node* n = nullptr;
  s.cb_hooks.push_back([&, c, nn, dur, z_min, z_max, width, res](Node* k, const std::string&, bool begin_cb) {
    if (k != n)
      return;
    if (begin_cb)
    {
      c->outs.clear();
      return;
    }
    if (!c->what)
      return;
    c->what = false;
    const ns_t now = nodeNow();
    const ns_t t_av = c->tf.since(c->cur.stamp), dl = c->t_begin + 500 * MS;
    const bool amb = t_av != T_MAX && t_av > dl - 5 * MS, ok = t_av < dl - 5 * MS;
    const int st = c->cur.stream;
    c->n_amb += amb;
    c->n_fail += !ok && !amb;
    if (!ok)
      c->last_fail = now;
    if (ok || amb)
    {
      c->cur.sure = ok;
      c->shots.push_back(c->cur);
      if (ok)
      {
        c->latest[st] = std::max(c->latest[st], c->cur.stamp);
        c->last[st] = c->cur.stamp;
      }
      else
        c->latest[st] = std::max(c->latest[st], c->cur.stamp);
    }
    if (c->outs.empty())
      return;
    r.expect(c->outs.size() == 1, "P18", "repeated-map", [&] { return std::string("several maps from one input"); });
    r.expect(ok || amb, "P18", "map-without-transform", [&] { return std::string("map published although the transform of the scan was not available"); });
    const auto& m = *c->outs[0];
    ++c->n_pub;
    c->last_pub = now;
    const double e = 2e-4 + 1e-5 * 60;
    const Eigen::Vector3d rp = mo->base(c->tf.newest).translation();
    const double ox = m.info.origin.position.x, oy = m.info.origin.position.y, R = m.info.resolution;
    r.expect(m.header.frame_id == "map" && static_cast<int>(m.info.width) == width && static_cast<int>(m.info.height) == width && m.data.size() == static_cast<size_t>(width) * width && std::abs(R - res) < 1e-6 &&
                 m.info.origin.orientation.w == 1,
             "P18", "window-geometry", [&] { return strf("map %ux%u resolution %.3f frame %s", m.info.width, m.info.height, R, m.header.frame_id.c_str()); });
    r.expect(std::abs(ox + width * R / 2 - rp.x()) < R * 1.01 + e && std::abs(oy + width * R / 2 - rp.y()) < R * 1.01 + e, "P18", "window-not-centred",
             [&] { return strf("window centre (%.3f, %.3f), robot (%.3f, %.3f)", ox + width * R / 2, oy + width * R / 2, rp.x(), rp.y()); });
    if (r.failed)
      return;
    std::vector<uint8_t> can(m.data.size(), 0);
    std::string miss;
    int used = 0;
    for (auto& sh : c->shots)
    {
      const ns_t exp = sh.stamp + sec(dur) * (sh.stream == 0);
      const bool must = sh.sure && exp >= c->latest[sh.stream] + 2 * US * (sh.stamp != c->latest[sh.stream]);
      const bool may = exp + 2 * US >= c->last[sh.stream];
      if (!may)
      {
        ++c->n_expired;
        continue;
      }
      ++used;
      for (auto& p : sh.p)
      {
        const double z = p.z() - rp.z();
        const bool zin = z > z_min + e && z < z_max - e, zmay = z > z_min - e && z < z_max + e;
        c->n_zcut += !zmay;
        if (!zmay)
          continue;
        const double fx = (p.x() - ox) / R, fy = (p.y() - oy) / R, te = e / R;
        const int x0 = static_cast<int>(std::floor(fx - te)), x1 = static_cast<int>(std::floor(fx + te)), y0 = static_cast<int>(std::floor(fy - te)), y1 = static_cast<int>(std::floor(fy + te));
        for (int y = y0; y <= y1; ++y)
          for (int x = x0; x <= x1; ++x)
            if (x >= 0 && y >= 0 && x < width && y < width)
              can[y * width + x] = 1;
        if (must && zin && x0 == x1 && y0 == y1 && x0 >= 0 && y0 >= 0 && x0 < width && y0 < width && m.data[y0 * width + x0] != 100 && miss.empty())
          miss = strf("point (%.3f %.3f %.3f) of the scan %.3f s before the last one in cell (%d,%d) is not on the map (value %d)", p.x(), p.y(), p.z(), (c->latest[sh.stream] - sh.stamp) * 1e-9, x0, y0, m.data[y0 * width + x0]);
      }
    }
    c->n_multi += used > 1;
    r.expect(miss.empty(), "P18", "obstacle-missing", [&] { return miss; });
    int occ = 0;
    for (size_t i = 0; i < m.data.size() && !r.failed; ++i)
    {
      occ += m.data[i] == 100;
      r.expect(m.data[i] == 0 || m.data[i] == 100, "P18", "cell-value", [&] { return strf("cell value %d", m.data[i]); });
      r.expect(m.data[i] != 100 || can[i], "P18", "ghost-obstacle", [&] { return strf("cell (%zu,%zu) is occupied without any point of a retained scan in it (%zu scans so far, accumulation %.2f s)", i % width, i / width, c->shots.size(), dur); });
    }
    c->n_occ += occ;
    s.state(mix64(hashStr(std::to_string(occ)) ^ used));
    r.nontrivial = r.nontrivial || occ > 0;
    // forget scans which can't be used anymore
    for (size_t i = 0; i < c->shots.size();)
      if (c->shots[i].stamp + sec(dur) + 20 * SEC < now)
        c->shots.erase(c->shots.begin() + static_cast<long>(i));
      else
        ++i;
  });
  n = s.spawn(nn, laser ? laserscan_to_map_main : pointcloud2_to_map_main);
  keepServing(r, n);
  TfPub* tf = new TfPub(s);
  if (g.p(0.15))
    s.every(T, 20 * MS, [=, &s] { tf->send(tfOf("map", "base_link", s.now, mo->base(s.now))); });
  else
  {
    const double p = g.pick({0.01, 0.02, 0.05, 0.1});
    s.every(T + sec(g.uni(0, p)), sec(p), [=, &s] { tf->send(tfOf("map", "base_link", s.now, mo->base(s.now))); });
  }
  tf->sendStatic(tfOf("base_link", "sensor", T, mo->mount));
  const ns_t chaos = T + sec(g.uni(6, 12)), end = chaos + 5 * SEC;
  auto silent = std::make_shared<std::array<int, 2>>();
  (*silent)[0] = (*silent)[1] = 0;
  const int ng = static_cast<int>(g.i(0, 4));
  for (int i = 0; i < ng; ++i)
  {
    const double d = g.logu(0.05, 4);
    const int k = laser ? 0 : static_cast<int>(g.i(0, 1));
    r.op(T + sec(g.uni(0.5, (chaos - T) * 1e-9 - 0.1)), strf("sensor%d silent for %.2f s", k, d), [=, &s] {
      ++(*silent)[k];
      s.after(sec(d), [=] { --(*silent)[k]; });
    });
  }
  const double extent = width * res * 0.8;
  for (int k = 0; k < (laser ? 1 : 2); ++k)
  {
    const double per = k ? g.pick({0.3, 1.0, 3.0}) : g.pick({0.025, 0.05, 0.1, 0.2, 0.5});
    const double lag = g.p(0.5) ? 0 : g.uni(0, 0.15);
    auto cnt = std::make_shared<uint64_t>(0);
    const int np = static_cast<int>(g.i(1, 25));
    const double flat = g.p(0.3) ? 1 : 0;
    auto pl = laser ? s.pub<sensor_msgs::LaserScan>("/scan") : nullptr;
    auto pc = laser ? nullptr : s.pub<sensor_msgs::PointCloud2>(k ? "/cloud_singleshot" : "/cloud");
    if (k == 1 && g.p(0.4))
      continue;
    s.every(T + sec(0.3 + g.uni(0, per)), sec(per), [=, &s, &r] {
      if ((*silent)[k])
        return;
      Rng q(r.seed, "scan" + std::to_string(k) + "/" + std::to_string((*cnt)++));
      const ns_t st = s.now - sec(lag);
      if (laser)
      {
        sensor_msgs::LaserScan m;
        m.header.frame_id = "sensor";
        m.header.stamp = rosTime(st);
        m.angle_min = -2.0f;
        m.angle_increment = 4.0f / np;
        m.angle_max = 2.0f;
        m.range_min = 0.05f;
        m.range_max = 30;
        for (int i = 0; i < np; ++i)
          m.ranges.push_back(static_cast<float>(q.p(0.1) ? q.pick({0.0, 0.01, 30.0, 50.0, static_cast<double>(INFINITY), static_cast<double>(NAN)}) : q.uni(0.1, extent)));
        pl(m);
      }
      else
      {
        std::vector<P3> v;
        const int nq = q.p(0.1) ? 0 : np;
        for (int i = 0; i < nq; ++i)
          v.push_back(P3{q.uni(-extent, extent), q.uni(-extent, extent), flat ? 0.3 : q.uni(-0.8, 1.5)});
        pc(cloudMsg("sensor", st, v, q.p(0.3) ? 4 : 0));
      }
    });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {laser ? "/scan>" : "/cloud", "/tf>", "/tf>", ">" + nn};
    mix.max_delay = 1.2;
    netFaults(r, mix, T, chaos, 6);
    stallFaults(r, {nn}, T, chaos, 3, 2.0);
    if (g.p(0.15))
      r.faultAt("crash", nn + " restart", T + sec(g.uni(0.5, (chaos - T) * 1e-9)), [&s, n, c] {
        s.kill(n);
        c->tf.reset();
        c->shots.clear();
        c->what = false;
        c->latest[0] = c->latest[1] = c->last[0] = c->last[1] = 0;
        s.after(sec(0.3), [&s, n] { s.restart(n); });
      });
  }
  s.run(end);
  // (a backlog of inputs older than the transforms is worked off at 0.5 s each)
  r.expect(c->last_pub > end - sec(2.0 / hz + 1.5) || c->last_fail > end - sec(2.0 / hz + 1.5), "P18", "no-map", [&] { return strf("no map in the last %.1f s although sensor and transforms are available", (end - c->last_pub) * 1e-9); });
  s.probe("local.inputs", c->n_msg);
  s.probe("local.inputs_without_transform", c->n_fail);
  s.probe("local.inputs_ambiguous", c->n_amb);
  s.probe("local.maps", c->n_pub);
  s.probe("local.maps_accumulated", c->n_multi);
  s.probe("local.occupied_cells", c->n_occ);
  s.probe("local.points_out_of_height", c->n_zcut);
  s.probe("local.expired_scans", c->n_expired);
}
void scan(Run& r) { localT(r, true); }
void cloud(Run& r) { localT(r, false); }

void large(Run& r)
{
  struct St
  {
    TfSeen tf;
    GridPtr lm;
    uint64_t n_pub = 0, n_cells = 0, n_occl = 0, n_unk = 0;
    ns_t last_pub = 0;
  };
  auto c = std::make_shared<St>();
  c->tf.need_stat = false;
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const bool compat = g.p(0.15);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string nn = "/largemap_to_map", pn = nn + "/";
  int width = 30;
  double hz = 1;
  if (g.p(0.8))
    s.setParam(pn + "width", width = static_cast<int>(g.i(3, 40)));
  if (g.p(0.8))
    s.setParam(pn + "hz", hz = g.pick({0.5, 1.0, 5.0, 10.0}));
  bool opt[3] = {false, false, false};
  const char* on[3] = {"round_local_map", "simulate_occlusion", "simulate_surrounded"};
  for (int i = 0; i < 3; ++i)
    if (g.p(0.4))
    {
      s.setParam(pn + on[i], opt[i] = g.p(0.85));
      if (opt[i])
        r.note(on[i], 1);
    }
  const bool rnd = opt[0], occl = opt[1], surr = opt[2];
  r.note("width", width);
  r.note("hz", hz);
  const double res = g.pick({0.05, 0.1, 0.25, 1.0});
  c->tf.attach(s, nn);
  const ns_t T = s.t_start;
  auto mo = std::make_shared<Motion>(randomMotion(g, T));
  s.exec_taps.emplace(nn + " /map", [c](const std::string&, const MsgRef& m, Node*) { c->lm = GridPtr(boost::static_pointer_cast<const nav_msgs::OccupancyGrid>(m.p)); });
  s.tap<nav_msgs::OccupancyGrid>(compat ? nn + "/map" : "/map_local", [&, c](const nav_msgs::OccupancyGrid& m, Node*) {
    ++c->n_pub;
    c->last_pub = s.now;
    r.expect(c->lm && c->tf.newest > 0, "P18", "spontaneous-map", [&] { return std::string("map published without a large map or a transform"); });
    if (r.failed)
      return;
    const auto& L = *c->lm;
    const double R = m.info.resolution, ox = m.info.origin.position.x, oy = m.info.origin.position.y;
    r.expect(static_cast<int>(m.info.width) == width && static_cast<int>(m.info.height) == width && m.data.size() == static_cast<size_t>(width) * width && m.info.resolution == L.info.resolution && m.header.frame_id == L.header.frame_id, "P18", "window-geometry",
             [&] { return strf("map %ux%u with %zu cells, resolution %.3f", m.info.width, m.info.height, m.data.size(), R); });
    const Eigen::Vector3d rp = mo->base(c->tf.newest).translation();
    r.expect(std::abs(ox + width * R / 2 - rp.x()) < R * 1.01 + 1e-3 && std::abs(oy + width * R / 2 - rp.y()) < R * 1.01 + 1e-3, "P18", "window-not-centred",
             [&] { return strf("window centre (%.3f, %.3f), robot (%.3f, %.3f)", ox + width * R / 2, oy + width * R / 2, rp.x(), rp.y()); });
    if (r.failed)
      return;
    const double hw = width / 2.0;
    // possible values of a cell before occlusion: bit0 -1, bit1 100, set of others
    struct Pv
    {
      bool unk = false, occ = false;
      std::set<int> v;
    };
    std::vector<Pv> pv(m.data.size());
    for (int ly = 0; ly < width; ++ly)
      for (int lx = 0; lx < width; ++lx)
      {
        Pv& p = pv[ly * width + lx];
        const double rr = std::hypot(lx + 0.5 - hw, ly + 0.5 - hw);
        const bool ring = surr && rr < hw - 0.8 && rr > hw - 1.2, ring_may = surr && rr < hw + 0.8 && rr > hw - 2.8;
        const bool outc = rnd && rr > hw + 0.8, out_may = rnd && rr > hw - 0.8;
        if (ring_may)
          p.v.insert(100);
        if (out_may)
          p.v.insert(-1);
        if (!ring && !outc)
        {
          const double fx = (ox + (lx + 0.5) * R - L.info.origin.position.x) / R - 0.5, fy = (oy + (ly + 0.5) * R - L.info.origin.position.y) / R - 0.5;
          for (int y = static_cast<int>(std::ceil(fy - 0.51)); y <= fy + 0.51; ++y)
            for (int x = static_cast<int>(std::ceil(fx - 0.51)); x <= fx + 0.51; ++x)
              p.v.insert(x < 0 || y < 0 || x >= static_cast<int>(L.info.width) || y >= static_cast<int>(L.info.height) ? -1 : L.data[y * L.info.width + x]);
        }
        p.unk = p.v.count(-1);
        p.occ = p.v.count(100);
      }
    auto rayDist = [&](double cx, double cy, double bx, double by, double& along) {
      const double dx = cx - hw, dy = cy - hw, l = std::hypot(dx, dy);
      if (l < 1e-9)
        return 1e9;
      along = ((bx - hw) * dx + (by - hw) * dy) / l;
      return std::abs((bx - hw) * dy - (by - hw) * dx) / l;
    };
    for (int ly = 0; ly < width && !r.failed; ++ly)
      for (int lx = 0; lx < width && !r.failed; ++lx)
      {
        const int v = m.data[ly * width + lx];
        const Pv& p = pv[ly * width + lx];
        ++c->n_cells;
        c->n_unk += v < 0;
        bool ok = p.v.count(v);
        if (occl && !ok && v == -1)
        {
          // hidden: needs an obstacle near the line of sight
          for (int by = 0; by < width && !ok; ++by)
            for (int bx = 0; bx < width && !ok; ++bx)
              if (pv[by * width + bx].occ && (bx != lx || by != ly))
              {
                double a0, a1;
                const double l = std::hypot(lx + 0.5 - hw, ly + 0.5 - hw);
                const double d0 = rayDist(lx, ly, bx + 0.5, by + 0.5, a0), d1 = rayDist(lx + 0.5, ly + 0.5, bx + 0.5, by + 0.5, a1);
                ok = (d0 < 1.5 && a0 > 0 && a0 < l + 0.5) || (d1 < 1.5 && a1 > 0 && a1 < l + 0.5);
              }
          c->n_occl += ok;
        }
        r.expect(ok, "P18", v == 100 ? "ghost-obstacle" : p.occ && p.v.size() == 1 ? "obstacle-missing" : "window-content", [&] {
          std::string e;
          for (int k : p.v)
            e += strf(" %d", k);
          return strf("cell (%d,%d) is %d, expected one of:%s", lx, ly, v, e.c_str());
        });
        if (occl && v >= 0 && !r.failed)
          for (int by = 0; by < width && !r.failed; ++by)
            for (int bx = 0; bx < width; ++bx)
              if (m.data[by * width + bx] == 100)
              {
                double a0 = 0, a1 = 0;
                const double l = std::hypot(lx - hw, ly - hw);
                const double d0 = rayDist(lx, ly, bx + 0.5, by + 0.5, a0), d1 = rayDist(lx + 0.5, ly + 0.5, bx + 0.5, by + 0.5, a1);
                if (d0 < 0.2 && d1 < 0.2 && a0 > 1.8 && a1 > 1.8 && a0 < l - 2.5 && a1 < l - 2.5)
                {
                  r.expect(false, "P18", "occlusion-ignored", [&] { return strf("cell (%d,%d) is visible (%d) behind the obstacle in cell (%d,%d)", lx, ly, v, bx, by); });
                  break;
                }
              }
      }
    s.state(mix64(static_cast<uint64_t>(std::llround(ox * 100)) * 1000003 + static_cast<uint64_t>(std::llround(oy * 100))));
    r.nontrivial = true;
  });
  Node* n = s.spawn(nn, largemap_to_map_main);
  keepServing(r, n);
  TfPub* tf = new TfPub(s);
  const double p = g.pick({0.01, 0.02, 0.05, 0.1});
  s.every(T + sec(g.uni(0, p)), sec(p), [=, &s] { tf->send(tfOf("map", "base_link", s.now, mo->base(s.now))); });
  auto pm = s.pub<nav_msgs::OccupancyGrid>("/map", true);
  Rng o = r.rng("ops");
  const ns_t chaos = T + sec(o.uni(5, 10)), end = chaos + sec(4 + 2 / hz);
  const int nm = static_cast<int>(o.i(1, 4));
  for (int i = 0; i < nm; ++i)
    r.op(T + sec(i ? o.uni(0.2, (chaos - T) * 1e-9) : 0.1), strf("map %d", i), [=, &r] {
      Rng q(r.seed, "lmap" + std::to_string(i));
      const int w = static_cast<int>(q.i(5, 80)), h = static_cast<int>(q.i(5, 80));
      auto m = randomGrid(q, w, h, res, -w * res * q.uni(0.1, 0.9), -h * res * q.uni(0.1, 0.9), "map");
      if (q.p(0.5))
      {
        m.info.origin.position.x = std::floor(m.info.origin.position.x / res) * res;
        m.info.origin.position.y = std::floor(m.info.origin.position.y / res) * res;
      }
      m.header.stamp = rosTime(r.sim.now);
      pm(m);
    });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/map>", "/tf>", ">" + nn};
    mix.max_delay = 1.2;
    netFaults(r, mix, T, chaos, 5);
    stallFaults(r, {nn}, T, chaos, 3, 2.0);
    if (g.p(0.15))
      r.faultAt("crash", nn + " restart", T + sec(g.uni(0.5, (chaos - T) * 1e-9)), [&s, n, c] {
        s.kill(n);
        c->tf.reset();
        c->lm = nullptr;
        s.after(sec(0.3), [&s, n] { s.restart(n); });
      });
  }
  s.run(end);
  r.expect(!c->lm || c->last_pub > end - sec(1.5 / hz + 0.5), "P18", "no-map", [&] { return strf("no map in the last %.1f s although large map and transforms are available", (end - c->last_pub) * 1e-9); });
  s.probe("large.maps", c->n_pub);
  s.probe("large.cells", c->n_cells);
  s.probe("large.cells_unknown", c->n_unk);
  s.probe("large.cells_occluded", c->n_occl);
}
struct Init
{
  Init()
  {
    harness().real = "costmap_3d node with all its layers, laserscan_to_map, pointcloud2_to_map, largemap_to_map nodes";
    harness().stub = "roscpp, tf2, laser_geometry replaced by simros; map and sensor sources simulated";
  }
} init_;
Register r1("layers", {{"P17", 1.0}}, layers);
Register r2("scan", {{"P18", 1.0}}, scan);
Register r3("cloud", {{"P18", 1.0}}, cloud);
Register r4("large", {{"P18", 0.7}}, large);
}  // namespace
