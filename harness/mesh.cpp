// obj_to_pointcloud (P28): random meshes and point clouds on a disk with faults.
#include <errno.h>
#include <fstream>
#include <unistd.h>
#include <world.h>
#include <sim/io.h>
using namespace sim;
using namespace world;
int obj_to_pointcloud_main(int, char**);
namespace
{
const char* const PN = "/obj_to_pointcloud";
struct V
{
  double x, y, z;
  V operator+(const V& o) const { return {x + o.x, y + o.y, z + o.z}; }
  V operator-(const V& o) const { return {x - o.x, y - o.y, z - o.z}; }
  V operator*(double k) const { return {x * k, y * k, z * k}; }
  double dot(const V& o) const { return x * o.x + y * o.y + z * o.z; }
  double len() const { return std::sqrt(dot(*this)); }
};
V cross(const V& a, const V& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
struct Tri
{
  V p[3];
  double area() const { return 0.5 * cross(p[1] - p[0], p[2] - p[0]).len(); }
  /// Distance of a point to the triangle.
  double dist(const V& q) const
  {
    const V a = p[1] - p[0], b = p[2] - p[0], n = cross(a, b);
    double best = 1e300;
    if (n.len() > 1e-12)
    {
      const V h = n * (1 / n.len());
      const double d = h.dot(q - p[0]);
      const V f = q - h * d;
      bool in = true;
      for (int i = 0; i < 3; ++i)
        in = in && cross(p[(i + 1) % 3] - p[i], f - p[i]).dot(h) >= 0;
      if (in)
        return std::abs(d);
    }
    for (int i = 0; i < 3; ++i)
    {
      const V e = p[(i + 1) % 3] - p[i];
      const double l = e.dot(e), t = l > 0 ? std::max(0.0, std::min(1.0, e.dot(q - p[i]) / l)) : 0;
      best = std::min(best, (q - (p[i] + e * t)).len());
    }
    return best;
  }
};
struct File
{
  std::string name;
  bool obj = true, good = true;
  std::vector<V> v;
  std::vector<std::vector<int>> f;
};
struct Mesh
{
  Run& r;
  Sim& s;
  Node* n = nullptr;
  std::vector<File> files;
  std::vector<Tri> tris;
  std::vector<V> pts;
  double ppm = 600, leaf = 0.05, scale = 1;
  V off{0, 0, 0};
  std::string frame = "map";
  bool good = true;      // every file is readable and made of triangles
  bool io_fault = false; // an access failed
  bool crash_at_read = false;
  int clouds = 0, late = 0;
  uint64_t first = 0;
  explicit Mesh(Run& rr) : r(rr), s(rr.sim) {}
  void onCloud(const sensor_msgs::PointCloud2& m)
  {
    ++clouds;
    r.expect(good && !io_fault, "P28", "cloud-of-unreadable", [&] { return strf("cloud of %u points although the input is not readable", m.width * m.height); });
    r.expect(clouds == 1, "P28", "again", [&] { return std::string("published once more"); });
    r.expect(m.header.frame_id == frame, "P28", "frame", [&] { return "frame " + m.header.frame_id + " instead of " + frame; });
    if (r.failed || !good || io_fault)
      return;
    std::vector<V> c;
    size_t o[3] = {0, 4, 8};
    for (auto& f : m.fields)
      for (int k = 0; k < 3; ++k)
        if (f.name == std::string(1, static_cast<char>('x' + k)))
          o[k] = f.offset;
    for (size_t i = 0; i < static_cast<size_t>(m.width) * m.height; ++i)
    {
      float q[3];
      for (int k = 0; k < 3; ++k)
        memcpy(&q[k], &m.data[i * m.point_step + o[k]], 4);
      c.push_back({q[0], q[1], q[2]});
    }
    const double diag = leaf * std::sqrt(3.0), eps = 1e-3 * (1 + scale) * 0.1 + 1e-5 * (off.len() + 10 * scale);
    // every point is on the surface, up to the voxel
    for (auto& q : c)
    {
      double d = 1e300;
      for (auto& t : tris)
        d = std::min(d, t.dist(q));
      for (auto& t : pts)
        d = std::min(d, (t - q).len());
      r.expect(d <= diag + eps, "P28", "off-surface", [&] { return strf("point (%.4f %.4f %.4f) is %.4f from the surface, voxel %.4f", q.x, q.y, q.z, d, leaf); });
      if (r.failed)
        return;
    }
    auto near = [&](const V& p) {
      double d = 1e300;
      for (auto& q : c)
        d = std::min(d, (q - p).len());
      return d;
    };
    // points of PCD files are represented
    for (auto& p : pts)
      r.expect(near(p) <= diag + eps, "P28", "point-missing", [&] { return strf("point (%.4f %.4f %.4f) of a PCD file is not represented within %.4f (nearest %.4f)", p.x, p.y, p.z, diag, near(p)); });
    // every patch which has to contain many samples is represented
    double lo = 0, hi = 0, mean = 0, var = 0;
    int patches = 0;
    for (auto& t : tris)
    {
      const double num = ppm * t.area();
      lo += std::floor(num);
      hi += std::floor(num) + 1;
      mean += num;
      var += (num - std::floor(num)) * (1 - num + std::floor(num));
      if (num < 40)
      {
        if (num >= 1.001)
        {
          V ctr = (t.p[0] + t.p[1] + t.p[2]) * (1.0 / 3);
          double rad = 0;
          for (auto& q : t.p)
            rad = std::max(rad, (q - ctr).len());
          ++patches;
          r.expect(near(ctr) <= rad + diag + eps, "P28", "patch-missing", [&] { return strf("triangle around (%.3f %.3f %.3f) of %.2f samples has no point", ctr.x, ctr.y, ctr.z, num); });
        }
        continue;
      }
      const int k = std::max(1, std::min(12, static_cast<int>(std::sqrt(num / 40))));
      const V a = (t.p[1] - t.p[0]) * (1.0 / k), b = (t.p[2] - t.p[0]) * (1.0 / k);
      for (int i = 0; i < k && !r.failed; ++i)
        for (int j = 0; i + j < k; ++j)
          for (int up = 0; up < 2; ++up)
          {
            if (up && i + j + 1 >= k)
              continue;
            const V o = t.p[0] + a * i + b * j;
            const V p[3] = {up ? o + a + b : o, o + a, o + b};
            const V ctr = (p[0] + p[1] + p[2]) * (1.0 / 3);
            double rad = 0;
            for (auto& q : p)
              rad = std::max(rad, (q - ctr).len());
            ++patches;
            r.expect(near(ctr) <= rad + diag + eps, "P28", "patch-missing", [&] { return strf("patch around (%.3f %.3f %.3f) with %.1f expected samples has no point within %.4f (nearest %.4f)", ctr.x, ctr.y, ctr.z, num / k / k, rad + diag, near(ctr)); });
          }
    }
    // the number of samples of a triangle is rounded at random so that the density is kept on average: 8 sigma
    hi = std::min(hi, mean + 8 * std::sqrt(var) + 2 + mean * 1e-3);
    r.expect(c.size() <= hi + pts.size(), "P28", "too-many", [&] { return strf("%zu points, the density implies %.1f to %.1f", c.size(), lo + pts.size(), hi + pts.size()); });
    if (ppm * leaf * leaf < 1e-3 && pts.empty())
    {
      lo = std::max(lo, mean - 8 * std::sqrt(var) - 2);
      r.expect(c.size() >= 0.97 * lo - 8, "P28", "too-few", [&] { return strf("%zu points, the density implies %.1f to %.1f", c.size(), lo, hi); });
    }
    r.nontrivial = r.nontrivial || !c.empty();
    s.probe("mesh.points", c.size());
    s.probe("mesh.patches", static_cast<uint64_t>(patches));
    s.state(mix64(c.size() * 1000 + tris.size()));
  }
};
void mesh(Run& r)
{
  Rng c = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  Mesh* k = new Mesh(r);
  const bool compat = c.p(0.3);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string pn = std::string(PN) + "/", topic = compat ? pn + "cloud" : "/mapcloud";
  if (c.p(0.6))
    s.setParam(pn + "scale", k->scale = c.logu(0.02, 5));
  const double size = c.logu(0.5, 8) / k->scale;  // of the model, in its own unit
  if (c.p(0.6))
    s.setParam(pn + "points_per_meter_sq", k->ppm = c.logu(0.5, 3000));
  if (c.p(0.7))
    s.setParam(pn + "downsample_grid", k->leaf = c.p(0.3) ? 1e-4 : c.logu(0.005, 0.5));
  for (auto& x : std::initializer_list<std::pair<const char*, double*>>{{"offset_x", &k->off.x}, {"offset_y", &k->off.y}, {"offset_z", &k->off.z}})
    if (c.p(0.5))
      s.setParam(pn + x.first, *x.second = c.uni(-20, 20));
  if (c.p(0.5))
    s.setParam(pn + "frame_id", k->frame = "mesh_frame");
  // the files
  const int nf = c.p(0.6) ? 1 : static_cast<int>(c.i(2, 3));
  double budget = 6000 / k->ppm;  // m^2
  std::string objs;
  for (int i = 0; i < nf; ++i)
  {
    Rng q(r.seed, "file" + std::to_string(i));
    File f;
    f.obj = q.p(0.75);
    f.name = strf("m%d.%s", i, f.obj ? "obj" : "pcd");
    const int nv = static_cast<int>(f.obj ? q.i(3, 40) : q.i(0, 300));
    for (int j = 0; j < nv; ++j)
      f.v.push_back({q.uni(-size, size), q.uni(-size, size), q.p(0.3) ? 0 : q.uni(-size, size) * 0.3});
    const bool fine = f.obj && q.p(0.25);
    if (fine)
    {
      // a terrain of many triangles, each gets less than a few samples
      const int n = static_cast<int>(q.i(8, 24));
      const double pitch = std::sqrt(std::min(q.uni(0.05, 2.5) / k->ppm, budget / n / n)) / k->scale;
      f.v.clear();
      for (int y = 0; y <= n; ++y)
        for (int x = 0; x <= n; ++x)
          f.v.push_back({x * pitch, y * pitch, q.uni(0, 0.3) * pitch});
      for (int y = 0; y < n; ++y)
        for (int x = 0; x < n; ++x)
        {
          const int o = y * (n + 1) + x;
          f.f.push_back({o, o + 1, o + n + 1});
          f.f.push_back({o + 1, o + n + 2, o + n + 1});
        }
      budget = std::max(1e-6, budget - std::pow(pitch * k->scale * n, 2) * 1.2);
      s.probe("mesh.fine");
    }
    else if (f.obj)
      for (int j = 0, nt = static_cast<int>(q.i(1, 30)); j < nt; ++j)
      {
        std::vector<int> t;
        for (int x = 0; x < 3; ++x)
          t.push_back(static_cast<int>(q.i(0, nv - 1)));
        Tri g;
        for (int x = 0; x < 3; ++x)
          g.p[x] = f.v[t[x]] * k->scale;
        if (g.area() > budget)
        {
          // a smaller one
          f.v.push_back(f.v[t[0]] + V{q.uni(-0.2, 0.2), q.uni(-0.2, 0.2), q.uni(-0.2, 0.2)} * (std::min(1.0, std::sqrt(budget)) / k->scale));
          t[1] = static_cast<int>(f.v.size()) - 1;
          f.v.push_back(f.v[t[0]] + V{q.uni(-0.2, 0.2), q.uni(-0.2, 0.2), q.uni(-0.2, 0.2)} * (std::min(1.0, std::sqrt(budget)) / k->scale));
          t[2] = static_cast<int>(f.v.size()) - 1;
          for (int x = 0; x < 3; ++x)
            g.p[x] = f.v[t[x]] * k->scale;
        }
        budget -= g.area();
        f.f.push_back(t);
      }
    const int bad = r.faults && q.p(0.3) ? static_cast<int>(q.i(1, 5)) : 0;
    const int at = static_cast<int>(q.i(0, 29));
    if (f.obj && bad == 1 && !f.f.empty())
      f.f[at % f.f.size()].push_back(0);  // a quadrangle
    if (f.obj && bad == 2)
      f.f[at % f.f.size()][1] = 9999;  // no such vertex
    if (f.obj && bad == 3)
      f.f.clear();
    std::string d;
    if (f.obj)
    {
      d = "# model\no a\n";
      for (auto& p : f.v)
        d += strf("v %.9g %.9g %.9g\n", p.x, p.y, p.z);
      for (auto& t : f.f)
      {
        d += "f";
        for (int x : t)
          d += strf(" %d", x + 1);
        d += "\n";
      }
    }
    else
    {
      d = strf("# .PCD v0.7\nVERSION 0.7\nFIELDS x y z\nSIZE 4 4 4\nTYPE F F F\nCOUNT 1 1 1\nWIDTH %zu\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %zu\nDATA ascii\n", f.v.size(), f.v.size());
      for (auto& p : f.v)
        d += strf("%.9g %.9g %.9g\n", p.x, p.y, p.z);
      if (bad == 1)
        d.resize(d.size() / 3);
      if (bad == 2)
        d = "not a point cloud";
    }
    f.good = !(f.obj ? bad >= 1 && bad <= 3 : bad == 1 || bad == 2);
    if (bad == 4)
      f.good = false;  // does not exist
    else
    {
      std::ofstream o(f.name);
      o << d;
    }
    if (bad)
      s.probe("mesh.bad_files");
    k->good = k->good && f.good;
    for (auto& t : f.f)
      if (f.good)
      {
        Tri g;
        for (int x = 0; x < 3; ++x)
          g.p[x] = f.v[t[x]] * k->scale + k->off;
        k->tris.push_back(g);
      }
    if (!f.obj)
      for (auto& p : f.v)
        k->pts.push_back(p * k->scale + k->off);
    objs += (i ? "," : "") + f.name;
    k->files.push_back(f);
  }
  bool none = false;
  if (c.p(0.05))
    k->good = false, none = true;
  if (!none)
    s.setParam(pn + "objs", objs);
  r.note("files", nf);
  r.note("leaf", k->leaf);
  r.note("density", k->ppm);
  if (r.faults)
  {
    Rng f = r.rng("disk");
    const int kind = static_cast<int>(f.pick({0, 0, 1, 2, 3}));
    const uint64_t off = static_cast<uint64_t>(f.logu(1, 6000));
    const std::string victim = k->files[f.i(0, nf - 1)].name;
    const int err = f.pick({EIO, EACCES, EMFILE, ENOENT});
    if (kind)
    {
      auto armed = std::make_shared<bool>(false);
      r.faultAt("disk", strf("%s of %s: %s", kind == 1 ? "open" : "read", victim.c_str(), kind == 3 ? "short" : "error"), T, [=] { *armed = true; });
      io_hook = [=](const IoOp& o) {
        IoAct a;
        if (!*armed || o.path != victim)
          return a;
        if (kind == 1 && o.kind == IoOp::OPEN)
          a.err = err, k->io_fault = true;
        if (kind == 2 && o.kind == IoOp::READ && o.off + o.len > off)
        {
          if (o.off >= off)
            a.err = EIO, k->io_fault = true;
          else
            a.len = off - o.off;
        }
        if (kind == 3 && o.kind == IoOp::READ)
          a.len = 1 + off % 100;
        return a;
      };
    }
    if (f.p(0.2))
      r.faultAt("crash", PN, T + sec(f.uni(0.05, 1)), [=, &s] {
        if (k->n->done)
          return;
        s.kill(k->n);
        k->clouds = 0;
        s.after(300 * MS, [=, &s] { s.restart(k->n); });
      });
  }
  s.tap<sensor_msgs::PointCloud2>(topic, [=](const sensor_msgs::PointCloud2& m, Node* n) { if (n == k->n) k->onCloud(m); });
  k->n = s.spawn(PN, obj_to_pointcloud_main, {}, T + MS);
  s.at(T + 2 * SEC, [=, &s] { s.sub<sensor_msgs::PointCloud2>(topic, [=](const sensor_msgs::PointCloud2&) { ++k->late; }); });
  s.run(T + 4 * SEC);
  io_hook = nullptr;
  if (r.failed)
    return;
  if (k->good && !k->io_fault)
  {
    r.expect(k->clouds == 1 && k->late == 1, "P28", "no-cloud", [&] { return strf("%d clouds, %d received by a late subscriber, from readable files", k->clouds, k->late); });
    r.expect(!k->n->done, "P28", "stopped", [&] { return std::string("the node stopped after publishing"); });
  }
  else
  {
    r.expect(k->clouds == 0 && k->late == 0, "P28", "cloud-of-unreadable", [&] { return std::string("a cloud was published although the input is not readable"); });
    r.expect(k->n->done && !k->n->died, "P28", "still-running", [&] { return std::string("the node did not shut down although the input is not readable"); });
    r.nontrivial = true;
    s.probe("mesh.refused");
  }
}
struct Init
{
  Init()
  {
    harness().real = "obj_to_pointcloud node";
    harness().stub = "roscpp replaced by simros; OBJ and PCD loaders of PCL/VTK by parsers of the text formats with the same results; std::random_device by the seeded generator; voxel filter reimplemented";
  }
} init_;
Register r1("mesh", {{"P28", 1.0}}, mesh);
}  // namespace
