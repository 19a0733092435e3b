// map_organizer: save_maps and tie_maps (P22), select_map (P23), pointcloud_to_maps (P24), pose_transform (P25).
#include <world.h>
#include <tfref.h>
#include <sim/io.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <map_organizer_msgs/OccupancyGridArray.h>
#include <nav_msgs/OccupancyGrid.h>
#include <std_msgs/Int32.h>
using namespace sim;
using namespace world;
int save_maps_main(int, char**);
int tie_maps_main(int, char**);
int select_map_main(int, char**);
int pointcloud_to_maps_main(int, char**);
int pose_transform_main(int, char**);
// static storage of the select_map process
extern char __start_nd_data_select_map[] __attribute__((weak));
extern char __stop_nd_data_select_map[] __attribute__((weak));
extern char __start_nd_bss_select_map[] __attribute__((weak));
extern char __stop_nd_bss_select_map[] __attribute__((weak));
namespace
{
const std::string CWD = "/proc/self/cwd/";  // absolute name of the directory of the run, the same in every run
typedef nav_msgs::OccupancyGrid Grid;
typedef map_organizer_msgs::OccupancyGridArray Array;
std::function<int(int, char**)> withArgs(int (*fn)(int, char**), std::vector<std::string> args)
{
  return [fn, args](int, char**) {
    std::vector<std::string> a = args;
    a.insert(a.begin(), "node");
    std::vector<char*> p;
    for (auto& x : a)
      p.push_back(&x[0]);
    p.push_back(nullptr);
    return fn(static_cast<int>(a.size()), p.data());
  };
}
Grid randomGrid(Rng& g, const char* frame, int max_size)
{
  Grid m;
  m.header.frame_id = frame;
  m.info.width = static_cast<uint32_t>(g.p(0.2) ? 1 : g.i(1, max_size));
  m.info.height = static_cast<uint32_t>(g.p(0.2) ? 1 : g.i(1, max_size));
  m.info.resolution = static_cast<float>(g.p(0.5) ? g.pick({0.05, 0.1, 0.025, 1.0}) : g.uni(0.001, 2));
  m.info.origin.position.x = g.p(0.2) ? 0 : g.uni(-1000, 1000);
  m.info.origin.position.y = g.p(0.2) ? 0 : g.uni(-100, 100);
  m.info.origin.position.z = g.p(0.2) ? 0 : g.uni(-30, 30);
  m.info.origin.orientation = quatYaw(g.p(0.5) ? 0 : g.uni(-3.14, 3.14));
  const int style = static_cast<int>(g.i(0, 3));
  for (uint32_t i = 0; i < m.info.width * m.info.height; ++i)
    m.data.push_back(static_cast<int8_t>(style == 0 ? 0 : style == 1 ? g.pick({-1, 0, 100}) : style == 2 ? g.i(-1, 100) : g.pick({-1, 0, 0, 0, 100, 1, 99, 50, 65, 66, 19, 20})));
  return m;
}
double yaw3(const geometry_msgs::Quaternion& q) { return yawOf(q); }
std::string diff(const Grid& a, const Grid& b, double tol)
{
  if (a.info.width != b.info.width || a.info.height != b.info.height)
    return strf("size %u x %u instead of %u x %u", b.info.width, b.info.height, a.info.width, a.info.height);
  if (std::abs(a.info.resolution - b.info.resolution) > tol)
    return strf("resolution %f instead of %f", b.info.resolution, a.info.resolution);
  if (!(std::abs(a.info.origin.position.x - b.info.origin.position.x) <= tol && std::abs(a.info.origin.position.y - b.info.origin.position.y) <= tol))
    return strf("origin (%f, %f) instead of (%f, %f)", b.info.origin.position.x, b.info.origin.position.y, a.info.origin.position.x, a.info.origin.position.y);
  if (!(std::abs(a.info.origin.position.z - b.info.origin.position.z) <= tol))
    return strf("height %f instead of %f", b.info.origin.position.z, a.info.origin.position.z);
  if (!(std::abs(wrap(yaw3(a.info.origin.orientation) - yaw3(b.info.origin.orientation))) <= 2 * tol + 1e-12))
    return strf("heading %f instead of %f", yaw3(b.info.origin.orientation), yaw3(a.info.origin.orientation));
  if (a.data.size() != b.data.size())
    return strf("%zu cells instead of %zu", b.data.size(), a.data.size());
  for (size_t i = 0; i < a.data.size(); ++i)
    if (a.data[i] != b.data[i])
      return strf("cell (%zu, %zu) is %d instead of %d", i % a.info.width, i / a.info.width, b.data[i], a.data[i]);
  return "";
}
// ---------------------------------------------------------------------------------------------
// P22
struct Floor
{
  Grid map;       // what a reader must get
  bool ok = false;  // both files are complete
};
struct Files
{
  Run& r;
  Sim& s;
  struct IoFault
  {
    std::string ext;  // suffix of the file name
    int kind, err;
    int64_t off;
    bool crash, sticky, armed;
    int skip;
  };
  std::vector<IoFault> iof;
  struct Saver
  {
    Node* n = nullptr;
    std::string prefix;
    std::shared_ptr<Array> got;
    bool killed = false;
    std::set<std::string> bad;     // base names of the files hit by a fault
    std::set<std::string> closed;  // base names of the files completely written
    bool finished = false;
  };
  struct Tie
  {
    Node* n = nullptr;
    std::vector<std::string> files;
    std::string frame;
    std::vector<std::pair<bool, Grid>> want;  // complete, content at the start
    bool fault = false, killed = false, judged = false;
    std::vector<Array> arrays;
    std::map<std::string, std::vector<Grid>> single;
    ns_t t0 = 0;
  };
  std::map<std::string, std::shared_ptr<Saver>> savers;
  std::map<std::string, std::shared_ptr<Tie>> ties;
  std::map<std::string, Floor> disk;  // name of the metadata file
  std::map<std::string, std::string> mode;
  uint64_t n_saved = 0, n_tied = 0, n_refused = 0, n_partial = 0, n_io = 0;
  explicit Files(Run& rr) : r(rr), s(rr.sim) {}
  static std::string base(const std::string& p) { return p.substr(p.rfind('/') + 1); }
  IoAct hook(const IoOp& o)
  {
    IoAct a;
    ++n_io;
    auto sv = savers.find(o.node->name);
    auto ti = ties.find(o.node->name);
    for (auto& f : iof)
    {
      if (!f.armed || f.kind != static_cast<int>(o.kind) || o.path.size() < f.ext.size() || o.path.compare(o.path.size() - f.ext.size(), f.ext.size(), f.ext) != 0)
        continue;
      if (f.skip > 0 && o.kind == IoOp::OPEN)
      {
        --f.skip;
        continue;
      }
      if (o.kind == IoOp::WRITE || o.kind == IoOp::READ)
      {
        if (static_cast<int64_t>(o.off) + static_cast<int64_t>(o.len) <= f.off)
          continue;
        const size_t room = f.off > static_cast<int64_t>(o.off) ? static_cast<size_t>(f.off - static_cast<int64_t>(o.off)) : 0;
        if (f.err == 0)
        {
          a.len = std::max<size_t>(1, room);  // short transfer, not an error
          return a;
        }
        if (room)
          a.len = room;
        else
          a.err = f.err;
        if (f.crash)
          a.err = 0, a.len = room, a.crash = true;
      }
      else
        a.err = f.err;
      if (a.err || a.crash)
      {
        if (sv != savers.end())
          sv->second->bad.insert(o.path);
        if (ti != ties.end())
          ti->second->fault = true;
        if (!f.sticky)
          f.armed = false;
        s.countFault(std::string("io_") + (o.kind == IoOp::OPEN ? "open" : o.kind == IoOp::READ ? "read" : o.kind == IoOp::WRITE ? "write" : "close") + (a.crash ? "_crash" : ""));
        if (a.crash && sv != savers.end())
          sv->second->killed = true;
        if (a.crash && ti != ties.end())
          ti->second->killed = true;
      }
      return a;
    }
    if (sv != savers.end() && o.kind == IoOp::CLOSE && !sv->second->bad.count(o.path))
      sv->second->closed.insert(o.path);
    return a;
  }
  // the cells of a saved map as they come back
  static Grid saved(const Grid& m)
  {
    Grid o = m;
    for (auto& c : o.data)
      c = c == 0 ? 0 : c == 100 ? 100 : -1;
    return o;
  }
  void startSaver(const std::string& name, const std::string& topic, const std::string& prefix, bool abs)
  {
    auto v = std::make_shared<Saver>();
    savers[name] = v;
    v->prefix = prefix;
    s.onExec<Array>(name, topic, [=](const Array& m, Node*) {
      if (v->got)
        return;
      v->got = std::make_shared<Array>(m);
      for (size_t i = 0; i < m.maps.size(); ++i)
        disk[prefix + std::to_string(i) + ".yaml"].ok = false;  // from now on the old files are gone
    });
    v->n = s.spawn(name, prefix == "map" ? withArgs(save_maps_main, {}) : withArgs(save_maps_main, {"-f", (abs ? CWD : "") + prefix}), {{"/maps", topic}});
    v->n->cpu_scale = 30;  // it polls without sleeping
  }
  void poll()
  {
    for (auto& p : savers)
    {
      auto& v = *p.second;
      if (!v.got && !v.killed && v.n && v.n->done && !v.finished)
      {
        v.finished = true;
        r.expect(false, "P22", "saver-gave-up", [&] { return strf("%s ended with %d before any map came", p.first.c_str(), v.n->exit_code); });
      }
      if (v.finished || !v.got || !v.n->done)
        continue;
      v.finished = true;
      for (size_t i = 0; i < v.got->maps.size(); ++i)
      {
        const std::string f = v.prefix + std::to_string(i);
        const std::string y = base(f + ".yaml"), g = base(f + ".pgm");
        if (v.bad.count(y) || v.bad.count(g) || (v.killed && !(v.closed.count(y) && v.closed.count(g))))
        {
          ++n_partial;
          continue;
        }
        auto& d = disk[f + ".yaml"];
        d.ok = true;
        d.map = saved(v.got->maps[i]);
        ++n_saved;
        r.nontrivial = true;
      }
      if (!v.killed)
        r.expect(v.n->exit_code == 0, "P22", "saver-exit", [&] { return strf("save_maps exited with %d", v.n->exit_code); });
    }
  }
  bool busy(const std::string& prefix)
  {
    for (auto& p : savers)
      if (p.second->prefix == prefix && p.second->n && !p.second->n->done)
        return true;
    return false;
  }
  void startTie(const std::string& name, const std::vector<std::string>& files, const std::string& frame)
  {
    poll();
    auto t = std::make_shared<Tie>();
    ties[name] = t;
    t->files = files;
    t->frame = frame;
    t->t0 = s.now;
    std::string l;
    for (size_t i = 0; i < files.size(); ++i)
    {
      l += (i ? "," : "") + files[i];
      std::string key = files[i];
      if (key.compare(0, CWD.size(), CWD) == 0)
        key = key.substr(CWD.size());
      auto d = disk.find(key);
      t->want.emplace_back(d != disk.end() && d->second.ok, d != disk.end() ? d->second.map : Grid());
    }
    s.setParam(name + "/map_files", l);
    if (frame != "map")
      s.setParam(name + "/frame_id", frame);
    std::map<std::string, std::string> rm{{"/maps", name + "/o/maps"}};
    for (int i = 0; i < 12; ++i)
      rm["/map" + std::to_string(i)] = strf("%s/o/map%d", name.c_str(), i);
    s.tap<Array>(name + "/o/maps", [t](const Array& m, Node*) { t->arrays.push_back(m); });
    for (int i = 0; i < 12; ++i)
      s.tap<Grid>(strf("%s/o/map%d", name.c_str(), i), [t, i](const Grid& m, Node*) { t->single[strf("map%d", i)].push_back(m); });
    t->n = s.spawn(name, tie_maps_main, rm);
    s.after(sec(1.5), [=] { judge(name, *t, true); });
  }
  void judge(const std::string& name, Tie& t, bool published_by_now)
  {
    if (t.judged || t.killed)
      return;
    bool all = true;
    for (auto& w : t.want)
      all = all && w.first;
    size_t singles = 0;
    for (auto& x : t.single)
      singles += x.second.size();
    if (all && !t.fault && t.arrays.empty() && t.n->busy_until > s.now)
      return;  // stalled
    t.judged = true;
    if (all && !t.fault && published_by_now)
      r.expect(t.arrays.size() == 1, "P22", "maps-not-published", [&] { return strf("%s: all %zu files are complete but %zu arrays and %zu maps were published", name.c_str(), t.files.size(), t.arrays.size(), singles); });
    if (t.arrays.empty())
    {
      r.expect(singles == 0, "P22", "some-maps-without-array", [&] { return strf("%s published %zu maps but not all of %zu", name.c_str(), singles, t.files.size()); });
      if (t.n->done)
        ++n_refused;
      return;
    }
    ++n_tied;
    r.nontrivial = true;
    const Array& a = t.arrays.back();
    r.expect(t.arrays.size() == 1 && a.maps.size() == t.files.size() && singles == t.files.size(), "P22", "not-all-maps", [&] { return strf("%s published %zu arrays of %zu maps and %zu maps for %zu files", name.c_str(), t.arrays.size(), a.maps.size(), singles, t.files.size()); });
    for (size_t i = 0; i < t.files.size() && i < a.maps.size(); ++i)
    {
      const Grid& m = a.maps[i];
      auto& sg = t.single[strf("map%zu", i)];
      const std::string e = sg.size() == 1 ? diff(m, sg[0], 0) : strf("%zu messages", sg.size());
      r.expect(e.empty() && sg[0].header.frame_id == m.header.frame_id, "P22", "map-differs-from-array", [&] { return strf("%s: map%zu differs from the array (%s)", name.c_str(), i, e.c_str()); });
      r.expect(m.header.frame_id == t.frame, "P22", "wrong-frame", [&] { return strf("%s: map %zu is in frame '%s' instead of '%s'", name.c_str(), i, m.header.frame_id.c_str(), t.frame.c_str()); });
      if (!t.want[i].first || t.fault)
        continue;
      const std::string d = diff(t.want[i].second, m, 1.1e-6);
      r.expect(d.empty(), "P22", "not-the-saved-map", [&] { return strf("%s: %s comes back with %s", name.c_str(), t.files[i].c_str(), d.c_str()); });
    }
  }
  // a map written by hand, with all options of the format
  void craft(const std::string& prefix, Rng& g)
  {
    const std::string y = prefix + ".yaml";
    Floor f;
    f.ok = true;
    Grid& m = f.map;
    const int w = static_cast<int>(g.i(1, 20)), h = static_cast<int>(g.i(1, 20));
    m.info.width = static_cast<uint32_t>(w);
    m.info.height = static_cast<uint32_t>(h);
    m.info.resolution = static_cast<float>(g.pick({0.05, 0.1, 0.5}));
    m.info.origin.position.x = g.i(-100, 100) * 0.25;
    m.info.origin.position.y = g.i(-100, 100) * 0.25;
    const double yaw = g.p(0.5) ? 0 : g.i(-12, 12) * 0.25;
    m.info.origin.orientation = quatYaw(yaw);
    const bool has_h = g.p(0.7), neg = g.p(0.3), abs = g.p(0.3);
    m.info.origin.position.z = has_h ? g.i(-40, 40) * 0.125 : 0;
    const int md = static_cast<int>(g.i(0, 3));  // none, trinary, scale, raw
    const double occ = g.pick({0.65, 0.5, 0.9}), fre = g.pick({0.196, 0.1, 0.4});
    std::string px;
    for (int i = 0; i < w * h; ++i)
      px += static_cast<char>(g.p(0.3) ? g.pick({0, 205, 254, 255}) : g.i(0, 255));
    m.data.resize(static_cast<size_t>(w * h));
    for (int i = 0; i < w * h; ++i)
    {
      const int v = static_cast<unsigned char>(px[static_cast<size_t>(i)]);
      const int c = neg ? 255 - v : v;
      const double o = (255 - c) / 255.0;
      int8_t& out = m.data[static_cast<size_t>((h - 1 - i / w) * w + i % w)];
      out = static_cast<int8_t>(md == 3 ? c : o > occ ? 100 : o < fre ? 0 : md == 2 ? static_cast<int>(1 + 98 * (o - fre) / (occ - fre)) : -1);
    }
    {
      std::ofstream p(prefix + ".pgm", std::ios::binary);
      p << "P5\n" << w << " " << h << "\n255\n" << px;
    }
    const std::string img = (abs ? CWD + prefix : base(prefix)) + ".pgm";
    std::vector<std::string> l{strf("image: %s", img.c_str()), strf("resolution: %g", static_cast<double>(m.info.resolution)), strf("origin: [%g, %g, %g]", m.info.origin.position.x, m.info.origin.position.y, yaw),
                               strf("negate: %d", neg), strf("occupied_thresh: %g", occ), strf("free_thresh: %g", fre)};
    if (has_h)
      l.push_back(strf("height: %g", m.info.origin.position.z));
    if (md)
      l.push_back(std::string("mode: ") + (md == 1 ? "trinary" : md == 2 ? "scale" : "raw"));
    for (size_t i = l.size(); i > 1; --i)
      std::swap(l[i - 1], l[static_cast<size_t>(g.i(0, static_cast<int>(i) - 1))]);
    // one required tag is missing or unusable
    if (g.p(0.3))
    {
      const char* const req[] = {"image", "resolution", "origin", "negate", "occupied_thresh", "free_thresh"};
      const char* const q = g.pick({req[0], req[1], req[2], req[3], req[4], req[5]});
      const int how = static_cast<int>(g.i(0, 3));
      for (size_t i = 0; i < l.size(); ++i)
        if (l[i].compare(0, strlen(q), q) == 0)
        {
          if (how == 0)
            l.erase(l.begin() + static_cast<long>(i));
          else if (how == 1)
            l[i] = std::string(q) + ": " + (q == req[0] ? "missing.pgm" : "abc");
          else if (how == 2)
            l[i] = std::string(q) + (q == req[2] ? ": [1.0, 2.0]" : q == req[0] ? ": \"\"" : ": [1, 2]");
          else
            l[i] = std::string(q) + ":";
          break;
        }
      f.ok = false;
      disk_bad.insert(y);
    }
    std::ofstream o(y);
    for (auto& x : l)
      o << x << "\n";
    disk[y] = f;
  }
  std::set<std::string> disk_bad;
};
void files(Run& r)
{
  auto* k = new Files(r);
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  io_hook = [k](const IoOp& o) { return k->hook(o); };
  mkdir("dir", 0755);
  mkdir("dir/sub", 0755);
  Rng o = r.rng("ops");
  const ns_t end = T + sec(o.uni(8, 16));
  const double span = (end - T) * 1e-9;
  // prefixes, each saved once or twice
  std::vector<std::string> prefixes;
  const int np = static_cast<int>(o.i(1, 3));
  for (int i = 0; i < np; ++i)
  {
    const std::string n = i == 0 && o.p(0.3) ? "map" : strf("s%d", i);
    prefixes.push_back(n == "map" ? n : o.pick({std::string(), std::string("dir/"), std::string("dir/sub/"), std::string("./")}) + n);
  }
  std::vector<int> floors(static_cast<size_t>(np));
  int ns = 0;
  for (int i = 0; i < np; ++i)
  {
    floors[static_cast<size_t>(i)] = static_cast<int>(o.p(0.05) ? 0 : o.i(1, 4));
    const bool abs = prefixes[static_cast<size_t>(i)] != "map" && o.p(0.3);
    const int times = o.p(0.3) ? 2 : 1;
    for (int j = 0; j < times; ++j, ++ns)
    {
      const std::string nn = strf("/saver%d", ns), topic = strf("/in%d", ns), pre = prefixes[static_cast<size_t>(i)];
      const ns_t t = T + sec(j == 0 ? o.uni(0, 2) : o.uni(3, 5));
      const bool late = o.p(0.5);
      const ns_t dt = sec(o.uni(0.05, 1));
      const int nf = floors[static_cast<size_t>(i)];
      const std::string key = strf("map%d", ns);
      auto pub = s.pub<Array>(topic, true);
      auto send = [=, &s, &r] {
        Rng q(r.seed, key);
        const int n = q.p(0.2) ? 2 : 1;  // further arrays are not saved
        for (int a = 0; a < n; ++a)
        {
          Array m;
          for (int f = 0; f < nf; ++f)
            m.maps.push_back(randomGrid(q, "map", q.p(0.1) ? 120 : 25));
          pub(m);
        }
      };
      r.op(t, strf("%s saves %d floors to %s", nn.c_str(), nf, pre.c_str()), [=, &s] {
        if (!k->busy(pre))
          k->startSaver(nn, topic, pre, abs);
      });
      r.op(late ? t + dt : std::max(T, t - dt), strf("maps for %s", nn.c_str()), send);
    }
  }
  const int nc = static_cast<int>(o.i(0, 3));
  for (int i = 0; i < nc; ++i)
  {
    const std::string key = strf("craft%d", i);
    r.op(T + sec(o.uni(0, 4)), "hand-written map " + key, [=, &r] {
      Rng q(r.seed, key);
      k->craft(key, q);
    });
  }
  const int nt = static_cast<int>(o.i(1, 5));
  for (int i = 0; i < nt; ++i)
  {
    std::vector<std::string> fl;
    const int style = static_cast<int>(o.i(0, 3));
    auto any = [&](Rng& q) {
      if (nc && q.p(0.25))
        return strf("craft%d.yaml", static_cast<int>(q.i(0, nc - 1)));
      const size_t p = static_cast<size_t>(q.i(0, np - 1));
      const std::string f = strf("%s%d.yaml", prefixes[p].c_str(), static_cast<int>(q.i(0, std::max(0, floors[p] - 1))));
      return q.p(0.3) ? CWD + f : f;
    };
    if (style <= 1)
    {
      const size_t p = static_cast<size_t>(o.i(0, np - 1));
      for (int f = 0; f < floors[p]; ++f)
        fl.push_back(strf("%s%d.yaml", prefixes[p].c_str(), f));
    }
    else
      for (int f = 0; f < static_cast<int>(o.i(0, 5)); ++f)
        fl.push_back(o.p(0.06) ? std::string("missing.yaml") : any(o));
    const std::string frame = o.p(0.7) ? "map" : "map_2f";
    const std::string nn = strf("/tie%d", i);
    std::string l;
    for (auto& f : fl)
      l += f + " ";
    r.op(T + sec(o.uni(2.5, span - 2)), nn + " loads " + l, [=] { k->startTie(nn, fl, frame); });
  }
  Rng d = r.rng("disk");
  const int nd = r.faults ? static_cast<int>(d.i(0, 4)) : 0;
  for (int i = 0; i < nd; ++i)
  {
    Files::IoFault f;
    f.ext = d.pick({std::string(".pgm"), std::string(".yaml"), std::string("0.pgm"), std::string("1.pgm"), std::string("0.yaml"), std::string("1.yaml")});
    const int kind = static_cast<int>(d.i(0, 7));
    f.kind = kind <= 2 ? IoOp::WRITE : kind <= 4 ? IoOp::READ : kind <= 6 ? IoOp::OPEN : IoOp::CLOSE;
    f.err = f.kind == IoOp::OPEN ? d.pick({EACCES, ENOSPC, EMFILE}) : f.kind == IoOp::READ ? EIO : d.pick({ENOSPC, EIO});
    if ((f.kind == IoOp::WRITE || f.kind == IoOp::READ) && d.p(0.3))
      f.err = 0;  // short transfers
    f.off = d.p(0.3) ? 0 : static_cast<int64_t>(d.logu(1, 2000));
    f.crash = f.kind == IoOp::WRITE && f.err && d.p(0.4);
    f.sticky = !f.crash && d.p(0.4);
    f.skip = f.kind == IoOp::OPEN ? static_cast<int>(d.i(0, 2)) : 0;
    f.armed = false;
    const size_t id = k->iof.size();
    k->iof.push_back(f);
    const ns_t t = T + sec(d.p(0.5) ? d.uni(0, 3) : d.uni(0, span - 2));
    r.faultAt("disk", strf("%s *%s errno %d at %lld%s%s", f.kind == IoOp::WRITE ? "write" : f.kind == IoOp::READ ? "read" : f.kind == IoOp::OPEN ? "open" : "close", f.ext.c_str(), f.err, static_cast<long long>(f.off), f.crash ? " crash" : "", f.sticky ? " persistent" : ""),
              t, [k, id] { k->iof[id].armed = true; });
    s.at(t + sec(d.uni(0.5, 6)), [k, id] { k->iof[id].armed = false; });
  }
  const int nb = r.faults ? static_cast<int>(d.i(0, 2)) : 0;
  for (int i = 0; i < nb; ++i)
  {
    const std::string key = "tear" + std::to_string(i);
    const size_t p = static_cast<size_t>(d.i(0, np - 1));
    const std::string f = strf("%s%d", prefixes[p].c_str(), static_cast<int>(d.i(0, std::max(0, floors[p] - 1)))), ext = d.p(0.5) ? ".yaml" : ".pgm";
    const int kind = static_cast<int>(d.i(0, 4));
    const char* const kn[] = {"truncated", "truncated", "removed", "emptied", "overwritten"};
    r.faultAt("file", f + ext + " " + kn[kind], T + sec(d.uni(2, span - 2)), [=, &s, &r] {
      struct stat st;
      const std::string pth = f + ext;
      if (stat(pth.c_str(), &st) != 0 || k->busy(f.substr(0, f.size() - 1)))
        return;
      Rng q(r.seed, key);
      k->poll();
      k->disk[f + ".yaml"].ok = false;
      s.countFault(std::string("file_") + kn[kind]);
      if (kind <= 1)
        (void)!truncate(pth.c_str(), q.i(0, std::max<int64_t>(0, st.st_size - 1)));
      else if (kind == 2)
        unlink(pth.c_str());
      else if (kind == 3)
        (void)!truncate(pth.c_str(), 0);
      else
      {
        std::fstream x(pth, std::ios::in | std::ios::out | std::ios::binary);
        const int n = static_cast<int>(q.i(1, 20));
        x.seekp(q.i(0, std::max<int64_t>(0, st.st_size - 1)));
        for (int j = 0; j < n; ++j)
          x.put(static_cast<char>(q.i(0, 255)));
      }
    });
  }
  if (r.faults)
  {
    Rng sf = r.rng("kill");
    if (sf.p(0.3))
      r.faultAt("crash", "a saver", T + sec(sf.uni(0.01, 4)), [=, &s] {
        for (auto& v : k->savers)
          if (v.second->n && !v.second->n->done && v.second->n->fiber)
          {
            v.second->killed = true;
            s.kill(v.second->n);
            break;
          }
      });
    stallFaults(r, {"saver", "tie"}, T, end - 3 * SEC, 2, 1.0);
    NetFaultMix mix;
    mix.targets = {"/in"};
    mix.partition = 0;
    netFaults(r, mix, T, end - 4 * SEC, 3);
  }
  s.every(T, 5 * MS, [k] { k->poll(); });
  s.run(end + 2 * SEC);
  k->poll();
  for (auto& v : k->savers)
    if (v.second->got && !v.second->killed)
      r.expect(v.second->n->done, "P22", "saver-stuck", [&] { return v.first + " received maps but did not finish"; });
  io_hook = nullptr;
  for (auto& t : k->ties)
  {
    k->judge(t.first, *t.second, true);
    if (!t.second->arrays.empty() && !t.second->killed)
      r.expect(!t.second->n->done, "P22", "maps-withdrawn", [&] { return t.first + " published the maps and ended: late subscribers get none"; });
  }
  s.probe("maps.saved", k->n_saved);
  s.probe("maps.partial", k->n_partial);
  s.probe("maps.tied", k->n_tied);
  s.probe("maps.refused", k->n_refused);
  s.state(mix64(k->n_saved * 1000 + k->n_tied * 100 + k->n_refused * 10 + k->n_partial));
}
// ---------------------------------------------------------------------------------------------
// P23
struct Globals
{
  std::vector<char> d, b;
  void take()
  {
    if (__start_nd_data_select_map)
      d.assign(__start_nd_data_select_map, __stop_nd_data_select_map);
    if (__start_nd_bss_select_map)
      b.assign(__start_nd_bss_select_map, __stop_nd_bss_select_map);
  }
  void restore()
  {
    if (!d.empty())
      memcpy(__start_nd_data_select_map, d.data(), d.size());
    if (!b.empty())
      memcpy(__start_nd_bss_select_map, b.data(), b.size());
  }
};
struct Select
{
  Run& r;
  Sim& s;
  Node* node = nullptr;
  Globals gl;
  // reference
  Array arr, recv_arr;
  int cur = 0, recv_cur = 0;
  bool known = false, has_pub = false, has_recv = false, has_recv_cur = false;
  uint64_t arr_n = 0, recv_n = 0, cur_n = 0, recv_cur_n = 0;
  Grid want, last;
  bool has_want = false;
  bool dirty = false;
  double height = 0;
  ns_t busy_until = 0, last_tf = 0, recv_t = 0, recv_cur_t = 0, good_since = -1;
  uint64_t n_pub = 0, n_out = 0, n_tf = 0;
  explicit Select(Run& rr) : r(rr), s(rr.sim) {}
  bool inRange() const { return cur >= 0 && cur < static_cast<int>(arr.maps.size()); }
  void update()
  {
    if (!inRange())
    {
      if (!arr.maps.empty())
        ++n_out;
      return;
    }
    want = arr.maps[static_cast<size_t>(cur)];
    height = want.info.origin.position.z;
    want.info.origin.position.z = 0;
    has_want = true;
  }
  void boot()
  {
    arr = Array();
    cur = 0;
    has_want = has_pub = known = false;
    has_recv = has_recv_cur = false;
    height = 0;
    good_since = -1;
    last_tf = s.now;
    busy_until = std::max(busy_until, s.now + 400 * MS);
  }
  void published(const Grid& m)
  {
    ++n_pub;
    r.nontrivial = true;
    has_pub = true;
    last = m;
    r.expect(inRange(), "P23", "published-out-of-range", [&] { return strf("a map was published although floor %d of %zu is selected", cur, arr.maps.size()); });
    update();
    if (!inRange())
      return;
    const std::string e = diff(want, m, 0);
    r.expect(e.empty(), "P23", "other-map", [&] { return strf("the map published while floor %d of %zu is selected differs from it: %s", cur, arr.maps.size(), e.c_str()); });
    r.expect(m.header.frame_id == want.header.frame_id, "P23", "other-frame", [&] { return strf("the map was published in frame '%s' instead of '%s'", m.header.frame_id.c_str(), want.header.frame_id.c_str()); });
  }
  void tf(const geometry_msgs::TransformStamped& t)
  {
    ++n_tf;
    update();
    last_tf = s.now;
    r.expect(t.header.frame_id == "map_ground" && t.child_frame_id == "map", "P23", "tf-frames", [&] { return strf("transform %s -> %s", t.header.frame_id.c_str(), t.child_frame_id.c_str()); });
    r.expect(has_pub || !has_want, "P23", "map-not-published", [&] { return strf("the loop ran with floor %d of %zu selected but no map was published", cur, arr.maps.size()); });
    if (has_want && has_pub)
    {
      const std::string e = diff(want, last, 0);
      r.expect(e.empty(), "P23", "map-not-updated", [&] { return strf("the loop ran with floor %d of %zu selected but the last map published differs from it: %s", cur, arr.maps.size(), e.c_str()); });
    }
    const auto& x = t.transform;
    r.expect(std::abs(x.translation.z - height) < 1e-9 && x.translation.x == 0 && x.translation.y == 0, "P23", "tf-height", [&] { return strf("transform with offset (%f, %f, %f) while floor %d of height %f is selected", x.translation.x, x.translation.y, x.translation.z, cur, height); });
    r.expect(std::abs(x.rotation.w) > 1 - 1e-9 && std::abs(x.rotation.z) < 1e-9, "P23", "tf-rotation", [&] { return std::string("the transform is rotated"); });
    const double ahead = (t.header.stamp - rosTime(s.now + node->clock_off)).toSec();
    r.expect(ahead > 0.1 && ahead < 0.2, "P23", "tf-stamp", [&] { return strf("the transform is stamped %.3f s ahead", ahead); });
  }
  void tick()
  {
    const bool ok = node->fiber && !node->done && s.now >= busy_until;
    if (!ok)
    {
      good_since = -1;
      return;
    }
    if (good_since < 0)
      good_since = s.now;
    if (!arr.maps.empty())
      r.expect(s.now - std::max({last_tf, good_since, known_t}) < 250 * MS, "P23", "tf-rate", [&] { return strf("no map transform for %.3f s", (s.now - std::max(last_tf, good_since)) * 1e-9); });
    if (has_recv && s.now - std::max(recv_t, good_since) > 300 * MS)
      r.expect(arr_n == recv_n, "P23", "maps-ignored", [&] { return std::string("the last map array received was not processed"); });
    if (has_recv_cur && s.now - std::max(recv_cur_t, good_since) > 300 * MS)
      r.expect(cur_n == recv_cur_n, "P23", "floor-ignored", [&] { return std::string("the last floor selection received was not processed"); });
  }
  ns_t known_t = 0;
};
void select(Run& r)
{
  const std::string name = "/select_map";
  auto* k = new Select(r);
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  Rng g = r.rng("cfg");
  const bool old = g.p(0.25);
  s.setParam("/neonavigation_compatible", old ? 0 : 1);
  const std::string floor = old ? name + "/floor" : "/floor";
  k->gl.take();
  auto fp = [](const Array& a) { return a.maps.empty() ? 0 : static_cast<uint64_t>(a.maps[0].header.seq); };
  (void)fp;
  auto pm = s.pub<Array>("/maps", true);
  auto pf = s.pub<std_msgs::Int32>(floor, g.p(0.3));
  s.onRecv<Array>(name, "/maps", [k, &s](const Array& m, Node*) {
    k->recv_arr = m;
    k->has_recv = true;
    ++k->recv_n;
    k->recv_n = m.maps.empty() ? 0 : m.maps[0].info.map_load_time.sec;
    k->recv_t = s.now;
  });
  s.onExec<Array>(name, "/maps", [k, &s](const Array& m, Node*) {
    k->arr = m;
    k->arr_n = m.maps.empty() ? 0 : m.maps[0].info.map_load_time.sec;
    k->known_t = s.now;
  });
  s.onRecv<std_msgs::Int32>(name, floor, [k, &s](const std_msgs::Int32& m, Node*) {
    k->has_recv_cur = true;
    k->recv_cur_n = static_cast<uint64_t>(m.data + 1000);
    k->recv_cur_t = s.now;
  });
  s.onExec<std_msgs::Int32>(name, floor, [k](const std_msgs::Int32& m, Node*) {
    k->cur = m.data;
    k->cur_n = static_cast<uint64_t>(m.data + 1000);
  });
  s.tap<Grid>("/map", [k](const Grid& m, Node* n) {
    if (n == k->node)
      k->published(m);
  });
  s.tap<tf2_msgs::TFMessage>("/tf", [k](const tf2_msgs::TFMessage& m, Node* n) {
    if (n == k->node)
      for (auto& t : m.transforms)
        k->tf(t);
  });
  Node* n = s.spawn(name, [k](int c, char** v) {
    k->gl.restore();
    k->boot();
    return select_map_main(c, v);
  });
  k->node = n;
  if (g.p(0.3))
    n->clock_off = sec(g.uni(-5, 5));
  Rng o = r.rng("ops");
  const ns_t end = T + sec(o.uni(4, 20));
  const double span = (end - T) * 1e-9;
  const int na = static_cast<int>(o.i(1, 5));
  for (int i = 0; i < na; ++i)
  {
    const std::string key = "a" + std::to_string(i);
    const int nf = static_cast<int>(o.i(1, 5));
    r.op(i == 0 ? T + sec(o.uni(0, 1.5)) : T + sec(o.uni(0.5, span - 1)), strf("maps of %d floors", nf), [=, &r, &s] {
      Rng q(r.seed, key);
      Array a;
      for (int f = 0; f < nf; ++f)
      {
        a.maps.push_back(randomGrid(q, "map", 12));
        a.maps.back().info.map_load_time.sec = static_cast<uint32_t>(i + 1);
      }
      if (i > 0 && q.p(0.3) && k->arr.maps.size() == a.maps.size())  // only the heights changed
        for (size_t f = 0; f < a.maps.size(); ++f)
        {
          const double z = a.maps[f].info.origin.position.z;
          const auto lt = a.maps[f].info.map_load_time;
          a.maps[f] = k->arr.maps[f];
          a.maps[f].info.origin.position.z = z;
          a.maps[f].info.map_load_time = lt;
        }
      pm(a);
    });
  }
  const int nfl = static_cast<int>(o.i(0, 14));
  ns_t t = T;
  for (int i = 0; i < nfl; ++i)
  {
    t = o.p(0.3) ? t + sec(o.uni(0, 0.15)) : T + sec(o.uni(0, span - 1));
    const int f = static_cast<int>(o.p(0.15) ? o.pick({-1, -100, 5, 7, 100}) : o.i(0, 4));
    r.op(t, strf("floor %d", f), [=] {
      std_msgs::Int32 m;
      m.data = f;
      pf(m);
    });
  }
  auto late = std::make_shared<std::vector<Grid>>();
  s.at(end - 600 * MS, [=, &s] { s.sub<Grid>("/map", [late](const Grid& m) { late->push_back(m); }); });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/maps->", floor + "->"};
    netFaults(r, mix, T, end - sec(1), 6);
    Rng f = r.rng("extra");
    const int nst = static_cast<int>(f.i(0, 2));
    for (int i = 0; i < nst; ++i)
    {
      const double d = f.logu(0.01, 2);
      r.faultAt("stall", strf("%.3f s", d), T + sec(f.uni(0.2, span - 3)), [=, &s] {
        s.stall(k->node, sec(d));
        k->busy_until = std::max(k->busy_until, s.now + sec(d) + 400 * MS);
      });
    }
    if (f.p(0.3))
      r.faultAt("crash", name, T + sec(f.uni(0.5, std::max(0.6, span - 2))), [=, &s] {
        s.kill(k->node);
        k->boot();
        s.after(sec(0.3), [=, &s] {
          k->busy_until = s.now + 400 * MS;
          s.restart(k->node);
        });
      });
  }
  s.every(T + 20 * MS, 20 * MS, [k] { k->tick(); });
  s.run(end);
  if (k->has_pub && k->node->fiber && s.now >= k->busy_until && !late->empty() + k->has_want > 0 && k->busy_until < end - 700 * MS)
  {
    r.expect(!late->empty(), "P23", "not-latched", [&] { return std::string("a late subscriber got no map"); });
    if (!late->empty())
    {
      const std::string e = diff(k->last, late->back(), 0);
      r.expect(e.empty(), "P23", "latched-other-map", [&] { return "a late subscriber got another map than the last published: " + e; });
    }
  }
  s.probe("select.published", k->n_pub);
  s.probe("select.out_of_range", k->n_out);
  s.probe("select.tf", k->n_tf);
  s.state(mix64(k->n_pub * 100 + std::min<uint64_t>(k->n_out, 9)));
}
// ---------------------------------------------------------------------------------------------
// P24: reference of the floor extraction on a dense voxel representation
struct FloorParams
{
  double grid = 0.05, pts_rate = 0.5, robot_h = 1.0, floor_h = 0.1, tol = 0.2, min_area = 100.0, area_rate = 0.8;
};
struct FloorRef
{
  bool ambiguous = false;  // an area is at a threshold
  std::vector<Grid> maps;
  int candidates = 0, merged = 0;
  FloorRef(const std::vector<P3>& in, const FloorParams& p)
  {
    struct C
    {
      int x, y, z;
    };
    std::vector<C> pts;
    const double g = p.grid;
    int x0 = INT32_MAX, y0 = INT32_MAX, z0 = INT32_MAX, x1 = 0, y1 = 0, z1 = 0;
    for (auto& a : in)
    {
      const float fx = static_cast<float>(a.x), fy = static_cast<float>(a.y), fz = static_cast<float>(a.z);
      if (!std::isfinite(fx) || !std::isfinite(fy) || !std::isfinite(fz))
        continue;
      C c{static_cast<int>(std::floor(fx / g)), static_cast<int>(std::floor(fy / g)), static_cast<int>(fz / g)};
      x0 = std::min(x0, c.x), y0 = std::min(y0, c.y), z0 = std::min(z0, c.z);
      x1 = std::max(x1, c.x), y1 = std::max(y1, c.y), z1 = std::max(z1, c.z);
      pts.push_back(c);
    }
    if (pts.empty())
      return;
    const int w = x1 - x0 + 1, h = y1 - y0 + 1, nz = z1 - z0 + 1;
    const int fh = static_cast<int>(std::lround(p.floor_h / g)), rh = static_cast<int>(std::lround(p.robot_h / g)), tl = static_cast<int>(std::lround(p.tol / g));
    std::vector<int> hist(static_cast<size_t>(nz), 0);
    // per column, the sorted layers holding points
    std::vector<std::vector<int>> col(static_cast<size_t>(w) * h);
    for (auto& c : pts)
    {
      ++hist[static_cast<size_t>(c.z - z0)];
      col[static_cast<size_t>(c.y - y0) * w + (c.x - x0)].push_back(c.z - z0);
    }
    const int most = *std::max_element(hist.begin(), hist.end());
    const double min_pts = std::floor(most * p.pts_rate);
    std::vector<std::vector<int8_t>> lay(static_cast<size_t>(nz));
    std::vector<int> run(static_cast<size_t>(nz), 0);
    int run_max = 0;
    for (int z = 0; z < nz; ++z)
    {
      if (hist[static_cast<size_t>(z)] <= min_pts)
        continue;
      auto& l = lay[static_cast<size_t>(z)];
      l.assign(static_cast<size_t>(w) * h, -1);
      for (size_t i = 0; i < col.size(); ++i)
      {
        bool fl = false, ob = false;
        for (int c : col[i])
        {
          fl |= std::abs(c - z) <= fh;
          ob |= std::abs(c - z) > fh && c > z + fh + tl && c <= z + rh;
        }
        l[i] = ob ? 100 : fl ? 0 : -1;
        run[static_cast<size_t>(z)] += l[i] == 0;
      }
      run_max = std::max(run_max, run[static_cast<size_t>(z)]);
    }
    const double filt = run_max * p.area_rate;
    struct L
    {
      int z;
      std::vector<int8_t> d;
      int area;
    };
    std::vector<L> cand;
    for (int z = 0; z < nz; ++z)
    {
      if (lay[static_cast<size_t>(z)].empty())
        continue;
      const int a = run[static_cast<size_t>(z)];
      if ((z > 0 && run[static_cast<size_t>(z - 1)] > a) || (z < nz - 1 && run[static_cast<size_t>(z + 1)] > a))
        continue;
      if (std::abs(a - filt) < 1e-3)
        ambiguous = true;
      if (a > filt)
        cand.push_back(L{z, lay[static_cast<size_t>(z)], a});
    }
    candidates = static_cast<int>(cand.size());
    // adjacent layers of a slope are merged into the lower one, from top to bottom
    for (size_t i = cand.size(); i >= 2; --i)
    {
      L &up = cand[i - 1], &lo = cand[i - 2];
      if (up.z - lo.z != 1)
        continue;
      ++merged;
      lo.area = up.area = 0;
      for (size_t c = 0; c < lo.d.size(); ++c)
      {
        if (up.d[c] == 0)
        {
          lo.d[c] = 0;
          up.d[c] = -1;
        }
        lo.area += lo.d[c] == 0;
        up.area += up.d[c] == 0;
      }
    }
    for (auto& c : cand)
    {
      const double area = c.area * g * g;
      if (std::abs(area - p.min_area) < 1e-3 * g * g + 1e-5 * area)
        ambiguous = true;
      if (area < p.min_area)
        continue;
      // each free cell spreads up to 6 cells, less than the distance to the closest occupied cell
      std::vector<int8_t> out = c.d;
      for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
          if (c.d[static_cast<size_t>(y) * w + x] != 0)
            continue;
          int rad = 6;
          for (int dy = -6; dy <= 6; ++dy)
            for (int dx = -6; dx <= 6; ++dx)
            {
              const int q = dx * dx + dy * dy, xx = x + dx, yy = y + dy;
              if (q > 36 || xx < 0 || yy < 0 || xx >= w || yy >= h || c.d[static_cast<size_t>(yy) * w + xx] != 100)
                continue;
              int f = 0;
              while ((f + 1) * (f + 1) <= q)
                ++f;
              rad = std::min(rad, f);
            }
          --rad;
          for (int dy = -rad; dy <= rad; ++dy)
            for (int dx = -rad; dx <= rad; ++dx)
            {
              const int xx = x + dx, yy = y + dy;
              if (dx * dx + dy * dy > rad * rad || xx < 0 || yy < 0 || xx >= w || yy >= h)
                continue;
              auto& o = out[static_cast<size_t>(yy) * w + xx];
              if (c.d[static_cast<size_t>(yy) * w + xx] != 100)
                o = 0;
            }
        }
      Grid m;
      m.info.resolution = static_cast<float>(g);
      m.info.width = static_cast<uint32_t>(w);
      m.info.height = static_cast<uint32_t>(h);
      m.info.origin.position.x = x0 * g;
      m.info.origin.position.y = y0 * g;
      m.info.origin.position.z = (c.z + z0) * g;
      m.info.origin.orientation.w = 1;
      m.data = out;
      maps.push_back(m);
    }
  }
};
// a building: floors, slopes, walls, tables, ceilings and stray points; each point well inside of its voxel
std::vector<P3> building(Rng& g, double grid)
{
  std::vector<P3> p;
  const int kind = static_cast<int>(g.i(0, 19));
  auto put = [&](double x, double y, double z) {
    auto in = [&](double a, bool floor) {
      const double c = floor ? std::floor(a / grid + 1e-6) : std::trunc(a / grid);
      double f = g.uni(0.2, 0.8);
      if (!floor && c < 0)
        f = -f;
      else if (!floor && c == 0)
        f = g.uni(-0.8, 0.8);
      return (c + f) * grid;
    };
    p.push_back(P3{in(x, true), in(y, true), in(z, false)});
  };
  if (kind == 0)
    return p;
  if (kind == 1)
  {
    put(g.uni(-5, 5), g.uni(-5, 5), g.uni(-3, 3));
    return p;
  }
  if (kind == 2)
  {
    const int n = static_cast<int>(g.i(1, 300));
    for (int i = 0; i < n; ++i)
      put(g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2));
    return p;
  }
  const int nf = static_cast<int>(g.i(1, 4));
  double z = g.uni(-6, 3), ox = g.uni(-8, 6), oy = g.uni(-8, 6);
  if (g.p(0.2))
    ox = oy = z = 0;
  const double W = g.uni(1, 4), H = g.uni(1, 4);
  for (int f = 0; f < nf; ++f)
  {
    const int per = static_cast<int>(g.i(1, 3));
    const double cover = g.p(0.5) ? 1 : g.uni(0.3, 1);
    const int slope = g.p(0.3) ? static_cast<int>(g.i(1, 4)) : 0;  // steps over the floor
    const double x0 = ox + (g.p(0.3) ? g.uni(-1, 1) : 0), y0 = oy + (g.p(0.3) ? g.uni(-1, 1) : 0);
    const double w = g.p(0.5) ? W : g.uni(0.5, W), h = g.p(0.5) ? H : g.uni(0.5, H);
    const double hole = g.p(0.3) ? g.uni(0, w / 2) : 0;
    for (double x = 0; x < w; x += grid)
      for (double y = 0; y < h; y += grid)
      {
        if (hole > 0 && x > w / 3 && x < w / 3 + hole && y > h / 3 && y < 2 * h / 3)
          continue;
        for (int k = 0; k < per; ++k)
          if (g.p(cover))
            put(x0 + x, y0 + y, z + grid * std::floor(slope * x / w));
      }
    const int nw = static_cast<int>(g.i(0, 4));
    for (int k = 0; k < nw; ++k)
    {
      const bool ax = g.p(0.5);
      const double a = g.uni(0, ax ? h : w), b0 = g.uni(0, (ax ? w : h) / 2), b1 = g.uni(b0, ax ? w : h), zt = g.pick({0.1, 0.3, 0.5, 1.0, 1.5, 2.5}), zb = g.p(0.7) ? 0 : g.uni(0, 2);
      for (double b = b0; b < b1; b += grid)
        for (double q = zb; q < zb + zt; q += grid)
          put(x0 + (ax ? b : a), y0 + (ax ? a : b), z + q);
    }
    const int st = static_cast<int>(g.i(0, 30));
    for (int k = 0; k < st; ++k)
      put(x0 + g.uni(-0.5, w), y0 + g.uni(-0.5, h), z + g.uni(-0.5, 3));
    z += g.p(0.2) ? grid * static_cast<double>(g.i(1, 8)) : g.uni(0.5, 4);
  }
  for (size_t i = p.size(); i > 1; --i)
    std::swap(p[i - 1], p[static_cast<size_t>(g.i(0, static_cast<int>(i) - 1))]);
  return p;
}
struct Extract
{
  Run& r;
  Sim& s;
  Node* node = nullptr;
  FloorParams par;
  std::shared_ptr<FloorRef> ref;
  std::string frame;
  std::vector<Array> arrays;
  std::map<int, std::vector<Grid>> single;
  bool running = false;
  uint64_t n = 0, n_floor = 0, n_empty = 0, n_amb = 0, n_merge = 0;
  ns_t recv_t = 0, exec_t = 0, busy_until = 0;
  uint32_t recv_id = 0, exec_id = 0;
  explicit Extract(Run& rr) : r(rr), s(rr.sim) {}
  void judge()
  {
    ++n;
    r.expect(arrays.size() == 1, "P24", "array-not-published", [&] { return strf("%zu arrays were published for a cloud", arrays.size()); });
    if (arrays.size() != 1)
      return;
    const Array& a = arrays[0];
    size_t ns = 0;
    for (auto& x : single)
      ns += x.second.size();
    r.expect(ns == a.maps.size(), "P24", "maps-differ-from-array", [&] { return strf("%zu maps but an array of %zu were published", ns, a.maps.size()); });
    for (size_t i = 0; i < a.maps.size(); ++i)
    {
      auto& sg = single[static_cast<int>(i)];
      const std::string e = sg.size() == 1 ? diff(a.maps[i], sg[0], 0) : strf("%zu messages", sg.size());
      r.expect(e.empty(), "P24", "map-differs-from-array", [&] { return strf("map%zu differs from the array: %s", i, e.c_str()); });
      const auto& q = a.maps[i].info.origin.orientation;
      r.expect(q.x == 0 && q.y == 0 && q.z == 0 && std::abs(q.w) == 1, "P24", "orientation", [&] { return strf("map%zu has the orientation (%.3f %.3f %.3f %.3f)", i, q.x, q.y, q.z, q.w); });
      r.expect(a.maps[i].header.frame_id == frame, "P24", "frame", [&] { return strf("map in frame '%s' of a cloud in '%s'", a.maps[i].header.frame_id.c_str(), frame.c_str()); });
    }
    if (ref->ambiguous)
    {
      ++n_amb;
      return;
    }
    n_merge += static_cast<uint64_t>(ref->merged);
    if (ref->maps.empty())
      ++n_empty;
    else
      r.nontrivial = true;
    n_floor += ref->maps.size();
    r.expect(a.maps.size() == ref->maps.size(), "P24", "number-of-floors", [&] {
      std::string e = strf("%zu floors at", a.maps.size());
      for (auto& m : a.maps)
        e += strf(" %.3f", m.info.origin.position.z);
      e += strf(" were published instead of %zu at", ref->maps.size());
      for (auto& m : ref->maps)
        e += strf(" %.3f", m.info.origin.position.z);
      return e;
    });
    for (size_t i = 0; i < std::min(a.maps.size(), ref->maps.size()); ++i)
    {
      const std::string e = diff(ref->maps[i], a.maps[i], 1e-6);
      r.expect(e.empty(), "P24", "floor-differs", [&] { return strf("floor %zu of %zu (height %.3f): %s", i, a.maps.size(), ref->maps[i].info.origin.position.z, e.c_str()); });
    }
  }
  void tick()
  {
    if (!node->fiber || node->done || s.now < busy_until || !recv_id)
      return;
    r.expect(running || exec_id == recv_id || s.now - recv_t < 2 * SEC, "P24", "cloud-ignored", [&] { return std::string("a cloud received was not processed"); });
  }
};
void extract(Run& r)
{
  const std::string name = "/pointcloud_to_maps";
  auto* k = new Extract(r);
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  Rng g = r.rng("cfg");
  const bool old = g.p(0.25);
  s.setParam("/neonavigation_compatible", old ? 0 : 1);
  const std::string in = old ? name + "/map_cloud" : "/mapcloud", pn = name + "/";
  auto set = [&s, pn](const char* n, double v) { s.setParam(pn + n, v); };
  auto change = [=](Rng& q, bool all) {
    FloorParams& p = k->par;
    if (all)
    {
      p.grid = q.pick({0.05, 0.1, 0.1, 0.2});
      set("grid", p.grid);
      p.min_area = q.p(0.4) ? 0.001 : q.logu(0.05, 8);
      set("min_floor_area", p.min_area);
    }
    if (q.p(0.5))
      set("points_thresh_rate", p.pts_rate = q.uni(0.1, 0.9));
    if (q.p(0.5))
      set("floor_area_thresh_rate", p.area_rate = q.uni(0.05, 0.95));
    if (q.p(0.4))
      set("robot_height", p.robot_h = p.grid * static_cast<double>(q.i(3, 25)));
    if (q.p(0.4))
      set("floor_height", p.floor_h = p.grid * static_cast<double>(q.i(0, 4)));
    if (q.p(0.4))
      set("floor_tolerance", p.tol = p.grid * static_cast<double>(q.i(0, 4)));
  };
  change(g, true);
  r.note("grid", k->par.grid);
  r.note("min_area", k->par.min_area);
  auto pc = s.pub<sensor_msgs::PointCloud2>(in, true);
  auto clouds = std::make_shared<std::map<uint32_t, std::vector<P3>>>();
  s.onRecv<sensor_msgs::PointCloud2>(name, in, [k, &s](const sensor_msgs::PointCloud2& m, Node*) {
    k->recv_id = m.header.seq;
    k->recv_t = s.now;
  });
  s.onExec<sensor_msgs::PointCloud2>(name, in, [=, &r](const sensor_msgs::PointCloud2& m, Node*) {
    k->exec_id = m.header.seq;
    k->frame = m.header.frame_id;
    k->ref = std::make_shared<FloorRef>((*clouds)[m.header.seq], k->par);
    k->arrays.clear();
    k->single.clear();
  });
  s.cb_hooks.push_back([k, in](Node* n, const std::string& l, bool begin) {
    if (n != k->node || l.find(in) == std::string::npos)
      return;
    k->running = begin;
    if (!begin && k->ref)
    {
      k->judge();
      k->ref.reset();
    }
  });
  s.tap<Array>("/maps", [k](const Array& m, Node* n) {
    if (n == k->node)
      k->arrays.push_back(m);
  });
  for (int i = 0; i < 60; ++i)
    s.tap<Grid>(pn + "map" + std::to_string(i), [k, i](const Grid& m, Node*) { k->single[i].push_back(m); });
  k->node = s.spawn(name, pointcloud_to_maps_main);
  keepServing(r, k->node);
  Rng o = r.rng("ops");
  const ns_t end = T + sec(o.uni(3, 8));
  const double span = (end - T) * 1e-9;
  const int nc = static_cast<int>(o.i(1, 4));
  for (int i = 0; i < nc; ++i)
  {
    const std::string key = "c" + std::to_string(i);
    r.op(T + sec(i == 0 ? o.uni(0, 1) : o.uni(0, span - 2.5)), "cloud", [=, &s, &r] {
      Rng q(r.seed, key);
      std::vector<P3> p = building(q, k->par.grid);
      if (q.p(0.2))
      {
        const double bad[] = {NAN, INFINITY, -INFINITY};
        for (int j = 0; j < 3 + static_cast<int>(p.size() / 50); ++j)
        {
          P3 b{q.uni(-5, 5), q.uni(-5, 5), q.uni(-5, 5)};
          (j % 3 == 0 ? b.x : j % 3 == 1 ? b.y : b.z) = bad[q.i(0, 2)];
          p.push_back(b);
        }
      }
      auto m = cloudMsg(q.p(0.8) ? "map" : "world", s.now, p, q.p(0.3) ? 4 * static_cast<int>(q.i(0, 3)) : 0);
      if (q.p(0.3) && !p.empty())
        m.is_dense = false;
      m.header.seq = static_cast<uint32_t>(i + 1);
      (*clouds)[m.header.seq] = p;
      pc(m);
    });
  }
  for (int i = 0; i < static_cast<int>(o.i(0, 2)); ++i)
  {
    const std::string key = "p" + std::to_string(i);
    r.op(T + sec(o.uni(0.5, span)), "parameters change", [=, &r] {
      if (k->running)
        return;
      Rng q(r.seed, key);
      change(q, false);
    });
  }
  auto late = std::make_shared<std::vector<Array>>();
  s.at(end - 500 * MS, [=, &s] { s.sub<Array>("/maps", [late](const Array& m) { late->push_back(m); }); });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {in + "->"};
    netFaults(r, mix, T, end - 2 * SEC, 4);
    Rng f = r.rng("extra");
    if (f.p(0.3))
    {
      const double d = f.logu(0.01, 2);
      r.faultAt("stall", strf("%.3f s", d), T + sec(f.uni(0.1, 3)), [=, &s] {
        s.stall(k->node, sec(d));
        k->busy_until = std::max(k->busy_until, s.now + sec(d) + SEC);
      });
    }
    if (f.p(0.3))
      r.faultAt("crash", name, T + sec(f.uni(0.1, 3)), [=, &s] {
        s.kill(k->node);
        k->ref.reset();
        k->running = false;
        k->recv_id = k->exec_id = 0;
        k->busy_until = s.now + SEC;
        s.after(300 * MS, [=, &s] { s.restart(k->node); });
      });
  }
  s.every(T + 50 * MS, 50 * MS, [k] { k->tick(); });
  s.run(end);
  if (!k->arrays.empty() && !k->running && k->node->fiber && k->recv_t < end - SEC && s.now > k->busy_until + SEC)
    r.expect(!late->empty() && late->back().maps.size() == k->arrays[0].maps.size(), "P24", "not-latched", [&] { return std::string("a late subscriber got no map array"); });
  s.probe("extract.clouds", k->n);
  s.probe("extract.floors", k->n_floor);
  s.probe("extract.none", k->n_empty);
  s.probe("extract.at_threshold", k->n_amb);
  s.probe("extract.slopes", k->n_merge);
  s.state(mix64(k->n_floor * 100 + k->n_merge * 10 + k->n_empty));
}
// ---------------------------------------------------------------------------------------------
// P25
struct Trans
{
  typedef geometry_msgs::PoseWithCovarianceStamped PC;
  Run& r;
  Sim& s;
  Node* node = nullptr;
  TfRef tf;
  std::string to = "map";
  PC in;
  bool running = false, could = false;
  ns_t end_t = 0, t0 = 0, can_at = -1, busy_until = 0, recv_t = 0;
  uint32_t recv_id = 0, exec_id = 0;
  std::vector<PC> out;
  std::vector<geometry_msgs::Pose> cand;
  uint64_t n_pub = 0, n_drop = 0, n_wait = 0;
  bool stalled = false;
  Trans(Run& rr, const std::string& name) : r(rr), s(rr.sim), tf(rr.sim, name) {}
  void look()
  {
    if (!running)
      return;
    tf2::Stamped<tf2::Transform> t;
    if (!tf.get(to, in.header.frame_id, ros::Time(0), t))
      return;
    if (can_at < 0)
      can_at = s.now;
    // the transformed pose, by plain quaternion arithmetic
    const auto& q = t.getRotation();
    const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    const auto& p = in.pose.pose.position;
    const double tx = 2 * (y * p.z - z * p.y), ty = 2 * (z * p.x - x * p.z), tz = 2 * (x * p.y - y * p.x);
    geometry_msgs::Pose o;
    o.position.x = p.x + w * tx + (y * tz - z * ty) + t.getOrigin().x();
    o.position.y = p.y + w * ty + (z * tx - x * tz) + t.getOrigin().y();
    o.position.z = p.z + w * tz + (x * ty - y * tx) + t.getOrigin().z();
    const auto& a = in.pose.pose.orientation;
    o.orientation.w = w * a.w - x * a.x - y * a.y - z * a.z;
    o.orientation.x = w * a.x + x * a.w + y * a.z - z * a.y;
    o.orientation.y = w * a.y - x * a.z + y * a.w + z * a.x;
    o.orientation.z = w * a.z + x * a.y - y * a.x + z * a.w;
    cand.push_back(o);
  }
  static bool same(const geometry_msgs::Pose& a, const geometry_msgs::Pose& b)
  {
    const double e = 1e-6 * (1 + std::abs(a.position.x) + std::abs(a.position.y) + std::abs(a.position.z));
    const double dp = a.orientation.x * b.orientation.x + a.orientation.y * b.orientation.y + a.orientation.z * b.orientation.z + a.orientation.w * b.orientation.w;
    return std::abs(a.position.x - b.position.x) < e && std::abs(a.position.y - b.position.y) < e && std::abs(a.position.z - b.position.z) < e && std::abs(std::abs(dp) - 1) < 1e-6;
  }
  void begin(const PC& m)
  {
    in = m;
    exec_id = m.header.seq;
    running = true;
    stalled = s.now < busy_until;
    t0 = s.now;
    can_at = -1;
    out.clear();
    cand.clear();
    look();
    could = can_at >= 0;
  }
  void end()
  {
    running = false;
    end_t = s.now;
    if (s.now < busy_until)
      stalled = true;
    if (stalled)
    {
      r.expect(out.size() <= 1, "P25", "twice", [&] { return strf("%zu poses published for one", out.size()); });
      return;
    }
    if (could)
      r.expect(out.size() == 1, "P25", "not-published", [&] { return strf("%zu poses published for one although its transform was there", out.size()); });
    else if (can_at >= 0 && can_at - t0 < 450 * MS)
    {
      ++n_wait;
      r.expect(out.size() == 1, "P25", "not-awaited", [&] { return strf("%zu poses published for one although its transform came %.3f s later", out.size(), (can_at - t0) * 1e-9); });
    }
    else if (can_at < 0)
      r.expect(out.empty(), "P25", "without-transform", [&] { return strf("%zu poses published without a transform", out.size()); });
    r.expect(out.size() <= 1, "P25", "twice", [&] { return strf("%zu poses published for one", out.size()); });
    r.expect(s.now - t0 < 700 * MS, "P25", "waits-too-long", [&] { return strf("the node waited %.3f s for a transform", (s.now - t0) * 1e-9); });
    if (out.empty())
      ++n_drop;
  }
  void published(const PC& m)
  {
    ++n_pub;
    r.nontrivial = true;
    r.expect(running, "P25", "out-of-nowhere", [&] { return std::string("a pose was published without an input"); });
    look();
    out.push_back(m);
    r.expect(m.header.frame_id == to, "P25", "frame", [&] { return strf("the pose was published in frame '%s' instead of '%s'", m.header.frame_id.c_str(), to.c_str()); });
    r.expect(m.pose.covariance == in.pose.covariance, "P25", "covariance", [&] { return std::string("the covariance changed"); });
    bool ok = false;
    for (auto& c : cand)
      ok = ok || same(c, m.pose.pose);
    r.expect(ok || cand.empty(), "P25", "other-pose", [&] {
      const auto &a = m.pose.pose, &b = cand.back();
      return strf("(%.4f, %.4f, %.4f; %.4f, %.4f, %.4f, %.4f) was published instead of (%.4f, %.4f, %.4f; %.4f, %.4f, %.4f, %.4f)", a.position.x, a.position.y, a.position.z, a.orientation.x, a.orientation.y, a.orientation.z, a.orientation.w, b.position.x, b.position.y, b.position.z, b.orientation.x, b.orientation.y, b.orientation.z, b.orientation.w);
    });
  }
  void tick()
  {
    if (!node->fiber || node->done || s.now < busy_until || !recv_id || running)
      return;
    r.expect(exec_id == recv_id || s.now - std::max(recv_t, end_t) < 100 * MS, "P25", "pose-ignored", [&] { return std::string("a pose received was not processed"); });
  }
};
void pose(Run& r)
{
  typedef Trans::PC PC;
  const std::string name = "/pose_transform";
  auto* k = new Trans(r, name);
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  Rng g = r.rng("cfg");
  const bool old = g.p(0.25);
  s.setParam("/neonavigation_compatible", old ? 0 : 1);
  const std::string in = old ? name + "/pose_in" : "/pose_in", outp = old ? name + "/pose_out" : "/pose_out";
  if (g.p(0.4))
    s.setParam(name + "/to_frame", k->to = g.pick({std::string("map_ground"), std::string("world"), std::string("nowhere")}));
  k->tf.changed = [k] { k->look(); };
  s.onRecv<PC>(name, in, [k, &s](const PC& m, Node*) {
    k->recv_id = m.header.seq;
    k->recv_t = s.now;
  });
  s.onExec<PC>(name, in, [k](const PC& m, Node*) { k->begin(m); });
  s.cb_hooks.push_back([k, in](Node* n, const std::string& l, bool begin) {
    if (n == k->node && !begin && k->running && l.find(in) != std::string::npos)
      k->end();
  });
  s.tap<PC>(outp, [k](const PC& m, Node*) { k->published(m); });
  k->node = s.spawn(name, pose_transform_main);
  keepServing(r, k->node);
  auto* tp = new TfPub(s);
  struct E
  {
    const char *a, *b;
    bool st, on;
    double x, y, z, q[4];
  };
  auto* es = new std::vector<E>;
  auto edge = [&](const char* a, const char* b, bool st) {
    E e{a, b, st, g.p(0.85), g.uni(-10, 10), g.uni(-10, 10), g.uni(-5, 5), {0, 0, 0, 1}};
    double n = 0;
    for (double& c : e.q)
      n += (c = g.uni(-1, 1)) * c;
    for (double& c : e.q)
      c /= std::sqrt(n);
    es->push_back(e);
  };
  edge("map_ground", "map", g.p(0.3));
  edge("map", "odom", g.p(0.3));
  edge("odom", "base_link", false);
  edge("world", "map_ground", true);
  auto send = [=, &s](size_t i) {
    const E& e = (*es)[i];
    geometry_msgs::TransformStamped t;
    t.header.frame_id = e.a;
    t.child_frame_id = e.b;
    t.header.stamp = rosTime(s.now);
    t.transform.translation.x = e.x;
    t.transform.translation.y = e.y;
    t.transform.translation.z = e.z;
    t.transform.rotation.x = e.q[0];
    t.transform.rotation.y = e.q[1];
    t.transform.rotation.z = e.q[2];
    t.transform.rotation.w = e.q[3];
    if (e.st)
      tp->sendStatic(t);
    else
      tp->send(t);
  };
  for (size_t i = 0; i < es->size(); ++i)
    if ((*es)[i].st)
      s.at(T + sec(g.p(0.5) ? 0 : g.uni(0, 3)), [=] { send(i); });
    else
      s.every(T + sec(g.uni(0, 0.1)), sec(g.pick({0.02, 0.05, 0.1})), [=] {
        E& e = (*es)[i];
        e.x += 0.01;
        const double c = std::cos(0.01), d = std::sin(0.01);
        const double q2 = e.q[2] * c + e.q[3] * d, q3 = e.q[3] * c - e.q[2] * d;
        e.q[2] = q2;
        e.q[3] = q3;
        if (e.on)
          send(i);
      });
  Rng o = r.rng("ops");
  const ns_t end = T + sec(o.uni(4, 12));
  const double span = (end - T) * 1e-9;
  for (size_t i = 0; i < es->size(); ++i)
    if (!(*es)[i].st)
    {
      const int n = (*es)[i].on ? static_cast<int>(o.i(0, 2)) : 1 + static_cast<int>(o.i(0, 1));
      for (int j = 0; j < n; ++j)
        r.op(T + sec(o.uni(0, span)), strf("transform of %s switched", (*es)[i].b), [=] { (*es)[i].on = !(*es)[i].on; });
    }
  auto pub = s.pub<PC>(in, g.p(0.3));
  const int np = static_cast<int>(o.i(2, 25));
  ns_t t = T;
  for (int i = 0; i < np; ++i)
  {
    t = o.p(0.3) ? t + sec(o.uni(0, 0.05)) : T + sec(o.uni(0, span - 1.5));
    const std::string key = "p" + std::to_string(i);
    r.op(t, "pose", [=, &r, &s] {
      Rng q(r.seed, key);
      PC m;
      m.header.seq = static_cast<uint32_t>(i + 1);
      m.header.frame_id = q.p(0.05) ? q.pick({std::string(), std::string("/map"), std::string("unknown")}) : q.pick({std::string("map"), std::string("map"), std::string("odom"), std::string("base_link"), std::string("map_ground"), std::string("world")});
      m.header.stamp = rosTime(s.now - sec(q.p(0.3) ? q.uni(0, 20) : q.uni(0, 0.1)) + (q.p(0.1) ? 100 * SEC : 0));
      m.pose.pose.position.x = q.uni(-100, 100);
      m.pose.pose.position.y = q.uni(-100, 100);
      m.pose.pose.position.z = q.uni(-10, 10);
      double n = 0, c[4];
      for (double& v : c)
        n += (v = q.uni(-1, 1)) * v;
      m.pose.pose.orientation.x = c[0] / std::sqrt(n);
      m.pose.pose.orientation.y = c[1] / std::sqrt(n);
      m.pose.pose.orientation.z = c[2] / std::sqrt(n);
      m.pose.pose.orientation.w = c[3] / std::sqrt(n);
      for (double& v : m.pose.covariance)
        v = q.uni(-1, 1);
      pub(m);
    });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {in + "->", "/tf->", "/tf_static"};
    netFaults(r, mix, T, end, 6);
    Rng f = r.rng("extra");
    const int nst = static_cast<int>(f.i(0, 2));
    for (int i = 0; i < nst; ++i)
    {
      const double d = f.logu(0.01, 2);
      r.faultAt("stall", strf("%.3f s", d), T + sec(f.uni(0.2, span)), [=, &s] {
        s.stall(k->node, sec(d));
        k->busy_until = std::max(k->busy_until, s.now + sec(d) + 800 * MS);
      });
    }
    if (f.p(0.25))
      r.faultAt("crash", name, T + sec(f.uni(0.5, span)), [=, &s] {
        s.kill(k->node);
        k->running = false;
        k->recv_id = k->exec_id = 0;
        k->busy_until = s.now + 600 * MS;
        s.after(300 * MS, [=, &s] {
          k->tf.reset();
          s.restart(k->node);
        });
      });
  }
  s.every(T + 20 * MS, 20 * MS, [k] { k->tick(); });
  s.run(end);
  s.probe("pose.published", k->n_pub);
  s.probe("pose.dropped", k->n_drop);
  s.probe("pose.waited", k->n_wait);
  s.state(mix64(k->n_pub * 100 + k->n_drop * 10 + k->n_wait));
}
struct Init
{
  Init()
  {
    harness().real = "save_maps, tie_maps, select_map, pointcloud_to_maps and pose_transform nodes";
    harness().stub = "roscpp, tf2, PCL, yaml-cpp and map_server's image loader replaced by simros; files behind a fault injecting seam";
  }
} init_;
Register r1("files", {{"P22", 1.0}}, files);
Register r2("select", {{"P23", 1.0}}, select);
Register r3("extract", {{"P24", 1.0}}, extract);
Register r4("pose", {{"P25", 1.0}}, pose);
}  // namespace
