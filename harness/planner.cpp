// planner_3d: paths (P10), goals (P11), stale data and unreachable goals (P12), distance map (P14), remembered map (P15), make_plan (P16).
#include <world.h>
#include <sim/omp.h>
#include <queue>
#include <actionlib_msgs/GoalID.h>
#include <actionlib_msgs/GoalStatus.h>
#include <actionlib_msgs/GoalStatusArray.h>
#include <costmap_cspace_msgs/CSpace3D.h>
#include <costmap_cspace_msgs/CSpace3DUpdate.h>
#include <geometry_msgs/PoseArray.h>
#include <geometry_msgs/PoseStamped.h>
#include <move_base_msgs/MoveBaseAction.h>
#include <nav_msgs/GetPlan.h>
#include <nav_msgs/OccupancyGrid.h>
#include <nav_msgs/Path.h>
#include <planner_cspace_msgs/MoveWithToleranceAction.h>
#include <planner_cspace_msgs/PlannerStatus.h>
#include <sensor_msgs/PointCloud.h>
#include <std_msgs/Empty.h>
#include <std_srvs/Empty.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
using namespace sim;
using namespace world;
int planner_3d_main(int, char**);
namespace
{
typedef planner_cspace_msgs::PlannerStatus PS;
typedef actionlib_msgs::GoalStatus GS;
const char* const PN = "/planner_3d";
struct C3
{
  int x = 0, y = 0, t = 0;
  bool operator==(const C3& o) const { return x == o.x && y == o.y && t == o.t; }
};
struct MapDef
{
  int w = 20, h = 20, a = 8;
  float res = 0.1f, ares = 0;
  double ox = 0, oy = 0;
  std::vector<int8_t> d;  // [t][y][x]
  bool yaw_dep = false;
  size_t at(int x, int y, int t) const { return (static_cast<size_t>(t) * h + y) * w + x; }
  bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
  C3 cell(const Pose2& p) const
  {
    C3 c;
    c.x = static_cast<int>(std::floor((p.x - ox) / res));
    c.y = static_cast<int>(std::floor((p.y - oy) / res));
    c.t = static_cast<int>(((std::lround(wrap(p.th) / ares) % a) + a) % a);
    return c;
  }
  Pose2 pose(const C3& c) const { return Pose2(ox + (c.x + 0.5) * res, oy + (c.y + 0.5) * res, wrap(c.t * static_cast<double>(ares))); }
};
struct Conf
{
  double freq = 4, freq_min = 2, search_range = 0.4, watchdog = 0, max_vel = 0.6, max_w = 1.5, min_curve = 0.1, weight_costmap = 50, weight_remembered = 1000, tol_lin = 0.05, tol_ang = 0.1, tol_fin = 0.05,
         hist_min = 0.6, hist_max = 1.25, hit = 0.6, miss = 0.3, local_range = 2.5, longcut = 0, esc_range = 0.25, tol_range = 0.25, tol_angle = 0, sw_wait = 2, timeout_abort = 30, weight_ang = 1, weight_hyst = 5;
  bool antialias = false, overwrite = false, remember = false, find_best = true, force_ori = true, escape = false, fast = false, keep = false, trigger = false, crowd = false, retain = true;
  int unknown = 100, retry = -1, reloc = 50, threads = 1, tasks = 16;
};
/// What the planner has been told, as the reference sees it.
struct Model
{
  bool has_map = false;
  MapDef m;  // geometry
  std::vector<int> base, cm;        // [t][y][x]
  std::vector<int> rbase, rough, upd;    // [y][x]
  int px0 = 0, px1 = -1, py0 = 0, py1 = -1;
  std_msgs::Header hd;
  ns_t last = 0;  // node clock of the last applied update
  bool has_retained = false;
  costmap_cspace_msgs::CSpace3DUpdate retained;
  uint64_t version = 0;
  int n_applied = 0, n_rejected = 0;
  int cmAt(int x, int y, int t) const { return cm[m.at(x, y, t)]; }
  int roughAt(int x, int y) const { return rough[static_cast<size_t>(y) * m.w + x]; }
  void map(const costmap_cspace_msgs::CSpace3D& s, int unknown)
  {
    m.w = static_cast<int>(s.info.width);
    m.h = static_cast<int>(s.info.height);
    m.a = static_cast<int>(s.info.angle);
    m.res = s.info.linear_resolution;
    m.ares = s.info.angular_resolution;
    m.ox = s.info.origin.position.x;
    m.oy = s.info.origin.position.y;
    hd = s.header;
    base.assign(s.data.size(), 0);
    for (size_t i = 0; i < s.data.size(); ++i)
      base[i] = s.data[i] < 0 ? unknown : s.data[i];
    cm = base;
    rbase.assign(static_cast<size_t>(m.w) * m.h, 100);
    for (int t = 0; t < m.a; ++t)
      for (int y = 0; y < m.h; ++y)
        for (int x = 0; x < m.w; ++x)
          rbase[static_cast<size_t>(y) * m.w + x] = std::min(rbase[static_cast<size_t>(y) * m.w + x], base[m.at(x, y, t)]);
    rough = rbase;
    upd.assign(rough.size(), 0);
    px1 = py1 = -1;
    px0 = py0 = 0;
    has_map = true;
    ++version;
  }
  /// No obstacle other than those of the map is left.
  bool clearOf(const C3&) const { return cm == base && rough == rbase; }
  /// Returns false if the update does not fit the map.
  bool update(const costmap_cspace_msgs::CSpace3DUpdate& u, bool overwrite, ns_t now)
  {
    const int64_t x1 = static_cast<int64_t>(u.x) + u.width, y1 = static_cast<int64_t>(u.y) + u.height;
    if (x1 > m.w || y1 > m.h || static_cast<int64_t>(u.yaw) + u.angle > m.a)
    {
      retained = u;
      has_retained = true;
      ++n_rejected;
      return false;
    }
    last = now;
    for (int y = py0; y <= py1; ++y)
      for (int x = px0; x <= px1; ++x)
      {
        for (int t = 0; t < m.a; ++t)
          cm[m.at(x, y, t)] = base[m.at(x, y, t)];
        rough[static_cast<size_t>(y) * m.w + x] = rbase[static_cast<size_t>(y) * m.w + x];
        upd[static_cast<size_t>(y) * m.w + x] = -1;
      }
    px0 = static_cast<int>(u.x);
    px1 = static_cast<int>(x1) - 1;
    py0 = static_cast<int>(u.y);
    py1 = static_cast<int>(y1) - 1;
    for (int y = 0; y < static_cast<int>(u.height); ++y)
      for (int x = 0; x < static_cast<int>(u.width); ++x)
      {
        int mn = 100;
        const int gx = px0 + x, gy = py0 + y;
        for (int t = 0; t < static_cast<int>(u.angle); ++t)
        {
          const int c = u.data[(static_cast<size_t>(t) * u.height + y) * u.width + x];
          mn = std::min(mn, c);
          int& o = cm[m.at(gx, gy, t + static_cast<int>(u.yaw))];
          if (overwrite ? c >= 0 : c > o)
            o = c;
        }
        upd[static_cast<size_t>(gy) * m.w + gx] = mn;
        int& o = rough[static_cast<size_t>(gy) * m.w + gx];
        o = std::max(o, mn);
      }
    has_retained = false;
    ++version;
    ++n_applied;
    return true;
  }
  /// Cells of the coarse map from which the goal cell can be reached (the start cells may be lethal).
  std::vector<char> flood(int gx, int gy) const
  {
    std::vector<char> f(rough.size(), 0);
    if (!m.in(gx, gy))
      return f;
    std::vector<std::pair<int, int>> q{{gx, gy}};
    f[static_cast<size_t>(gy) * m.w + gx] = 1;
    while (!q.empty())
    {
      auto [x, y] = q.back();
      q.pop_back();
      if (roughAt(x, y) > 99)
        continue;  // reached, not crossed
      for (int dy = -1; dy <= 1; ++dy)
        for (int dx = -1; dx <= 1; ++dx)
          if (m.in(x + dx, y + dy) && !f[static_cast<size_t>(y + dy) * m.w + x + dx])
          {
            f[static_cast<size_t>(y + dy) * m.w + x + dx] = 1;
            q.push_back({x + dx, y + dy});
          }
    }
    return f;
  }
};
struct BbfCell
{
  float lo, hi;
};
/// A goal sent to one of the action servers.
struct GoalRec
{
  std::string id;
  bool tol = false, exec = false, accepted = false, done = false, cancel = false, clear = false, replaced = false, other = false, rejectable = false, stale_stamp = false;
  uint8_t status = 0;
  Pose2 p;
  std::string frame;
  double tl = 0, ta = 0, tf = 0;
  bool cont = false;
  ns_t t_sent = 0, t_exec = 0, t_done = 0, stamp = 0;
};

struct Pl
{
  Run& r;
  Sim& s;
  Node* node = nullptr;
  Conf c, c_next;
  Model md;
  MapDef truth;      // the map in force
  std::string map_frame = "map";
  // robot
  Pose2 robot, mo;   // pose in the map, map->odom
  std::vector<Pose2> rpath;
  size_t ridx = 0;
  bool follow = true;
  struct Hist
  {
    ns_t t;
    Pose2 p;
  };
  std::deque<Hist> hist;
  double tf_lag = 0;     // largest delay of a transform
  ns_t busy_until = 0;   // stalls
  std::vector<std::pair<ns_t, ns_t>> disturbed;
  bool velpath = false, compat = false;
  ns_t t_jump = -100 * SEC;  // transforms in between are interpolated
  TfPub* tf_pub = nullptr;
  std::string path_topic, mapt, updt, goalt;
  // planning cycle under way
  struct Cycle
  {
    bool has_end = false, has_poses = false, has_start = false;
    C3 end, start;
    std::vector<C3> poses;
    std::vector<size_t> sizes;
    bool progress = false;
    std::vector<Pose2> last;
    ns_t t_start = 0;
  } cy;
  std::string label;
  ns_t cb_t0 = 0, last_hi = 0;
  /// Latest time at which the last update may have been applied (the callback may be stalled halfway).
  ns_t lastHi() const { return !label.empty() && cb_t0 && md.last >= cb_t0 ? nn() : std::max(md.last, last_hi); }
  // state machine of the goal
  bool live = false;
  enum { NONE, TOPIC, MB, TOL } live_kind = NONE;
  std::map<std::string, GoalRec> goals;
  std::string act[2];  // active goal of move_base, tolerant_move
  Pose2 goal;          // as requested
  ns_t goal_t = 0;
  bool esc_asked = false;
  bool escaping() const { return c.escape || esc_asked; }
  double g_tl = 0, g_ta = 0, g_tf = 0;
  // The costmap must not get old without the path being withdrawn.
  void watch()
  {
    if (!node || c.watchdog <= 0 || !md.has_map || slow || s.now < busy_until + 2 * SEC || s.now < conf_t + 2 * SEC)
      return;
    const double bound = c.trigger ? 2 * c.watchdog + planTime() + 0.3 : c.watchdog + std::max(1 / c.freq, c.sw_wait) + planTime() + 0.3;
    const double age = (nn() - std::max(md.last, conf_t)) * 1e-9;
    if (age < bound)
      return;
    r.nontrivial = true;
    s.probe("planner.watch_stale");
    r.expect(last_path_n == 0, "P12", "stale-path-left", [&] { return strf("costmap %.3f s old (watchdog %.3f s), the last path of %zu poses was not withdrawn", age, c.watchdog, last_path_n); });
  }
  double g_tr = 0, g_tra = 0;  // largest tolerance_range, tolerance_angle since the goal was set
  bool g_cont = false;
  bool goal_lethal_seen = false, start_lethal_seen = false;
  PS st;
  int n_status = 0;
  ns_t last_path_t = 0;
  size_t last_path_n = 0;
  ns_t conf_t = 0;
  ns_t t_spawn = 0;
  bool has_goal_ever = false;
  // distance map
  bool dm_valid = false;
  std::vector<float> dm;
  uint64_t dm_version = 0;
  // counters
  int n_plan = 0, n_path = 0, n_empty = 0, n_fin = 0, n_stale = 0, n_nf = 0, n_rock = 0, n_succ = 0, n_dm = 0, n_dmcmp = 0, n_best = 0, n_mp = 0, n_mpok = 0, n_mpfail = 0, n_rm = 0, n_forget = 0, n_jump = 0, n_curve = 0, n_turn = 0, n_roughstep = 0, n_escape = 0;
  ns_t stale_since = -1;
  // remembered map
  std::vector<BbfCell> bbf;
  bool bbf_unknown = false;
  int bbf_hits = 0;

  explicit Pl(Run& run) : r(run), s(run.sim) {}
  ns_t nn() const { return s.now + (node ? node->clock_off + (s.cur == node ? node->debt : 0) : 0); }
  int range() const { return static_cast<int>(static_cast<float>(c.search_range) / md.m.res); }
  int cells(double v) const { return static_cast<int>(std::lround(v / md.m.res)); }
  void posesNear(ns_t back, const std::function<void(const Pose2&)>& fn) const
  {
    for (auto& h : hist)
      if (h.t >= s.now - back)
        fn(h.p);
    fn(robot);
  }
  ns_t window() const { return 400 * MS + sec(tf_lag) + (s.now < busy_until + SEC ? 2 * SEC : 0) + sec(1.3 / c.freq_min); }
  static ns_t sec(double x) { return static_cast<ns_t>(x * 1e9); }
  bool planning(const std::string& l) const { return l.empty() || l == updt || l == mapt || contains(l, "timer"); }

  // --- reference geometry of one step between grid cells
  bool lethal(double fx, double fy, double ft) const
  {
    const int x = static_cast<int>(std::lround(fx)), y = static_cast<int>(std::lround(fy));
    const auto edge = [](double v) { return std::abs(std::abs(v - std::lround(v)) - 0.5) < 2e-3; };
    if (edge(fx) || edge(fy) || edge(ft))
      return false;  // rounding decides
    const int t = static_cast<int>(((std::lround(ft) % md.m.a) + md.m.a) % md.m.a);
    return !md.m.in(x, y) || md.cmAt(x, y, t) > 99;
  }
  bool stepOk(const C3& a, const C3& b, const C3& start, std::string& why)
  {
    const MapDef& m = md.m;
    const int dx = b.x - a.x, dy = b.y - a.y;
    int dt = b.t - a.t;
    while (dt > m.a / 2)
      dt -= m.a;
    while (dt < -m.a / 2)
      dt += m.a;
    const double slack = c.antialias ? 2 : 0;
    const double ds = std::hypot(start.x - a.x, start.y - a.y);
    const int lr = cells(c.local_range);
    const bool may_rough = ds >= lr - slack - 1e-9, must_rough = ds >= lr + slack - 1e-9;
    const double len = std::hypot(dx, dy);
    const int R = range();
    if (len > R + 1e-9)
    {
      why = strf("step of %.2f cells, the search range is %d", len, R);
      return false;
    }
    if (dx == 0 && dy == 0)
    {
      if (dt == 0)
      {
        why = "no movement";
        return false;
      }
      if (must_rough)
      {
        why = "turn outside of the local range";
        return false;
      }
      ++n_turn;
      for (int dir : {1, -1})
      {
        const int n = dir > 0 ? (dt + m.a) % m.a : (m.a - dt) % m.a;
        if (n > m.a / 2 + (m.a & 1))
          continue;
        bool ok = true;
        for (int i = 0; i <= n; ++i)
          ok = ok && md.cmAt(a.x, a.y, ((a.t + dir * i) % m.a + m.a) % m.a) <= 99;
        if (ok)
          return true;
      }
      why = "turn in place through a lethal orientation";
      return false;
    }
    const double ya = a.t * static_cast<double>(m.ares);
    const double vx = (dx * std::cos(ya) + dy * std::sin(ya)) * m.res, vy = (-dx * std::sin(ya) + dy * std::cos(ya)) * m.res;
    const double dyaw = dt * static_cast<double>(m.ares);
    if (dt == 0)
    {
      const bool straight = std::abs(vx) * std::tan(static_cast<double>(m.ares)) >= 2 * std::abs(vy) * (1 - 1e-4) && std::lround(vx / m.res) != 0;
      if (!straight && !may_rough)
      {
        why = strf("sideways step (%.2f, %.2f) within the local range", vx, vy);
        return false;
      }
      if (!straight)
        ++n_roughstep;
      const int n = static_cast<int>(std::round(len / 0.1));
      for (int i = 0; i < n; ++i)
        if (lethal(a.x + dx * (i / static_cast<double>(n)), a.y + dy * (i / static_cast<double>(n)), a.t))
        {
          why = "straight step through a lethal cell";
          return false;
        }
      return true;
    }
    if (must_rough)
    {
      why = "curve outside of the local range";
      return false;
    }
    ++n_curve;
    if (std::abs(dyaw) >= M_PI / 2 - 1e-6 || std::abs(vy) < m.res / 2 - 1e-6 || vx * vy * dyaw < -1e-9 || len < 3 - 1e-9)
    {
      why = strf("impossible curve: (%.3f, %.3f) turning %.3f", vx, vy, dyaw);
      return false;
    }
    const double r1 = vy + vx * std::cos(dyaw) / std::sin(dyaw);
    const double r2 = std::copysign(std::sqrt(vx * vx + std::pow(vx * std::cos(dyaw) / std::sin(dyaw), 2)), vx * std::sin(dyaw));
    if (std::abs(r1 - r2) >= m.res * 1.5 + 1e-5 || std::abs((r1 + r2) / 2) < c.min_curve - 1e-5)
    {
      why = strf("curve of radii %.3f and %.3f, least is %.3f", r1, r2, c.min_curve);
      return false;
    }
    const double yb = ya + dyaw, cx = dx * m.res + r2 * std::cos(yb + M_PI / 2), cyy = dy * m.res + r2 * std::sin(yb + M_PI / 2), cxs = r1 * std::cos(ya + M_PI / 2), cys = r1 * std::sin(ya + M_PI / 2);
    const int n = static_cast<int>(std::round(len / 0.1));
    for (int i = 0; i < n; ++i)
    {
      const double q = i / static_cast<double>(n), rr = r1 * (1 - q) + r2 * q, yaw = ya + q * dyaw;
      const double x = (cxs * (1 - q) + cx * q - rr * std::cos(yaw + M_PI / 2)) / m.res, y = (cys * (1 - q) + cyy * q - rr * std::sin(yaw + M_PI / 2)) / m.res;
      if (lethal(a.x + x, a.y + y, yaw / m.ares))
      {
        why = "curve through a lethal cell";
        return false;
      }
    }
    return true;
  }
  std::string str(const C3& p) const { return strf("(%d %d %d)", p.x, p.y, p.t); }
  C3 cellOf(const geometry_msgs::Pose& p) const { return md.m.cell(Pose2(p.position.x, p.position.y, yawOf(p.orientation))); }

  // --- outputs
  void onEnd(const geometry_msgs::PoseStamped& m)
  {
    if (!md.has_map)
      return;
    cy = Cycle();
    cy.has_end = true;
    cy.end = cellOf(m.pose);
  }
  void onStart(const geometry_msgs::PoseStamped& m)
  {
    if (!md.has_map)
      return;
    cy.has_start = true;
    cy.t_start = nn();
    cy.start = cellOf(m.pose);
    if (md.m.in(cy.start.x, cy.start.y) && md.cmAt(cy.start.x, cy.start.y, cy.start.t) > 99)
      start_lethal_seen = true;
    bool ok = false;
    double best = 1e9;
    posesNear(window(), [&](const Pose2& p) {
      const double d = std::hypot(p.x - m.pose.position.x, p.y - m.pose.position.y);
      const double a = std::abs(wrap(p.th - yawOf(m.pose.orientation)));
      best = std::min(best, d);
      ok = ok || (std::abs(p.x - m.pose.position.x) <= md.m.res * 1.01 && std::abs(p.y - m.pose.position.y) <= md.m.res * 1.01 && a <= md.m.ares * 1.01);
    });
    r.expect(ok || t_jump > s.now - window(), "P10", "start-not-at-robot", [&] { return strf("planning starts at (%.3f %.3f %.3f), %.3f m from the robot", m.pose.position.x, m.pose.position.y, yawOf(m.pose.orientation), best); });
    const C3 g = md.m.cell(goal);
    // the goal, or a cell near it if it is occupied
    if (live && !escaping())
    {
      const int d2 = (cy.end.x - g.x) * (cy.end.x - g.x) + (cy.end.y - g.y) * (cy.end.y - g.y);
      const int tr = cells(g_tr);
      int da = std::abs(cy.end.t - g.t);
      da = std::min(da, md.m.a - da);
      const int ta = static_cast<int>(std::lround(g_tra / md.m.ares));
      r.expect((cy.end == g) || (goal_lethal_seen && d2 <= tr * tr && da <= ta), "P10", "other-goal",
               [&] { return strf("planning to cell %s, the goal is cell %s (occupied at some time: %d), tolerance %d cells", str(cy.end).c_str(), str(g).c_str(), goal_lethal_seen, tr); });
    }
    if (escaping() && live && !(cy.end == g))
      ++n_escape;
  }
  void onPoses(const geometry_msgs::PoseArray& m)
  {
    cy.has_poses = true;
    cy.poses.clear();
    for (auto& p : m.poses)
      cy.poses.push_back(cellOf(p));
  }
  void onPath(const nav_msgs::Path& m)
  {
    r.expect(!in_mp, "P16", "disturbs", [] { return std::string("a path was published by the plan service"); });
    last_path_t = s.now;
    last_path_n = m.poses.size();
    cy.sizes.push_back(m.poses.size());
    if (m.poses.empty())
    {
      ++n_empty;
      return;
    }
    if (!md.has_map)
    {
      r.expect(false, "P12", "path-without-map", [&] { return std::string("non-empty path before any map"); });
      return;
    }
    r.expect(m.header.frame_id == md.hd.frame_id, "P10", "frame", [&] { return "path in frame " + m.header.frame_id; });
    r.expect(planning(label), "P10", "path-outside-of-planning", [&] { return "non-empty path published by " + label; });
    r.expect(live, "P11", "path-without-goal", [&] { return strf("path of %zu poses although no goal is being pursued", m.poses.size()); });
    if (c.watchdog > 0)
    {
      // when the planning started; a long search may outlast the watchdog
      const double age = ((cy.has_start ? cy.t_start : nn()) - lastHi()) * 1e-9;
      r.expect(age <= c.watchdog + 0.06 + (slow ? planTime() : 0.0), "P12", "path-on-stale-costmap", [&] { return strf("path of %zu poses planned %.3f s after the last costmap update, watchdog is %.3f s", m.poses.size(), age, c.watchdog); });
    }
    if (!cy.has_poses)
    {
      r.expect(m.poses.size() == 1, "P10", "path-without-plan", [&] { return strf("path of %zu poses without planning", m.poses.size()); });
      ++n_fin;
      return;
    }
    ++n_path;
    r.nontrivial = true;
    checkPath(m);
  }
  double plan_time = 0;
  double planTime() const { return plan_time; }
  void checkPath(const nav_msgs::Path& m)
  {
    const MapDef& mm = md.m;
    const auto& P = cy.poses;
    std::string w;
    if (getenv("PL_TRACE"))
    {
      std::string t = "HIST path";
      for (auto& p : P)
        t += " " + str(p) + strf(":%d", md.cmAt(p.x, p.y, p.t));
      s.trace(t);
    }
    for (auto& p : P)
    {
      if (!mm.in(p.x, p.y))
      {
        r.expect(false, "P10", "off-map", [&] { return "path cell " + str(p) + " is outside of the map"; });
        return;
      }
      if (md.cmAt(p.x, p.y, p.t) > 99)
      {
        r.expect(false, "P10", "lethal-cell", [&] { return strf("path of %zu cells passes cell %s of cost %d; starts at %s, goal %s", P.size(), str(p).c_str(), md.cmAt(p.x, p.y, p.t), str(P.front()).c_str(), str(cy.end).c_str()); });
        return;
      }
    }
    for (size_t i = 1; i < P.size(); ++i)
      if (!stepOk(P[i - 1], P[i], P[0], w))
      {
        r.expect(false, "P10", "bad-step", [&] { return strf("step %zu of %zu from cell %s to %s: %s (start %s, local range %d)", i, P.size() - 1, str(P[i - 1]).c_str(), str(P[i]).c_str(), w.c_str(), str(P[0]).c_str(), cells(c.local_range)); });
        return;
      }
    // metric path: free, dense, and through the planned cells in order
    size_t j = 0;
    for (size_t i = 0; i < m.poses.size(); ++i)
    {
      const auto& q = m.poses[i].pose;
      const double fx = (q.position.x - mm.ox) / mm.res - 0.5, fy = (q.position.y - mm.oy) / mm.res - 0.5, ft = yawOf(q.orientation) / mm.ares;
      if (!std::isfinite(fx) || !std::isfinite(fy) || !std::isfinite(ft))
      {
        r.expect(false, "P10", "not-finite", [&] { return std::string("path pose is not a finite number"); });
        return;
      }
      if (lethal(fx, fy, ft))
      {
        r.expect(false, "P10", "lethal-pose", [&] { return strf("pose %zu of %zu of the path (%.3f %.3f %.3f) lies in a lethal cell; %zu planned cells", i, m.poses.size(), q.position.x, q.position.y, yawOf(q.orientation), P.size()); });
        return;
      }
      if (i)
      {
        const auto& o = m.poses[i - 1].pose;
        const double d = std::hypot(q.position.x - o.position.x, q.position.y - o.position.y);
        if (d > mm.res * (P.size() < m.poses.size() ? 1.05 : 1e9))
        {
          r.expect(false, "P10", "gap", [&] { return strf("poses %zu and %zu of the path are %.3f m apart, the resolution is %.3f", i - 1, i, d, mm.res); });
          return;
        }
      }
      if (j < P.size())
      {
        const Pose2 e = mm.pose(P[j]);
        if (std::hypot(e.x - q.position.x, e.y - q.position.y) < mm.res * 0.02 && std::abs(wrap(e.th - yawOf(q.orientation))) < mm.ares * 0.02)
          ++j;
      }
    }
    r.expect(j == P.size(), "P10", "not-through-cells", [&] { return strf("path of %zu poses misses planned cell %s (%zu of %zu)", m.poses.size(), j < P.size() ? str(P[j]).c_str() : "-", j, P.size()); });
    // start
    if (!P.empty() && cy.has_start)
    {
      const double d = std::hypot(P[0].x - cy.start.x, P[0].y - cy.start.y);
      double lim = c.keep ? (0.1 + c.max_vel * (1.5 / c.freq + c.sw_wait)) / mm.res + 3 + range() : md.cmAt(cy.start.x, cy.start.y, cy.start.t) > 99 || c.antialias ? std::max(1.5, cells(c.tol_range) + 1e-9) : 0;
      posesNear(window(), [&](const Pose2& p) {
        // on the line between two cells: rounding decides
        const double fx = (p.x - mm.ox) / mm.res, fy = (p.y - mm.oy) / mm.res;
        if (std::abs(fx - std::lround(fx)) < 1e-3 || std::abs(fy - std::lround(fy)) < 1e-3)
          lim = std::max(lim, 1.5);
      });
      r.expect(d <= lim + 1e-9, "P10", "start-off", [&] { return strf("path starts at cell %s, the robot is in cell %s of cost %d", str(P[0]).c_str(), str(cy.start).c_str(), md.cmAt(cy.start.x, cy.start.y, cy.start.t)); });
    }
    cy.last.clear();
  }
  /// Checks of one planning cycle, at the status which ends it.
  void onStatus(const PS& m)
  {
    r.expect(!in_mp, "P16", "disturbs", [] { return std::string("a planner status was published by the plan service"); });
    ++n_status;
    if (!planning(label))
    {
      st = m;
      return;
    }
    ++n_plan;
    const bool empty = !cy.sizes.empty() && cy.sizes.back() == 0;
    const bool nonempty = std::any_of(cy.sizes.begin(), cy.sizes.end(), [](size_t n) { return n > 0; });
    // stale costmap
    if (c.watchdog > 0)
    {
      const double age = (static_cast<ns_t>(m.header.stamp.toNSec()) - lastHi()) * 1e-9;
      const double age2 = (nn() - md.last) * 1e-9;
      if (age > c.watchdog + 0.002 && label != updt)
      {
        ++n_stale;
        r.nontrivial = true;
        r.expect(m.error == PS::DATA_MISSING || ((!live || topic_rejectable || m.status == PS::DONE) && !c.retain), "P12", "stale-not-reported", [&] { return strf("costmap %.3f s old (watchdog %.3f s), error status %d, status %d, live %d, retain %d", age, c.watchdog, m.error, m.status, live ? 1 : 0, c.retain ? 1 : 0); });
        r.expect(empty && !nonempty, "P12", "stale-not-stopped", [&] { return strf("costmap %.3f s old (watchdog %.3f s), %s", age, c.watchdog, nonempty ? "non-empty path published" : "no path published"); });
      }
      else if (age2 < c.watchdog - 0.002 && m.error == PS::DATA_MISSING && live && cy.has_end)
        r.expect(false, "P12", "fresh-reported-stale", [&] { return strf("costmap %.3f s old (watchdog %.3f s), reported as missing", age2, c.watchdog); });
    }
    if (cy.has_end && cy.has_start && md.has_map && !r.failed)
      checkPlan(m, empty, nonempty);
    else if (!cy.has_start && md.has_map && !r.failed)
      checkSkipped(m);
    if (m.status == PS::DONE)
      for (int a : {0, 1})
        r.expect(act[a].empty(), "P11", "active-but-done", [&] { return strf("the planner reports to be done while goal %s of %s has no result", act[a].c_str(), a ? "tolerant_move" : "move_base"); });
    if (m.status == PS::DONE && live && live_kind == TOPIC && st.status != PS::DONE)
    {
      if (planning(label) && m.error != PS::DATA_MISSING)
      {
        if (c.retry < 0 && !topic_rejectable)
          checkArrived("topic goal");
        live = false;
        live_kind = NONE;
        ++n_succ;
      }
    }
    else if (m.status == PS::DONE && live_kind == TOPIC && live && st.status == PS::DONE && planning(label) && n_status > 1 && goal_t < s.now - SEC && s.now > busy_until + SEC)
    {
    }
    if (m.status == PS::DONE && g_cont_left)
    {
      g_cont_left = false;
      live = false;
    }
    if (m.error == PS::IN_ROCK)
      ++n_rock;
    if (m.error == PS::PATH_NOT_FOUND)
      ++n_nf;
    st = m;
    cy = Cycle();
    s.state(mix64((static_cast<uint64_t>(md.m.cell(robot).x) << 40) ^ (static_cast<uint64_t>(md.m.cell(robot).y) << 20) ^ (static_cast<uint64_t>(m.status) << 8) ^ static_cast<uint64_t>(m.error) ^ (md.version << 44)));
  }
  bool g_cont_left = false;  // continuous movement: still moving after success
  bool finishTol(const C3& a, const C3& b) const
  {
    int dt = std::abs(a.t - b.t);
    dt = std::min(dt, md.m.a - dt);
    const int tl = cells(g_tl), ta = static_cast<int>(std::lround(g_ta / md.m.ares));
    return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) <= tl * tl && dt <= ta;
  }
  bool inRange(const C3& S) const { return S.x >= range() && S.y >= range() && S.x < md.m.w - range() && S.y < md.m.h - range(); }
  /// The robot in this cell may be moved to a free one within the tolerance.
  bool freeNear(const C3& S) const
  {
    const MapDef& mm = md.m;
    const int R = range(), tr = cells(c.tol_range), ta = static_cast<int>(std::lround(c.tol_angle / mm.ares));
    if (!inRange(S))
      return false;
    if (md.cmAt(S.x, S.y, S.t) < 100)
      return true;
    for (int dt = -ta; dt <= ta; ++dt)
      for (int dy = -tr; dy <= tr; ++dy)
        for (int dx = -tr; dx <= tr; ++dx)
        {
          const int x = S.x + dx, y = S.y + dy, t = ((S.t + dt) % mm.a + mm.a) % mm.a;
          if (dx * dx + dy * dy > tr * tr || x < R || y < R || x >= mm.w - R || y >= mm.h - R)
            continue;
          if (md.cmAt(x, y, t) < 100)
            return true;
        }
    return false;
  }
  /// A cycle without planning because the cost estimation could not be made: the reason must be the right one.
  void checkSkipped(const PS& m)
  {
    if (c.keep || escaping() || !live || (live_kind == TOPIC && topic_rejectable) || (m.error != PS::IN_ROCK && m.error != PS::PATH_NOT_FOUND) || m.status != PS::DOING || s.now < busy_until + SEC || s.now < conf_t + SEC || (t_jump > s.now - 2 * SEC))
      return;
    int free = 0, rock = 0, off = 0;
    posesNear(window(), [&](const Pose2& p) {
      for (int k = 0; k < 27; ++k)
      {
        const C3 q = md.m.cell(Pose2(p.x + (k % 3 - 1) * 0.02, p.y + (k / 3 % 3 - 1) * 0.02, p.th + (k / 9 - 1) * 0.02));
        ++(!inRange(q) ? off : freeNear(q) ? free : rock);
      }
    });
    if (off || (free && rock))
      return;
    ++n_rock;
    r.nontrivial = true;
    r.expect((m.error == PS::IN_ROCK) == (rock > 0), "P12", "skip-reason", [&] { return strf("no planning, error status %d, the robot at (%.2f %.2f) has %s free cell within the tolerance", m.error, robot.x, robot.y, rock ? "no" : "a"); });
  }
  void checkPlan(const PS& m, bool empty, bool nonempty)
  {
    const MapDef& mm = md.m;
    const C3 &S = cy.start, &E = cy.end;
    const int R = range();
    const bool s_in = S.x >= R && S.y >= R && S.x < mm.w - R && S.y < mm.h - R;
    const bool escaping = this->escaping();
    if (!mm.in(E.x, E.y) || !mm.in(S.x, S.y))
    {
      r.expect(!nonempty, "P12", "path-off-map", [&] { return strf("path published with start %s and goal %s outside of the map", str(S).c_str(), str(E).c_str()); });
      return;
    }
    if (c.keep || escaping)
      return;
    // robot inside of obstacles
    bool maybe = false;
    const int tr = cells(c.tol_range);
    const bool avail = freeNear(S);
    if (c.antialias && s_in)
      maybe = true;
    if (!s_in && !cy.poses.empty() && cy.poses[0].x >= R && cy.poses[0].y >= R && cy.poses[0].x < mm.w - R && cy.poses[0].y < mm.h - R)
      maybe = true;  // in the middle of a switchback the plan starts from the end of the segment
    if (!avail && !maybe)
    {
      r.nontrivial = true;
      r.expect(m.error == PS::IN_ROCK && empty && !nonempty, "P12", "in-rock", [&] { return strf("robot in cell %s has no free cell within %d cells: error status %d, %s", str(S).c_str(), tr, m.error, nonempty ? "non-empty path" : empty ? "empty path" : "no path"); });
      return;
    }
    if (avail && !maybe)
      r.expect(m.error != PS::IN_ROCK, "P12", "not-in-rock", [&] { return strf("robot in cell %s of cost %d reported to be inside of an obstacle", str(S).c_str(), md.cmAt(S.x, S.y, S.t)); });
    if (m.status == PS::FINISHING)
      return;
    if (c.fast)
      return;  // the incremental update of the distance map is compared by the distance map harness (P14)
    // unreachable on the coarse map
    const auto f = md.flood(E.x, E.y);
    const bool g_lethal = md.cmAt(E.x, E.y, E.t) > 99;
    const bool reach = f[static_cast<size_t>(S.y) * mm.w + S.x];
    if (cy.has_poses && cy.poses.empty())
      return;
    if (g_lethal || !reach)
    {
      // a change of the map is known to the distance map with the next update only if the robot's position is known
      r.nontrivial = true;
      r.expect(m.error == PS::PATH_NOT_FOUND || (!avail && m.error == PS::IN_ROCK), "P12", "unreachable-not-reported", [&] { return strf("goal cell %s cannot be reached from %s (goal cell cost %d): error status %d", str(E).c_str(), str(S).c_str(), md.cmAt(E.x, E.y, E.t), m.error); });
      r.expect(!nonempty, "P12", "path-to-unreachable", [&] { return strf("goal cell %s cannot be reached from %s (goal cell cost %d) but a path is published", str(E).c_str(), str(S).c_str(), md.cmAt(E.x, E.y, E.t)); });
      return;
    }
    if (m.error == PS::GOING_WELL && nonempty && !cy.poses.empty() && !(cy.poses.back() == E) && dm_valid)
    {
      // partial path: it must make progress towards the goal
      const C3& L = cy.poses.back();
      int dt = std::abs(L.t - E.t);
      dt = std::min(dt, mm.a - dt);
      const float dl = dm[static_cast<size_t>(L.y) * mm.w + L.x], d0 = dm[static_cast<size_t>(S.y) * mm.w + S.x];
      const double ec = 1.0 / c.max_vel;
      ++n_best;
      // the cost of a step exactly sideways is so large that the rest of the cost is lost in its rounding
      for (size_t i = 1; i < cy.poses.size(); ++i)
      {
        const C3 &a = cy.poses[i - 1], &b = cy.poses[i];
        const double l = std::hypot(b.x - a.x, b.y - a.y);
        if (l > 0 && std::abs((b.x - a.x) * std::cos(a.t * mm.ares) + (b.y - a.y) * std::sin(a.t * mm.ares)) < 1e-3 * l)
          return;
      }
      r.expect(dl < d0 - (cells(c.local_range) + R) * ec + 0.01 * std::abs(d0) + 1e-2, "P10", "ends-short", [&] {
        return strf("path from %s ends at %s, cost to goal %.3f there and %.3f at the start, goal %s", str(S).c_str(), str(L).c_str(), dl, d0, str(E).c_str());
      });
    }
    if (m.error == PS::PATH_NOT_FOUND && dm_valid && !slow && !c.antialias && !cy.progress)
    {
      // does a path of turns and single steps exist?
      const C3 S0 = cy.poses.empty() ? S : cy.poses.front();
      if (md.cmAt(S0.x, S0.y, S0.t) > 99 || cy.poses.empty())
      {
        if (md.cmAt(S.x, S.y, S.t) > 99)
          return;
      }
      r.expect(!sureReach(S0, E), "P12", "reachable-not-found", [&] { return strf("goal cell %s reported unreachable from %s, but turns and single steps lead there", str(E).c_str(), str(S0).c_str()); });
    }
  }
  bool slow = false;
  bool sureReach(const C3& S, const C3& E) const
  {
    const MapDef& m = md.m;
    const int lr = cells(c.local_range), R = range();
    const double ec = 1.0 / c.max_vel;
    const double ecw = c.weight_ang / c.max_w;
    const auto D = [&](int x, int y) { return dm[static_cast<size_t>(y) * m.w + x]; };
    const float lim = std::min(D(cy.start.x, cy.start.y), D(S.x, S.y)) - static_cast<float>((lr + R) * ec);
    if (!std::isfinite(D(S.x, S.y)))
      return false;
    std::vector<char> seen(static_cast<size_t>(m.w) * m.h * m.a, 0);
    std::vector<C3> q{S};
    seen[m.at(S.x, S.y, S.t)] = 1;
    while (!q.empty())
    {
      const C3 p = q.back();
      q.pop_back();
      int dt = std::abs(p.t - E.t);
      dt = std::min(dt, m.a - dt);
      if (p == E || D(p.x, p.y) + ecw * dt < lim - 0.02 * std::abs(lim) - 0.02)
        return true;
      const bool local = (p.x - S.x) * (p.x - S.x) + (p.y - S.y) * (p.y - S.y) < lr * lr;
      auto push = [&](int x, int y, int t) {
        if (!m.in(x, y) || !std::isfinite(D(x, y)) || md.cmAt(x, y, t) > 99 || seen[m.at(x, y, t)])
          return;
        seen[m.at(x, y, t)] = 1;
        q.push_back(C3{x, y, t});
      };
      if (local)
      {
        push(p.x, p.y, (p.t + 1) % m.a);
        push(p.x, p.y, (p.t + m.a - 1) % m.a);
        if (p.t * 8 % m.a == 0 && m.a % 8 == 0)
        {
          static const int X[8] = {1, 1, 0, -1, -1, -1, 0, 1}, Y[8] = {0, 1, 1, 1, 0, -1, -1, -1};
          const int k = p.t * 8 / m.a;
          push(p.x + X[k], p.y + Y[k], p.t);
          push(p.x - X[k], p.y - Y[k], p.t);
        }
        else if (p.t * 4 % m.a == 0)
        {
          static const int X[4] = {1, 0, -1, 0}, Y[4] = {0, 1, 0, -1};
          const int k = p.t * 4 / m.a;
          push(p.x + X[k], p.y + Y[k], p.t);
          push(p.x - X[k], p.y - Y[k], p.t);
        }
      }
      else
        for (int dy = -1; dy <= 1; ++dy)
          for (int dx = -1; dx <= 1; ++dx)
            if ((dx || dy) && std::abs(dx * std::cos(p.t * m.ares) + dy * std::sin(p.t * m.ares)) > 0.05)  // exactly sideways is endlessly costly
              push(p.x + dx, p.y + dy, p.t);
    }
    return false;
  }
  void checkArrived(const std::string& what)
  {
    // within the finish tolerance of the goal at some time since it was set; the orientation now
    if (!md.has_map || (tf_lag > 0 && t_jump > goal_t - window()))
      return;  // (the pose may be interpolated over a jump)
    double bd = 1e9, ba = 1e9;
    const int tl = cells(g_tl);
    const double lim = (tl + (goal_lethal_seen ? cells(g_tr) + 1 : 0) + (start_lethal_seen ? cells(g_tr) + 1 : 0) + 1.5) * md.m.res + 0.01;
    for (auto& h : hist)
      if (h.t >= goal_t - window())
        bd = std::min(bd, std::hypot(h.p.x - goal.x, h.p.y - goal.y));
    bd = std::min(bd, std::hypot(robot.x - goal.x, robot.y - goal.y));
    r.expect(bd <= lim, "P11", "success-far", [&] { return strf("%s succeeded, the robot came no closer than %.3f m to it (tolerance %.3f m, %d cells)", what.c_str(), bd, g_tl, tl); });
    posesNear(window(), [&](const Pose2& p) { ba = std::min(ba, std::abs(wrap(p.th - goal.th))); });
    const double la = g_tf + 0.02 + (c.force_ori && !goal_lethal_seen && !start_lethal_seen ? 0 : c.tol_angle + md.m.ares);
    if (!g_cont)
      r.expect(ba <= la, "P11", "success-angle", [&] { return strf("%s succeeded, the heading of the robot differs by %.3f rad (finish tolerance %.3f)", what.c_str(), ba, g_tf); });
  }
  // --- distance map
  void onDist(const sensor_msgs::PointCloud& m)
  {
    if (!md.has_map)
      return;
    const MapDef& mm = md.m;
    ++n_dm;
    dm.assign(static_cast<size_t>(mm.w) * mm.h, INFINITY);
    const double k = mm.res * c.max_vel;
    for (size_t i = 0; i < m.points.size(); ++i)
    {
      const int x = static_cast<int>(std::floor((m.points[i].x - mm.ox) / mm.res)), y = static_cast<int>(std::floor((m.points[i].y - mm.oy) / mm.res));
      if (mm.in(x, y))
        dm[static_cast<size_t>(y) * mm.w + x] = static_cast<float>(m.channels[0].values[i] / k);
    }
    dm_valid = true;
  }

  // --- inputs
  void noteGoalCell()
  {
    if (!md.has_map || !live)
      return;
    const C3 g = md.m.cell(goal);
    const int R = range();
    if (!md.m.in(g.x, g.y) || g.x < R || g.y < R || g.x >= md.m.w - R || g.y >= md.m.h - R || md.cmAt(g.x, g.y, g.t) > 99)
      goal_lethal_seen = true;
  }
  void setGoal(const geometry_msgs::PoseStamped& p, int kind)
  {
    live = true;
    live_kind = kind == 0 ? TOPIC : kind == 1 ? MB : TOL;
    goal = Pose2(p.pose.position.x, p.pose.position.y, yawOf(p.pose.orientation));
    goal_t = s.now;
    esc_asked = false;
    goal_lethal_seen = start_lethal_seen = false;
    g_cont_left = false;
    g_tl = c.tol_lin;
    g_ta = c.tol_ang;
    g_tr = c.tol_range;
    g_tra = c.tol_angle;
    g_tf = c.tol_fin;
    g_cont = false;
    has_goal_ever = true;
    noteGoalCell();
  }
  static bool validQ(const geometry_msgs::Quaternion& q) { return std::abs(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w - 1) < 0.1; }
  bool frameOk(const geometry_msgs::PoseStamped& p) const { return p.header.frame_id == (md.has_map ? md.hd.frame_id : std::string()); }
  bool active() const { return !act[0].empty() || !act[1].empty(); }
  void execTopicGoal(const geometry_msgs::PoseStamped& p)
  {
    if (active())
      return;
    if (!frameOk(p))
      return;
    if (!validQ(p.pose.orientation))
    {
      live = false;
      g_cont_left = false;
      live_kind = NONE;
      return;
    }
    setGoal(p, 0);
    topic_rejectable = rejectable();
  }
  bool topic_rejectable = false;
  /// Goal or robot outside of the part of the map which is searched.
  bool rejectable() const
  {
    if (!md.has_map)
      return false;
    const C3 gc = md.m.cell(goal);
    const int R = range();
    bool e = t_jump > s.now - window() || gc.x < R || gc.y < R || gc.x >= md.m.w - R || gc.y >= md.m.h - R;
    posesNear(window(), [&](const Pose2& q) {
      const C3 rc = md.m.cell(q);
      e = e || rc.x <= R || rc.y <= R || rc.x >= md.m.w - R - 1 || rc.y >= md.m.h - R - 1;
    });
    return e;
  }
  void execGoal(int a, const std::string& id, ns_t stamp, const geometry_msgs::PoseStamped& p, double tl, double ta, double tf, bool cont)
  {
    auto it = goals.find(id);
    if (it == goals.end() || it->second.exec)
      return;
    GoalRec& g = it->second;
    g.exec = true;
    g.t_exec = s.now;
    if (last_cancel[a] > 0 && stamp <= last_cancel[a])
      g.stale_stamp = true;
    // SimpleActionServer drops goals older than the current one
    if (stamp < newest[a])
    {
      g.stale_stamp = true;
      return;
    }
    if (g.stale_stamp)
      return;
    newest[a] = stamp;
    if (!act[a].empty())
    {
      goals[act[a]].replaced = true;
      live = false;
    }
    if (!act[1 - a].empty())
    {
      g.other = true;
      return;
    }
    if (!frameOk(p))
    {
      g.rejectable = true;
      if (!act[a].empty())
        live = false;
      return;
    }
    g.accepted = true;
    act[a] = id;
    if (!validQ(p.pose.orientation))
    {
      g.clear = true;
      live = false;
      g_cont_left = false;
      return;
    }
    setGoal(p, 1 + a);
    if (a == 1)
    {
      g_tl = tl;
      g_ta = ta;
      g_tf = tf;
      g_cont = cont;
    }
    g.rejectable = rejectable();
  }
  ns_t last_cancel[2] = {0, 0}, newest[2] = {0, 0};
  void execCancel(int a, const actionlib_msgs::GoalID& id)
  {
    for (auto& kv : goals)
    {
      GoalRec& g = kv.second;
      if (g.tol != (a == 1))
        continue;
      const ns_t idst = static_cast<ns_t>(id.stamp.toNSec());
      if ((id.id.empty() && idst == 0) || id.id == g.id || (idst != 0 && g.stamp <= idst))
        g.cancel = true;
    }
    last_cancel[a] = std::max(last_cancel[a], static_cast<ns_t>(id.stamp.toNSec()));
    if (!act[a].empty() && goals[act[a]].cancel)
      live = false;
  }
  void onResult(int a, const GS& m)
  {
    auto it = goals.find(m.goal_id.id);
    if (it == goals.end())
    {
      r.expect(false, "P11", "unknown-goal", [&] { return "result for unknown goal " + m.goal_id.id; });
      return;
    }
    GoalRec& g = it->second;
    r.expect(g.exec, "P11", "result-before-goal", [&] { return "result for goal " + g.id + " which the planner has not seen"; });
    r.expect(!g.done, "P11", "two-results", [&] { return strf("goal %s ended with status %d after it had ended with %d", g.id.c_str(), m.status, g.status); });
    g.done = true;
    g.status = m.status;
    g.t_done = s.now;
    const bool cur = act[a] == g.id;
    if (cur)
      act[a].clear();
    s.probe(strf("planner.result_%d", m.status));
    switch (m.status)
    {
      case GS::SUCCEEDED:
        r.expect(g.accepted && cur, "P11", "success-not-active", [&] { return "goal " + g.id + " succeeded without being active"; });
        if (g.clear)
          break;
        ++n_succ;
        if (cur)
          checkArrived("goal " + g.id);
        if (g.cont)
          g_cont_left = true;
        else if (cur)
          live = false;
        break;
      case GS::PREEMPTED:
      case GS::RECALLED:
        r.expect(g.cancel || g.replaced || g.stale_stamp, "P11", "preempted-unasked", [&] { return strf("goal %s ended with status %d, nobody cancelled or replaced it", g.id.c_str(), m.status); });
        if (cur)
          live = false;
        break;
      case GS::ABORTED:
        r.expect(g.rejectable || g.other || c.retry >= 0, "P11", "aborted-unasked", [&] { return strf("valid goal %s at (%.2f %.2f) aborted, retry limit %d", g.id.c_str(), g.p.x, g.p.y, c.retry); });
        if (cur)
          live = false;
        break;
      default:
        r.expect(false, "P11", "bad-status", [&] { return strf("goal %s ended with status %d", g.id.c_str(), m.status); });
    }
  }
  // --- the remembered map
  void remember()
  {
    if (!c.remember || !md.has_map || bbf.size() != md.rough.size())
      return;
    const int r0 = cells(c.hist_min), r1 = cells(c.hist_max);
    std::set<std::pair<int, int>> cs;
    const ns_t back = window() + (slow ? 2 * sec(planTime()) + SEC : 0);
    posesNear(back, [&](const Pose2& p) {
      const C3 q = md.m.cell(p);
      for (int dx = -1; dx <= 1; ++dx)
        for (int dy = -1; dy <= 1; ++dy)
        {
          const double e = 0.002 + 0.02 * c.max_vel;  // interpolated in between
          const C3 q2 = md.m.cell(Pose2(p.x + dx * e, p.y + dy * e, p.th));
          cs.insert({q2.x, q2.y});
        }
      (void)q;
    });
    const float hit = static_cast<float>(static_cast<float>(c.hit) / (1.0 - static_cast<float>(c.hit))), miss = static_cast<float>(static_cast<float>(c.miss) / (1.0 - static_cast<float>(c.miss)));
    for (int y = 0; y < md.m.h; ++y)
      for (int x = 0; x < md.m.w; ++x)
      {
        const size_t i = static_cast<size_t>(y) * md.m.w + x;
        const int u = md.upd[i];
        if (u < 0)
          continue;
        // the pose is interpolated over the jump for a moment
        const bool unsure = s.now - t_jump < back;
        bool all = !unsure, any = unsure;
        for (auto& p : cs)
        {
          const int d2 = (x - p.first) * (x - p.first) + (y - p.second) * (y - p.second);
          const bool in = d2 <= r1 * r1 && (u != 100 || d2 >= r0 * r0);
          all = all && in;
          any = any || in;
        }
        if (!any)
          continue;
        const float k = u == 100 ? hit : miss;
        const float MN = 0.1f / 0.9f, MX = 0.9f / 0.1f;
        BbfCell& b = bbf[i];
        const float lo = std::min(MX, std::max(MN, b.lo * k)), hi = std::min(MX, std::max(MN, b.hi * k));
        if (all)
          b = BbfCell{lo, hi};
        else
          b = BbfCell{std::min(b.lo, lo), std::max(b.hi, hi)};
        for (auto& p : pend)
          if (p.hi.size() == bbf.size())
            p.hi[i] = all ? std::min(MX, std::max(MN, p.hi[i] * k)) : std::max(p.hi[i], std::min(MX, std::max(MN, p.hi[i] * k)));
        if (u == 100)
          ++bbf_hits;
      }
    expire();
  }
  /// A position jump: the map is (must) or may be (!must) cleared at some time until the deadline.
  struct Pend
  {
    ns_t until;
    bool must;
    std::vector<float> hi;  // as if cleared at once
  };
  std::vector<Pend> pend;
  double jump_pos = 1.0, jump_yaw = 1.5;
  bool jump_odom = false;
  int n_forgot = 0;
  void forget()
  {
    bbf.assign(md.rough.size(), BbfCell{0.1f / 0.9f, 0.1f / 0.9f});
    for (auto& p : pend)
      p.hi.assign(bbf.size(), 0.1f / 0.9f);
    ++n_forget;
  }
  void forgetMaybe()
  {
    for (auto& b : bbf)
      b.lo = 0.1f / 0.9f;
  }
  void jumped(bool must)
  {
    forgetMaybe();
    pend.push_back(Pend{s.now + window() + 2 * SEC + sec((slow ? 3 : 1) * planTime()), must, std::vector<float>(bbf.size(), 0.1f / 0.9f)});
  }
  void expire()
  {
    // where the lookups of the detector mix poses of different times, motion looks like a jump
    if (tf_lag * c.max_vel > 0.6 * jump_pos || tf_lag * c.max_w > 0.6 * jump_yaw || (!jump_odom && s.now < busy_until + 3 * SEC))
      forgetMaybe();
    if (!jump_odom)
    {
      // the motion of the robot counts as well
      const double dt = 0.4 + 1 / c.freq_min + planTime() + tf_lag + c.sw_wait * 0;
      if (dt * c.max_vel > 0.8 * jump_pos || dt * c.max_w > 0.8 * jump_yaw)
        forgetMaybe();
    }
    for (size_t i = 0; i < pend.size();)
    {
      forgetMaybe();
      if (s.now < pend[i].until)
      {
        ++i;
        continue;
      }
      if (pend[i].must && pend[i].hi.size() == bbf.size())
      {
        ++n_jump;
        for (size_t j = 0; j < bbf.size(); ++j)
          bbf[j].hi = std::min(bbf[j].hi, pend[i].hi[j]);
      }
      pend.erase(pend.begin() + static_cast<long>(i));
    }
  }
  void onRemembered(const nav_msgs::OccupancyGrid& m)
  {
    ++n_rm;
    if (!md.has_map || bbf.size() != md.rough.size())
      return;
    r.expect(m.data.size() == bbf.size() && static_cast<int>(m.info.width) == md.m.w, "P15", "size", [&] { return strf("remembered map of %zu cells, the map has %zu", m.data.size(), bbf.size()); });
    if (r.failed)
      return;
    for (size_t i = 0; i < bbf.size(); ++i)
    {
      const auto v = [](float o) { return (o / (1.0 + o) - 0.1) * 100 / 0.8; };
      const double lo = v(bbf[i].lo), hi = v(bbf[i].hi);
      if (m.data[i] < lo - 1.01 || m.data[i] > hi + 1.01)
      {
        r.expect(false, "P15", m.data[i] > hi ? "not-forgotten" : "not-remembered",
                 [&] { return strf("cell (%d %d) remembered as %d, its observations give %.2f to %.2f (%d forget events)", static_cast<int>(i) % md.m.w, static_cast<int>(i) / md.m.w, m.data[i], lo, hi, n_forget); });
        return;
      }
      if (hi > 5)
        r.nontrivial = true;
    }
  }
  // --- wiring
  void attach()
  {
    const std::string pn = std::string(PN) + "/";
    path_topic = velpath ? "/path_velocity" : compat ? pn + "path" : "/path";
    mapt = compat ? pn + "costmap" : "/costmap";
    updt = compat ? pn + "costmap_update" : "/costmap_update";
    goalt = compat ? pn + "goal" : "/move_base_simple/goal";
    auto mine = [this](Node* n) { return n == node; };
    s.cb_hooks.push_back([this](Node* n, const std::string& l, bool b) {
      if (n != node)
        return;
      label = b ? l : "";
      if (b)
        cb_t0 = nn();
      else if (md.last >= cb_t0 && cb_t0)
        last_hi = nn();
      if (contains(l, "srv:") && contains(l, "make_plan"))
      {
        in_mp = b;
        if (b)
        {
          mp_has = md.has_map;
          mp_frame = md.hd.frame_id;
          mp_m = md.m;
          mp_rough = md.rough;
        }
      }
      if (b && contains(l, "forget") && md.has_map)
      {
        forget();
        ++n_forgot;
      }
      if (b && l == "reconf" && !reconf.empty())
      {
        c = reconf.front();
        reconf.pop_front();
        dm_valid = false;
        conf_t = s.now;
        if (live)
        {
          g_tr = std::max(g_tr, c.tol_range);
          g_tra = std::max(g_tra, c.tol_angle);
          // tolerances of topic and move_base goals follow the parameters
          if (live_kind != TOL)
          {
            g_tl = std::max(g_tl, c.tol_lin);
            g_ta = std::max(g_ta, c.tol_ang);
            g_tf = std::max(g_tf, c.tol_fin);
          }
          noteGoalCell();
        }
      }
    });
    s.tap<geometry_msgs::PoseStamped>(pn + "path_end", [=](const geometry_msgs::PoseStamped& m, Node* n) { if (mine(n)) onEnd(m); });
    s.tap<geometry_msgs::PoseStamped>(pn + "path_start", [=](const geometry_msgs::PoseStamped& m, Node* n) { if (mine(n)) onStart(m); });
    s.tap<geometry_msgs::PoseArray>(pn + "path_poses", [=](const geometry_msgs::PoseArray& m, Node* n) { if (mine(n)) onPoses(m); });
    s.tap<PS>(pn + "status", [=](const PS& m, Node* n) { if (mine(n)) onStatus(m); });
    s.tap<sensor_msgs::PointCloud>(pn + "distance_map", [=](const sensor_msgs::PointCloud& m, Node* n) { if (mine(n)) onDist(m); });
    s.sub<sensor_msgs::PointCloud>(pn + "distance_map", [](const sensor_msgs::PointCloud&) {});
    s.tap<nav_msgs::OccupancyGrid>(pn + "remembered_map", [=](const nav_msgs::OccupancyGrid& m, Node* n) { if (mine(n)) onRemembered(m); });
    if (velpath)
    {
      s.tap<trajectory_tracker_msgs::PathWithVelocity>(path_topic, [=](const trajectory_tracker_msgs::PathWithVelocity& m, Node* n) { if (mine(n)) onPath(conv(m)); });
      s.sub<trajectory_tracker_msgs::PathWithVelocity>(path_topic, [=](const trajectory_tracker_msgs::PathWithVelocity& m) { take(conv(m)); });
    }
    else
    {
      s.tap<nav_msgs::Path>(path_topic, [=](const nav_msgs::Path& m, Node* n) { if (mine(n)) onPath(m); });
      s.sub<nav_msgs::Path>(path_topic, [=](const nav_msgs::Path& m) { take(m); });
    }
    s.onExec<costmap_cspace_msgs::CSpace3D>(PN, mapt, [=](const costmap_cspace_msgs::CSpace3D& m, Node*) {
      dm_valid = false;
      cy = Cycle();
      const bool ret = md.has_retained && md.retained.header.stamp >= m.header.stamp;
      md.map(m, c.unknown);
      forget();
      noteGoalCell();
      if (ret)
      {
        const auto u = md.retained;
        applyUpdate(u);
      }
      md.has_retained = false;
    });
    s.onExec<costmap_cspace_msgs::CSpace3DUpdate>(PN, updt, [=](const costmap_cspace_msgs::CSpace3DUpdate& m, Node*) {
      if (!md.has_map)
        return;
      cy = Cycle();
      applyUpdate(m);
    });
    s.onExec<std_msgs::Empty>(PN, pn + "temporary_escape", [=](const std_msgs::Empty&, Node*) { esc_asked = true; });
    s.onExec<geometry_msgs::PoseStamped>(PN, goalt, [=](const geometry_msgs::PoseStamped& m, Node*) { execTopicGoal(m); });
    s.onExec<move_base_msgs::MoveBaseActionGoal>(PN, "/move_base/goal", [=](const move_base_msgs::MoveBaseActionGoal& m, Node*) {
      execGoal(0, m.goal_id.id, static_cast<ns_t>(m.goal_id.stamp.toNSec()), m.goal.target_pose, 0, 0, 0, false);
    });
    s.onExec<planner_cspace_msgs::MoveWithToleranceActionGoal>(PN, "/tolerant_move/goal", [=](const planner_cspace_msgs::MoveWithToleranceActionGoal& m, Node*) {
      execGoal(1, m.goal_id.id, static_cast<ns_t>(m.goal_id.stamp.toNSec()), m.goal.target_pose, m.goal.goal_tolerance_lin, m.goal.goal_tolerance_ang, m.goal.goal_tolerance_ang_finish, m.goal.continuous_movement_mode);
    });
    s.onExec<actionlib_msgs::GoalID>(PN, "/move_base/cancel", [=](const actionlib_msgs::GoalID& m, Node*) { execCancel(0, m); });
    s.onExec<actionlib_msgs::GoalID>(PN, "/tolerant_move/cancel", [=](const actionlib_msgs::GoalID& m, Node*) { execCancel(1, m); });
    s.tap<move_base_msgs::MoveBaseActionResult>("/move_base/result", [=](const move_base_msgs::MoveBaseActionResult& m, Node* n) { if (mine(n)) onResult(0, m.status); });
    s.tap<planner_cspace_msgs::MoveWithToleranceActionResult>("/tolerant_move/result", [=](const planner_cspace_msgs::MoveWithToleranceActionResult& m, Node* n) { if (mine(n)) onResult(1, m.status); });
  }
  // --- the plan service
  bool in_mp = false, mp_has = false, mp_busy = false;
  std::string mp_frame;
  MapDef mp_m;
  std::vector<int> mp_rough;
  int mpAt(int x, int y) const { return mp_m.in(x, y) ? mp_rough[static_cast<size_t>(y) * mp_m.w + x] : 100; }
  /// Cells the service may take for the requested one; must: it has to take one of them.
  std::vector<std::pair<int, int>> mpCells(const C3& q, double tol, bool& must, bool& may) const
  {
    const int R = static_cast<int>(static_cast<float>(c.search_range) / mp_m.res), tr = static_cast<int>(std::lround(static_cast<float>(tol) / mp_m.res));
    const auto inner = [&](int x, int y) { return x >= R && y >= R && x < mp_m.w - R && y < mp_m.h - R; };
    std::vector<std::pair<int, int>> o;
    must = may = false;
    if (!inner(q.x, q.y))
      return o;
    if (mpAt(q.x, q.y) < 100)
    {
      must = may = true;
      return {{q.x, q.y}};
    }
    for (int acc : {c.reloc, 100})
    {
      int best = 1 << 30;
      for (int dy = -tr; dy <= tr; ++dy)
        for (int dx = -tr; dx <= tr; ++dx)
        {
          const int d = dx * dx + dy * dy;
          if (d > tr * tr || d == 0 || !inner(q.x + dx, q.y + dy) || mpAt(q.x + dx, q.y + dy) >= acc)
            continue;
          if (d < best)
            o.clear();
          best = std::min(best, d);
          if (d == best)
            o.push_back({q.x + dx, q.y + dy});
        }
      if (!o.empty())
        break;
    }
    must = may = !o.empty();
    return o;
  }
  std::vector<char> mpFlood(int x0, int y0, bool diag) const
  {
    std::vector<char> f(mp_rough.size(), 0);
    std::vector<std::pair<int, int>> q{{x0, y0}};
    f[static_cast<size_t>(y0) * mp_m.w + x0] = 1;
    while (!q.empty())
    {
      auto [x, y] = q.back();
      q.pop_back();
      for (int dy = -1; dy <= 1; ++dy)
        for (int dx = -1; dx <= 1; ++dx)
        {
          if ((dx && dy && !diag) || !mp_m.in(x + dx, y + dy) || mpAt(x + dx, y + dy) > 99)
            continue;
          char& v = f[static_cast<size_t>(y + dy) * mp_m.w + x + dx];
          if (!v)
          {
            v = 1;
            q.push_back({x + dx, y + dy});
          }
        }
    }
    return f;
  }
  void mpDone(const nav_msgs::GetPlan::Request& q, bool found, bool ok, const nav_msgs::GetPlan::Response& a)
  {
    mp_busy = false;
    if (!found)
      return;
    ++n_mp;
    ++(ok ? n_mpok : n_mpfail);
    const auto P2 = [](const geometry_msgs::Pose& p) { return Pose2(p.position.x, p.position.y, yawOf(p.orientation)); };
    const auto why = [&] { return strf("plan from (%.3f %.3f) in '%s' to (%.3f %.3f) in '%s', tolerance %.2f", q.start.pose.position.x, q.start.pose.position.y, q.start.header.frame_id.c_str(), q.goal.pose.position.x, q.goal.pose.position.y, q.goal.header.frame_id.c_str(), q.tolerance); };
    if (!mp_has || q.start.header.frame_id != mp_frame || q.goal.header.frame_id != mp_frame)
    {
      r.nontrivial = true;
      r.expect(!ok, "P16", "should-reject", [&] { return why() + (mp_has ? strf(" accepted, the map is in '%s'", mp_frame.c_str()) : std::string(" accepted before the map")); });
      return;
    }
    const auto edge = [&](const geometry_msgs::Pose& p) {
      for (double v : {(p.position.x - mp_m.ox) / mp_m.res, (p.position.y - mp_m.oy) / mp_m.res})
        if (std::abs(v - std::lround(v)) < 1e-3)
          return true;
      return false;
    };
    if (edge(q.start.pose) || edge(q.goal.pose))
      return;  // rounding decides
    const C3 S = mp_m.cell(P2(q.start.pose)), E = mp_m.cell(P2(q.goal.pose));
    bool sm, sy, em, ey;
    const auto ss = mpCells(S, q.tolerance, sm, sy), es = mpCells(E, q.tolerance, em, ey);
    if (!sy || !ey)
    {
      r.nontrivial = true;
      r.expect(!ok, "P16", "should-reject", [&] { return why() + strf(" accepted, the %s has no free cell within the tolerance inside of the margin", !sy ? "start" : "goal"); });
      return;
    }
    bool sure = true, any = false;
    for (auto& x : ss)
    {
      const auto f4 = mpFlood(x.first, x.second, false), f8 = mpFlood(x.first, x.second, true);
      for (auto& y : es)
      {
        sure = sure && f4[static_cast<size_t>(y.second) * mp_m.w + y.first] && !(x == y);
        any = any || (f8[static_cast<size_t>(y.second) * mp_m.w + y.first] && !(x == y));
      }
    }
    r.nontrivial = true;
    if (sure)
      r.expect(ok, "P16", "not-found", [&] { return why() + strf(" failed, the cells (%d %d) and (%d %d) are connected", ss[0].first, ss[0].second, es[0].first, es[0].second); });
    if (!any)
      r.expect(!ok, "P16", "found-unreachable", [&] { return why() + strf(" succeeded, there is no connection of the cells (%d %d) and (%d %d)", ss[0].first, ss[0].second, es[0].first, es[0].second); });
    if (!ok || r.failed)
      return;
    const auto& P = a.plan.poses;
    r.expect(a.plan.header.frame_id == mp_frame && !P.empty(), "P16", "empty-plan", [&] { return why() + strf(": %zu poses in '%s'", P.size(), a.plan.header.frame_id.c_str()); });
    if (P.empty() || r.failed)
      return;
    const auto gx = [&](const geometry_msgs::Pose& p) { return (p.position.x - mp_m.ox) / mp_m.res - 0.5; };
    const auto gy = [&](const geometry_msgs::Pose& p) { return (p.position.y - mp_m.oy) / mp_m.res - 0.5; };
    const auto at = [&](const geometry_msgs::Pose& p, const std::vector<std::pair<int, int>>& cs) { return std::any_of(cs.begin(), cs.end(), [&](const std::pair<int, int>& x) { return std::abs(gx(p) - x.first) < 1e-2 && std::abs(gy(p) - x.second) < 1e-2; }); };
    r.expect(at(P.front().pose, ss), "P16", "start-off", [&] { return why() + strf(": starts at cell (%.2f %.2f), requested (%d %d), nearest free (%d %d)", gx(P.front().pose), gy(P.front().pose), S.x, S.y, ss[0].first, ss[0].second); });
    r.expect(at(P.back().pose, es), "P16", "end-off", [&] { return why() + strf(": ends at cell (%.2f %.2f), requested (%d %d), nearest free (%d %d)", gx(P.back().pose), gy(P.back().pose), E.x, E.y, es[0].first, es[0].second); });
    double len = 0;
    for (size_t i = 0; i < P.size() && !r.failed; ++i)
    {
      const double x = gx(P[i].pose), y = gy(P[i].pose);
      const auto near = [](double v) { return std::abs(std::abs(v - std::lround(v)) - 0.5) < 5e-3; };
      if (!near(x) && !near(y))
        r.expect(mpAt(static_cast<int>(std::lround(x)), static_cast<int>(std::lround(y))) < 100, "P16", "through-obstacle", [&] { return why() + strf(": passes cell (%.2f %.2f)", x, y); });
      if (i)
      {
        const double d = std::hypot(x - gx(P[i - 1].pose), y - gy(P[i - 1].pose));
        len += d;
        r.expect(d < 1.5, "P16", "disconnected", [&] { return why() + strf(": gap of %.2f cells between pose %zu and %zu", d, i - 1, i); });
      }
    }
    // not longer than a walk on the free cells by far more than costs justify
    s.state(mix64(0x6d70 ^ (static_cast<uint64_t>(S.x) << 8) ^ (static_cast<uint64_t>(S.y) << 16) ^ (static_cast<uint64_t>(E.x) << 24) ^ (static_cast<uint64_t>(E.y) << 32) ^ static_cast<uint64_t>(len * 4)));
  }
  std::deque<Conf> reconf;
  void applyUpdate(const costmap_cspace_msgs::CSpace3DUpdate& m)
  {
    if (!md.update(m, c.overwrite, nn()))
      return;
    noteGoalCell();
    remember();
  }
  static nav_msgs::Path conv(const trajectory_tracker_msgs::PathWithVelocity& m)
  {
    nav_msgs::Path p;
    p.header = m.header;
    for (auto& q : m.poses)
    {
      geometry_msgs::PoseStamped s;
      s.header = q.header;
      s.pose = q.pose;
      p.poses.push_back(s);
    }
    return p;
  }
  int border = 0;
  bool patient = false;  // follows each path to its end
  void take(const nav_msgs::Path& m)
  {
    if (patient && m.poses.size() > 1 && rpath.size() > 1 && ridx < rpath.size())
      return;
    rpath.clear();
    for (auto& p : m.poses)
      rpath.push_back(Pose2(p.pose.position.x, p.pose.position.y, yawOf(p.pose.orientation)));
    double best = 1e9;
    ridx = 0;
    for (size_t i = 0; i < rpath.size(); ++i)
    {
      const double d = std::hypot(rpath[i].x - robot.x, rpath[i].y - robot.y) + 0.2 * truth.res * std::abs(wrap(rpath[i].th - robot.th));
      if (d < best - 1e-9)
      {
        best = d;
        ridx = i;
      }
    }
    if (rpath.size() > 1 && ridx + 1 < rpath.size())
      ++ridx;
  }
  void move(double dt)
  {
    hist.push_back(Hist{s.now, robot});
    while (hist.front().t < s.now - 120 * SEC)
      hist.pop_front();
    if (!follow || rpath.empty())
      return;
    double left = dt;
    while (left > 1e-9 && ridx < rpath.size())
    {
      Pose2 t = rpath[ridx];
      if (rpath.size() == 1)
      {
        t.x = robot.x;
        t.y = robot.y;
      }
      const double d = std::hypot(t.x - robot.x, t.y - robot.y), a = wrap(t.th - robot.th);
      const double need = std::max(d / c.max_vel, std::abs(a) / c.max_w);
      if (need < 1e-9)
      {
        if (rpath.size() == 1)
          return;
        ++ridx;
        continue;
      }
      const double f = std::min(1.0, left / need);
      robot.x += f * (t.x - robot.x);
      robot.y += f * (t.y - robot.y);
      robot.th = wrap(robot.th + f * a);
      left -= need * f;
      if (f >= 1 && rpath.size() > 1)
        ++ridx;
    }
  }
};
ns_t sec(double x) { return static_cast<ns_t>(x * 1e9); }

// ---------------------------------------------------------------------------------------------
/// border: width of the occupied border; within the search range of the edge the planner refuses to start.
MapDef makeMap(Rng& g, int w, int h, int a, float res, bool yaw_dep, bool open, int border)
{
  MapDef m;
  m.w = w;
  m.h = h;
  m.a = a;
  m.res = res;
  m.ares = static_cast<float>(2 * M_PI / a);
  m.ox = std::round(g.uni(-5, 5) / res) * res + (g.p(0.3) ? g.uni(0, res) : 0);
  m.oy = std::round(g.uni(-5, 5) / res) * res + (g.p(0.3) ? g.uni(0, res) : 0);
  m.yaw_dep = yaw_dep;
  std::vector<int> ob(static_cast<size_t>(w) * h, 0);
  auto set = [&](int x, int y, int v) {
    if (x >= 0 && y >= 0 && x < w && y < h)
      ob[static_cast<size_t>(y) * w + x] = v;
  };
  const int kind = open ? 0 : static_cast<int>(g.i(0, 5));
  if (kind == 1 || kind == 2)  // walls with gaps
  {
    const int n = static_cast<int>(g.i(1, 3));
    for (int i = 0; i < n; ++i)
    {
      const bool hor = g.p(0.5);
      const int L = hor ? w : h, pos = static_cast<int>(g.i(3, (hor ? h : w) - 4));
      const int gap = static_cast<int>(g.i(0, L - 1)), gl = static_cast<int>(g.i(1, 5));
      for (int k = 0; k < L; ++k)
        if (k < gap || k >= gap + gl)
          hor ? set(k, pos, 1) : set(pos, k, 1);
    }
  }
  else if (kind == 3)  // clutter
  {
    const int n = static_cast<int>(g.i(1, w * h / 25));
    for (int i = 0; i < n; ++i)
      set(static_cast<int>(g.i(0, w - 1)), static_cast<int>(g.i(0, h - 1)), 1);
  }
  else if (kind == 4)  // boxes
  {
    const int n = static_cast<int>(g.i(1, 4));
    for (int i = 0; i < n; ++i)
    {
      const int x = static_cast<int>(g.i(0, w - 1)), y = static_cast<int>(g.i(0, h - 1)), bw = static_cast<int>(g.i(1, 6)), bh = static_cast<int>(g.i(1, 6));
      for (int yy = y; yy < y + bh; ++yy)
        for (int xx = x; xx < x + bw; ++xx)
          set(xx, yy, 1);
    }
  }
  else if (kind == 5)  // one enclosure
  {
    const int x = static_cast<int>(g.i(2, w / 2)), y = static_cast<int>(g.i(2, h / 2)), bw = static_cast<int>(g.i(4, w / 2)), bh = static_cast<int>(g.i(4, h / 2));
    for (int k = 0; k <= bw; ++k)
      set(x + k, y, 1), set(x + k, y + bh, 1);
    for (int k = 0; k <= bh; ++k)
      set(x, y + k, 1), set(x + bw, y + k, 1);
    if (g.p(0.6))
      set(x, y + static_cast<int>(g.i(1, bh - 1)), 0);
  }
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
      if (x < border || y < border || x >= w - border || y >= h - border)
        set(x, y, 1);
  m.d.assign(static_cast<size_t>(w) * h * a, 0);
  const int ring = g.p(0.5) ? static_cast<int>(g.i(1, 99)) : 0;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
      if (ob[static_cast<size_t>(y) * w + x])
        for (int dy = -2; dy <= 2; ++dy)
          for (int dx = -2; dx <= 2; ++dx)
          {
            if (!m.in(x + dx, y + dy))
              continue;
            for (int t = 0; t < a; ++t)
            {
              int v = 0;
              if (dx == 0 && dy == 0)
                v = 100;
              else if (yaw_dep)
              {
                const double al = wrap(std::atan2(dy, dx) - t * m.ares);
                const double len = std::hypot(dx, dy);
                if (len * std::abs(std::sin(al)) < 0.6 && len < 2.3)
                  v = 100;
              }
              if (v < ring && std::abs(dx) <= 1 && std::abs(dy) <= 1)
                v = ring;
              int8_t& o = m.d[m.at(x + dx, y + dy, t)];
              o = static_cast<int8_t>(std::max<int>(o, v));
            }
          }
  if (g.p(0.4))  // soft costs
    for (int i = 0; i < 30; ++i)
    {
      const int x = static_cast<int>(g.i(0, w - 1)), y = static_cast<int>(g.i(0, h - 1)), v = static_cast<int>(g.i(1, 99));
      for (int t = 0; t < a; ++t)
        m.d[m.at(x, y, t)] = static_cast<int8_t>(std::max<int>(m.d[m.at(x, y, t)], v));
    }
  if (g.p(0.3))  // unknown
  {
    const int x = static_cast<int>(g.i(0, w - 1)), y = static_cast<int>(g.i(0, h - 1)), k = static_cast<int>(g.i(1, 5));
    for (int yy = y; yy < y + k; ++yy)
      for (int xx = x; xx < x + k; ++xx)
        if (m.in(xx, yy))
          for (int t = 0; t < a; ++t)
            m.d[m.at(xx, yy, t)] = -1;
  }
  return m;
}
costmap_cspace_msgs::CSpace3D mapMsg(const MapDef& m, const std::string& frame, ns_t t)
{
  costmap_cspace_msgs::CSpace3D c;
  c.header.frame_id = frame;
  c.header.stamp = rosTime(t);
  c.info.width = static_cast<uint32_t>(m.w);
  c.info.height = static_cast<uint32_t>(m.h);
  c.info.angle = static_cast<uint32_t>(m.a);
  c.info.linear_resolution = m.res;
  c.info.angular_resolution = m.ares;
  c.info.origin.position.x = m.ox;
  c.info.origin.position.y = m.oy;
  c.info.origin.orientation.w = 1;
  c.data.assign(m.d.begin(), m.d.end());
  return c;
}
struct Obst
{
  int x, y, w, h, v;
  double yaw = -1;  // lethal only near this direction
  bool on = true;
};
/// World of one execution.
struct World
{
  Pl* k;
  std::vector<Obst> obst;
  bool dyn = true;       // obstacles are seen
  int half = 6;          // half size of the local map
  double upd_hz = 5;
  bool updates = true;
  bool unknown_bg = false;
  std::function<void(const costmap_cspace_msgs::CSpace3D&)> pmap;
  std::function<void(const costmap_cspace_msgs::CSpace3DUpdate&)> pupd;
  std::function<void(const geometry_msgs::PoseStamped&)> pgoal;
  std::function<void(const move_base_msgs::MoveBaseActionGoal&)> pmb;
  std::function<void(const planner_cspace_msgs::MoveWithToleranceActionGoal&)> ptm;
  std::function<void(const actionlib_msgs::GoalID&)> cmb, ctm;
  std::function<void(const std_msgs::Empty&)> pesc;
  int n_goal = 0;
  costmap_cspace_msgs::CSpace3DUpdate upd()
  {
    const MapDef& m = k->truth;
    const C3 c = m.cell(k->robot);
    const int x0 = std::max(0, c.x - half), y0 = std::max(0, c.y - half), x1 = std::min(m.w - 1, c.x + half), y1 = std::min(m.h - 1, c.y + half);
    costmap_cspace_msgs::CSpace3DUpdate u;
    u.header.frame_id = k->map_frame;
    u.header.stamp = rosTime(k->s.now);
    if (x1 < x0 || y1 < y0)
      return u;
    u.x = static_cast<uint32_t>(x0);
    u.y = static_cast<uint32_t>(y0);
    u.width = static_cast<uint32_t>(x1 - x0 + 1);
    u.height = static_cast<uint32_t>(y1 - y0 + 1);
    u.angle = static_cast<uint32_t>(m.a);
    u.data.assign(static_cast<size_t>(u.width) * u.height * u.angle, static_cast<int8_t>(unknown_bg ? -1 : 0));
    if (dyn)
      for (auto& o : obst)
        if (o.on)
          for (int y = o.y; y < o.y + o.h; ++y)
            for (int x = o.x; x < o.x + o.w; ++x)
            {
              if (x < x0 || y < y0 || x > x1 || y > y1)
                continue;
              for (int t = 0; t < m.a; ++t)
                if (o.yaw < 0 || std::abs(std::sin(t * m.ares - o.yaw)) < 0.5)
                  u.data[(static_cast<size_t>(t) * u.height + (y - y0)) * u.width + (x - x0)] = static_cast<int8_t>(o.v);
            }
    return u;
  }
  geometry_msgs::PoseStamped ps(const Pose2& p, const std::string& fr, bool bad = false)
  {
    geometry_msgs::PoseStamped m;
    m.header.frame_id = fr;
    m.header.stamp = rosTime(k->s.now);
    m.pose.position.x = p.x;
    m.pose.position.y = p.y;
    if (!bad)
      m.pose.orientation = quatYaw(p.th);
    return m;
  }
  /// kind 0: topic, 1: move_base, 2: tolerant_move
  std::string send(int kind, const Pose2& p, const std::string& fr, bool bad, double tl, double ta, double tf, bool cont)
  {
    if (kind == 0)
    {
      pgoal(ps(p, fr, bad));
      return "";
    }
    GoalRec g;
    g.id = strf("goal-%d", ++n_goal);
    g.tol = kind == 2;
    g.p = p;
    g.frame = fr;
    g.tl = tl;
    g.ta = ta;
    g.tf = tf;
    g.cont = cont && kind == 2;
    g.t_sent = g.stamp = k->s.now;
    k->goals[g.id] = g;
    if (kind == 1)
    {
      move_base_msgs::MoveBaseActionGoal m;
      m.header.stamp = m.goal_id.stamp = rosTime(k->s.now);
      m.goal_id.id = g.id;
      m.goal.target_pose = ps(p, fr, bad);
      pmb(m);
    }
    else
    {
      planner_cspace_msgs::MoveWithToleranceActionGoal m;
      m.header.stamp = m.goal_id.stamp = rosTime(k->s.now);
      m.goal_id.id = g.id;
      m.goal.target_pose = ps(p, fr, bad);
      m.goal.goal_tolerance_lin = static_cast<float>(tl);
      m.goal.goal_tolerance_ang = static_cast<float>(ta);
      m.goal.goal_tolerance_ang_finish = static_cast<float>(tf);
      m.goal.continuous_movement_mode = cont;
      ptm(m);
    }
    return g.id;
  }
};
bool freeCell(const MapDef& m, const C3& c, int margin, int unknown)
{
  if (c.x < margin || c.y < margin || c.x >= m.w - margin || c.y >= m.h - margin)
    return false;
  const int v = m.d[m.at(c.x, c.y, c.t)];
  return (v < 0 ? unknown : v) < 100;
}
bool freeAll(const MapDef& m, int x, int y, int margin, int unknown)
{
  for (int t = 0; t < m.a; ++t)
    if (!freeCell(m, C3{x, y, t}, margin, unknown))
      return false;
  return true;
}
/// Number of single steps between two cells through cells free in every orientation; -1 if there is none.
int sureSteps(const MapDef& m, const C3& a, const C3& b, int unknown)
{
  if (!freeAll(m, a.x, a.y, 0, unknown) || !freeAll(m, b.x, b.y, 0, unknown))
    return -1;
  std::vector<int> d(static_cast<size_t>(m.w) * m.h, -1);
  std::deque<std::pair<int, int>> q{{a.x, a.y}};
  d[static_cast<size_t>(a.y) * m.w + a.x] = 0;
  static const int X[4] = {1, 0, -1, 0}, Y[4] = {0, 1, 0, -1};
  while (!q.empty())
  {
    auto [x, y] = q.front();
    q.pop_front();
    if (x == b.x && y == b.y)
      return d[static_cast<size_t>(y) * m.w + x];
    for (int i = 0; i < 4; ++i)
      if (freeAll(m, x + X[i], y + Y[i], 0, unknown) && d[static_cast<size_t>(y + Y[i]) * m.w + x + X[i]] < 0)
      {
        d[static_cast<size_t>(y + Y[i]) * m.w + x + X[i]] = d[static_cast<size_t>(y) * m.w + x] + 1;
        q.push_back({x + X[i], y + Y[i]});
      }
  }
  return -1;
}
C3 randCell(const MapDef& m, Rng& g, int margin, int unknown, bool must_free = true)
{
  C3 c;
  for (int i = 0; i < 300; ++i)
  {
    c = C3{static_cast<int>(g.i(margin, m.w - 1 - margin)), static_cast<int>(g.i(margin, m.h - 1 - margin)), static_cast<int>(g.i(0, m.a - 1))};
    if (!must_free || freeCell(m, c, margin, unknown))
      return c;
  }
  return c;
}
void setParams(Pl* k, Rng& g, const std::string& prop)
{
  Sim& s = k->s;
  Conf& c = k->c;
  const std::string pn = std::string(PN) + "/";
  s.setParam(pn + "freq", c.freq = g.pick({1.0, 2.0, 4.0, 4.0}));
  s.setParam(pn + "freq_min", c.freq_min = g.pick({1.0, 2.0, 4.0}));
  s.setParam(pn + "search_range", c.search_range);
  s.setParam(pn + "max_vel", c.max_vel = g.pick({0.3, 0.6, 1.0}));
  s.setParam(pn + "max_ang_vel", c.max_w = g.pick({0.6, 1.5, 3.0}));
  s.setParam(pn + "min_curve_radius", c.min_curve = g.pick({0.1, 0.1, 0.3, 0.6}));
  s.setParam(pn + "local_range", c.local_range);
  if (g.p(0.3))
    s.setParam(pn + "longcut_range", c.longcut = g.pick({0.5, 2.0}));
  s.setParam(pn + "tolerance_range", c.tol_range = g.pick({0.0, 0.25, 0.25, 0.5}));
  if (g.p(0.2))
    s.setParam(pn + "tolerance_angle", c.tol_angle = g.pick({0.4, 0.8}));
  if (g.p(0.4))
    s.setParam(pn + "unknown_cost", c.unknown = static_cast<int>(g.pick({0.0, 50.0, 99.0})));
  if (g.p(0.3))
    s.setParam(pn + "overwrite_cost", c.overwrite = true);
  if (g.p(0.3))
    s.setParam(pn + "relocation_acceptable_cost", c.reloc = static_cast<int>(g.pick({0.0, 1.0, 99.0})));
  if (g.p(0.3))
    s.setParam(pn + "antialias_start", c.antialias = true);
  if (g.p(0.3))
    s.setParam(pn + "find_best", c.find_best = false);
  if (g.p(0.3))
    s.setParam(pn + "force_goal_orientation", c.force_ori = false);
  if (g.p(0.25))
    s.setParam(pn + "keep_a_part_of_previous_path", c.keep = true);
  if (g.p(0.3))
    s.setParam(pn + "trigger_plan_by_costmap_update", c.trigger = true);
  if (g.p(0.2))
    s.setParam(pn + "fast_map_update", c.fast = true);
  if (g.p(prop == "P12" ? 0.8 : 0.3))
    s.setParam(pn + "costmap_watchdog", c.watchdog = g.pick({0.5, 1.0, 2.0}));
  if (g.p(0.15))
    s.setParam(pn + "max_retry_num", c.retry = static_cast<int>(g.i(0, 5)));
  if (g.p(0.15))
    s.setParam(pn + "retain_last_error_status", c.retain = false);
  s.setParam(pn + "sw_wait", c.sw_wait = g.pick({0.0, 0.5, 2.0}));
  c.escape = g.p(0.15);
  s.setParam(pn + "temporary_escape", c.escape);
  if (c.escape)
  {
    s.setParam(pn + "esc_range", c.esc_range = g.pick({0.25, 0.6, 1.0}));
    s.setParam(pn + "enable_crowd_mode", c.crowd = g.p(0.4));
  }
  if (g.p(0.2))
    s.setParam(pn + "goal_tolerance_lin", c.tol_lin = g.uni(0.0, 0.3));
  if (g.p(0.2))
    s.setParam(pn + "goal_tolerance_ang", c.tol_ang = g.uni(0.05, 1.0));
  if (g.p(0.2))
    s.setParam(pn + "goal_tolerance_ang_finish", c.tol_fin = g.uni(0.04, 0.3));
  c.threads = static_cast<int>(g.pick({1.0, 1.0, 2.0, 4.0}));
  s.setParam(pn + "num_threads", c.threads);
  if (g.p(0.4))
  {
    c.tasks = static_cast<int>(g.pick({1.0, 4.0, 64.0}));
    s.setParam(pn + "num_search_task", c.tasks);
    s.setParam(pn + "num_cost_estim_task", static_cast<int>(g.pick({1.0, 7.0, 64.0})));
  }
  const bool rem = prop == "P15" ? g.p(0.9) : g.p(0.15);
  if (rem)
  {
    s.setParam(pn + "remember_updates", c.remember = true);
    s.setParam(pn + "hist_ignore_range", c.hist_min = g.uni(0, 0.6));
    s.setParam(pn + "hist_ignore_range_max", c.hist_max = c.hist_min + g.uni(0.1, 1.2));
    s.setParam(pn + "remember_hit_prob", c.hit = g.uni(0.55, 0.95));
    s.setParam(pn + "remember_miss_prob", c.miss = g.uni(0.05, 0.45));
    s.setParam(pn + "weight_remembered", c.weight_remembered = g.pick({0.0, 50.0, 1000.0}));
    if (prop == "P15")
    {
      k->jump_odom = g.p(0.7);
      if (k->jump_odom)
        s.setParam(pn + "jump_detect_frame", std::string("odom"));
      s.setParam(pn + "pos_jump", k->jump_pos = g.pick({0.7, 1.0, 2.0}));
      s.setParam(pn + "yaw_jump", k->jump_yaw = g.pick({1.0, 1.5}));
    }
    s.sub<nav_msgs::OccupancyGrid>(pn + "remembered_map", [](const nav_msgs::OccupancyGrid&) {});
  }
  k->r.note("freq", c.freq);
  k->r.note("vel", c.max_vel);
  k->r.note("local_range", c.local_range);
  k->r.note("tol_range", c.tol_range);
  k->r.note("flags", strf("%s%s%s%s%s%s%s%s", c.keep ? "keep " : "", c.trigger ? "trigger " : "", c.fast ? "fast " : "", c.escape ? (c.crowd ? "crowd-escape " : "escape ") : "", c.antialias ? "antialias " : "", c.overwrite ? "overwrite " : "",
                          c.remember ? "remember " : "", c.find_best ? "" : "no-best "));
  k->r.note("watchdog", c.watchdog);
  k->r.note("retry", c.retry);
  k->r.note("threads", c.threads);
}
World* setup(Run& r, Rng& g, bool small, bool yaw_dep, bool open)
{
  auto* k = new Pl(r);
  auto* w = new World{k};
  Sim& s = r.sim;
  const float res = static_cast<float>(g.pick({0.05, 0.1, 0.1, 0.2}));
  const int a = static_cast<int>(g.pick({8.0, 8.0, 12.0, 16.0}));
  const int R = static_cast<int>(g.i(3, small ? 4 : 5));
  k->c.search_range = (R + 0.3) * static_cast<double>(res);
  k->c.local_range = g.pick({0.0, 5.0, 10.0, 40.0, 40.0, 40.0}) * static_cast<double>(res);
  const int W = static_cast<int>(g.i(2 * R + 8, small ? 24 : 36)), H = static_cast<int>(g.i(2 * R + 8, small ? 24 : 36));
  k->border = g.p(0.7) ? std::max(R, 4) + (g.p(0.2) ? 1 : 0) : 0;
  k->truth = makeMap(g, W, H, a, res, yaw_dep, open, k->border);
  k->velpath = g.p(0.15);
  k->compat = g.p(0.1);
  s.setParam("/neonavigation_compatible", k->compat ? 0 : 1);
  if (k->velpath)
    s.setParam(std::string(PN) + "/use_path_with_velocity", true);
  setParams(k, g, r.prop);
  w->half = static_cast<int>(g.i(3, 9));
  w->upd_hz = g.pick({2.0, 5.0, 10.0});
  w->unknown_bg = g.p(0.5);
  k->robot = k->truth.pose(randCell(k->truth, g, R, k->c.unknown));
  k->robot.x += g.uni(-0.45, 0.45) * res;
  k->robot.y += g.uni(-0.45, 0.45) * res;
  k->robot.th += g.uni(-0.4, 0.4) * k->truth.ares;
  k->mo = Pose2(g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3));
  k->attach();
  w->pmap = s.pub<costmap_cspace_msgs::CSpace3D>(k->mapt, true);
  w->pupd = s.pub<costmap_cspace_msgs::CSpace3DUpdate>(k->updt);
  w->pgoal = s.pub<geometry_msgs::PoseStamped>(k->goalt, true);
  w->pmb = s.pub<move_base_msgs::MoveBaseActionGoal>("/move_base/goal");
  w->ptm = s.pub<planner_cspace_msgs::MoveWithToleranceActionGoal>("/tolerant_move/goal");
  w->cmb = s.pub<actionlib_msgs::GoalID>("/move_base/cancel");
  w->pesc = s.pub<std_msgs::Empty>(std::string(PN) + "/temporary_escape");
  w->ctm = s.pub<actionlib_msgs::GoalID>("/tolerant_move/cancel");
  const ns_t T = s.t_start;
  auto* tf = k->tf_pub = new TfPub(s);
  const double po = g.pick({0.02, 0.05}), pm = g.pick({0.05, 0.1});
  s.every(T + 8 * MS, 50 * MS, [k] { k->watch(); });
  s.every(T + 5 * MS, 20 * MS, [k] { k->move(0.02); });
  s.every(T + sec(g.uni(0, po)), sec(po), [k, tf, &s] { tf->send(tfMsg("odom", "base_link", s.now, k->mo.inv() * k->robot)); });
  s.every(T + sec(g.uni(0, pm)), sec(pm), [k, tf, &s] { tf->send(tfMsg("map", "odom", s.now, k->mo)); });
  s.every(T + 300 * MS + sec(g.uni(0, 0.1)), sec(1 / w->upd_hz), [w] {
    if (w->updates)
    {
      auto u = w->upd();
      if (u.width)
        w->pupd(u);
    }
  });
  r.note("map", strf("%dx%dx%d@%.2f", W, H, a, res));
  if (g.p(0.15))
  {
    // a slow processor: every turn of a search takes long
    const ns_t cost = sec(g.logu(1e-5, 5e-3));
    mono_cost = [cost] { return cost; };
    k->slow = true;
    k->plan_time = 8;
    s.setParam(std::string(PN) + "/search_timeout_abort", k->c.timeout_abort = g.uni(0.5, 4));
    r.note("slow", cost * 1e-9);
  }
  else
  {
    mono_cost = [] { return 100 * US; };
    k->plan_time = 0.3;
  }
  omp_preempt_mean = 0;
  k->node = s.spawn(PN, planner_3d_main);
  keepServing(r, k->node);
  k->t_spawn = T;
  return w;
}
void probes(Pl* k)
{
  Sim& s = k->s;
  const std::pair<const char*, int> v[] = {{"cycles", k->n_plan}, {"paths", k->n_path}, {"empty", k->n_empty}, {"finishing", k->n_fin}, {"stale_cycles", k->n_stale}, {"not_found", k->n_nf}, {"in_rock", k->n_rock}, {"success", k->n_succ}, {"distance_maps", k->n_dm},
                                           {"curves", k->n_curve}, {"turns", k->n_turn}, {"rough_steps", k->n_roughstep}, {"partial_paths", k->n_best}, {"updates_applied", k->md.n_applied}, {"updates_rejected", k->md.n_rejected}, {"escape_cycles", k->n_escape},
                                           {"make_plan_ok", k->n_mpok}, {"make_plan_failed", k->n_mpfail}, {"remembered_maps", k->n_rm}, {"remember_hits", k->bbf_hits}, {"forget", k->n_forget}};
  for (auto& p : v)
    if (p.second)
      s.probe(std::string("planner.") + p.first, static_cast<uint64_t>(p.second));
}
void faults(World* w, ns_t t0, ns_t t1)
{
  Pl* k = w->k;
  Run& r = k->r;
  if (!r.faults)
    return;
  NetFaultMix mix;
  mix.targets = {"/tf>", k->updt + ">", k->mapt + ">", "goal>", "cancel>", k->path_topic + ">", ">" + std::string(PN)};
  mix.max_delay = 0.6;
  mix.max_partition = 3;
  netFaults(r, mix, t0, t1, 5);
  for (auto& f : r.all_faults)
    if (f.kind == "delay" || f.kind == "reorder" || f.kind == "partition" || f.kind == "drop")
      k->tf_lag = std::max({k->tf_lag, 0.6, (f.t1 - f.t0) * 1e-9 + 0.2});
  stallFaults(r, {PN}, t0, t1, 2, 1.5);
  if (r.all_faults.size())
    k->busy_until = t1;
}

/// The estimate of the pose jumps; the odometry goes on.
void jump(World* w, uint64_t sd)
{
  Pl* k = w->k;
  Rng h(sd, "jump");
  const int R2 = static_cast<int>(k->c.search_range / k->truth.res);
  Pose2 n = h.p(0.5) ? k->truth.pose(randCell(k->truth, h, R2, k->c.unknown)) : k->robot * Pose2(h.uni(-0.3, 0.3), h.uni(-0.3, 0.3), h.uni(-0.5, 0.5));
  const double d = std::hypot(n.x - k->robot.x, n.y - k->robot.y), a = std::abs(wrap(n.th - k->robot.th));
  const Pose2 ob = k->mo.inv() * k->robot;
  // the broadcaster doesn't let the listeners interpolate over the jump
  if (k->tf_pub)
    k->tf_pub->send(tfMsg("map", "odom", k->s.now - 1000, k->mo));
  k->robot = n;
  k->mo = n * ob.inv();
  k->hist.push_back({k->s.now, n});
  if (k->tf_pub)
    k->tf_pub->send(tfMsg("map", "odom", k->s.now, k->mo));
  k->t_jump = k->s.now;
  const double m = (0.15 + k->tf_lag) * k->c.max_vel, mw = (0.15 + k->tf_lag) * k->c.max_w;
  const bool big = d > 1.1 * k->jump_pos + m || a > 1.1 * k->jump_yaw + mw, small = d + m < 0.9 * k->jump_pos && a + mw < 0.9 * k->jump_yaw;
  // where they do nevertheless, the jump is seen as several smaller or larger ones
  if (!small || k->tf_lag > 0)
    k->jumped(k->tf_lag == 0 && big && !(a > M_PI - mw && d < k->jump_pos));
}
void obstacles(World* w, uint64_t sd, int n)
{
  Pl* k = w->k;
  Rng h(sd, "ob");
  for (int i = 0; i < n; ++i)
  {
    const C3 c = k->truth.cell(k->robot);
    const int ww = static_cast<int>(h.i(1, 5)), hh = static_cast<int>(h.i(1, 5));
    Obst ob{c.x + static_cast<int>(h.i(-w->half, w->half)), c.y + static_cast<int>(h.i(-w->half, w->half)), ww, hh, h.p(0.8) ? 100 : static_cast<int>(h.i(1, 99)), h.p(0.25) ? h.uni(0, 3.1) : -1};
    w->obst.push_back(ob);
  }
  if (h.p(0.2))  // enclosed
  {
    const C3 c = k->truth.cell(k->robot);
    const int d = static_cast<int>(h.i(1, 4));
    w->obst.push_back(Obst{c.x - d, c.y - d, 2 * d + 1, 1, 100});
    w->obst.push_back(Obst{c.x - d, c.y + d, 2 * d + 1, 1, 100});
    w->obst.push_back(Obst{c.x - d, c.y - d, 1, 2 * d + 1, 100});
    w->obst.push_back(Obst{c.x + d, c.y - d, 1, 2 * d + 1, 100});
  }
}
void newMap(World* w, Run& r, ns_t t, uint64_t sd, bool same, int most = 26)
{
  Pl* k = w->k;
  Sim& s = r.sim;
  r.op(t, same ? "new map of the same size" : "new map of another size", [=, &s] {
    Rng h(sd, "map");
    const int R2 = static_cast<int>(k->c.search_range / k->truth.res);
    MapDef m = makeMap(h, same ? k->truth.w : static_cast<int>(h.i(2 * R2 + 8, most)), same ? k->truth.h : static_cast<int>(h.i(2 * R2 + 8, most)), k->truth.a, k->truth.res, k->truth.yaw_dep, false, k->border);
    // the robot stays on the map
    const C3 c = k->truth.cell(k->robot);
    m.ox = k->truth.ox + (c.x - m.w / 2) * static_cast<double>(m.res);
    m.oy = k->truth.oy + (c.y - m.h / 2) * static_cast<double>(m.res);
    k->truth = m;
    w->obst.clear();
    w->pmap(mapMsg(m, k->map_frame, s.now));
  });
}
// ---------------------------------------------------------------------------------------------
// P15: obstacles come and go around a moving robot; the remembered map follows what was seen, is erased on request, by a new
// map and by a jump of the position.
void rememberScenario(Run& r)
{
  Rng g = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  World* w = setup(r, g, true, g.p(0.3), g.p(0.5));
  Pl* k = w->k;
  Rng o = r.rng("ops");
  s.at(T + 200 * MS, [=, &s] { w->pmap(mapMsg(k->truth, k->map_frame, s.now)); });
  const ns_t end = T + sec(o.uni(6, 25));
  ns_t t = T + 500 * MS;
  for (int n_op = 0; t < end && n_op < 30; ++n_op)
  {
    Rng q(r.seed, "op" + std::to_string(n_op));
    const double u = q.uni();
    const uint64_t sd = q.u64();
    if (u < 0.28)
      r.op(t, "goal by topic", [=] {
        Rng h(sd, "goal");
        const int R = static_cast<int>(k->c.search_range / k->truth.res);
        w->send(0, k->truth.pose(randCell(k->truth, h, R, k->c.unknown)), k->map_frame, false, 0, 0, 0, false);
      });
    else if (u < 0.55)
    {
      const int n = static_cast<int>(q.i(1, 4));
      r.op(t, "obstacles appear", [=] { obstacles(w, sd, n); });
    }
    else if (u < 0.68)
      r.op(t, "obstacles leave", [=] { w->obst.clear(); });
    else if (u < 0.74)
      r.op(t, "free space becomes (un)known", [=] { w->unknown_bg = !w->unknown_bg; });
    else if (u < 0.82)
      r.op(t, "forget", [=, &s] { s.call<std_srvs::Empty>(k->compat ? std::string(PN) + "/forget" : "/forget_planning_cost", std_srvs::Empty::Request(), [=](bool found, bool ok, const std_srvs::Empty::Response&) { k->r.expect(found && ok, "P15", "forget-failed", [] { return std::string("the forget service failed"); }); }); });
    else if (u < 0.90)
      r.op(t, "localization jump", [=] { jump(w, sd); });
    else if (u < 0.94)
      newMap(w, r, t, sd, q.p(0.5));
    else
    {
      const bool f = q.p(0.3);
      r.op(t, f ? "robot stops following" : "robot follows", [=] { k->follow = !f; });
    }
    t += sec(o.uni(0.1, 1.6));
  }
  faults(w, T + SEC, end);
  s.run(end + 3 * SEC);
  probes(k);
}
// ---------------------------------------------------------------------------------------------
// P16: plan requests of any kind while the planner navigates.
void makePlanScenario(Run& r)
{
  Rng g = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  World* w = setup(r, g, true, g.p(0.3), g.p(0.3));
  Pl* k = w->k;
  Rng o = r.rng("ops");
  const ns_t t_map = T + sec(o.p(0.8) ? 0.2 : o.uni(0.5, 3));
  s.at(t_map, [=, &s] { w->pmap(mapMsg(k->truth, k->map_frame, s.now)); });
  const ns_t end = T + sec(o.uni(4, 10));
  ns_t t = T + 300 * MS;
  for (int n_op = 0; t < end && n_op < 60; ++n_op)
  {
    Rng q(r.seed, "op" + std::to_string(n_op));
    const double u = q.uni();
    const uint64_t sd = q.u64();
    if (u < 0.7)
      r.op(t, "plan request", [=, &s] {
        if (k->mp_busy)
          return;
        k->mp_busy = true;
        Rng h(sd, "plan");
        const int R = static_cast<int>(k->c.search_range / k->truth.res);
        nav_msgs::GetPlan::Request q2;
        q2.tolerance = static_cast<float>(h.pick({0.0, 0.0, 0.1, 0.25, 0.5}));
        const double tc = q2.tolerance;
        (void)tc;
        geometry_msgs::PoseStamped* ps[2] = {&q2.start, &q2.goal};
        const double v = h.uni();
        for (int i = 0; i < 2; ++i)
        {
          C3 c = randCell(k->truth, h, v < 0.85 ? R : 0, k->c.unknown, h.p(0.75));
          Pose2 p = k->truth.pose(c);
          if (i == 0 && h.p(0.3))
            p = k->robot;
          if (v > 0.96)
            p = Pose2(k->truth.ox + h.pick({-1e9, -3.0, -0.05, 1e9, 1e3}), k->truth.oy + h.uni(-1, 3), 0);
          p.th = h.uni(-3.2, 3.2);
          if (h.p(0.5))
          {
            p.x += h.uni(-0.4, 0.4) * k->truth.res;
            p.y += h.uni(-0.4, 0.4) * k->truth.res;
          }
          ps[i]->header.frame_id = h.p(0.04) ? "odom" : h.p(0.02) ? "" : k->map_frame;
          ps[i]->pose.position.x = p.x;
          ps[i]->pose.position.y = p.y;
          ps[i]->pose.orientation = quatYaw(p.th);
          if (h.p(0.05))
            ps[i]->pose.orientation = geometry_msgs::Quaternion();
        }
        s.call<nav_msgs::GetPlan>(std::string(PN) + "/make_plan", q2, [=](bool found, bool ok, const nav_msgs::GetPlan::Response& a) { k->mpDone(q2, found, ok, a); });
      });
    else if (u < 0.76)
      r.op(t, "goal by topic", [=] {
        Rng h(sd, "goal");
        const int R = static_cast<int>(k->c.search_range / k->truth.res);
        w->send(0, k->truth.pose(randCell(k->truth, h, R, k->c.unknown)), k->map_frame, false, 0, 0, 0, false);
      });
    else if (u < 0.88)
    {
      const int n = static_cast<int>(q.i(1, 5));
      r.op(t, "obstacles appear", [=] { obstacles(w, sd, n); });
    }
    else if (u < 0.93)
      r.op(t, "obstacles leave", [=] { w->obst.clear(); });
    else if (u < 0.96)
      newMap(w, r, t, sd, q.p(0.3), 44);
    else
      r.op(t, "localization jump", [=] { jump(w, sd); });
    t += sec(o.uni(0.02, 0.5));
  }
  faults(w, T + SEC, end);
  s.run(end + 2 * SEC);
  probes(k);
}
// ---------------------------------------------------------------------------------------------
// P10, P11, P12: goals, obstacles and faults; then a reachable goal must be reached.
void nav(Run& r)
{
  Rng g = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  World* w = setup(r, g, true, g.p(0.4), g.p(0.15));
  Pl* k = w->k;
  Rng o = r.rng("ops");
  const bool early = o.p(0.1);
  if (early)
    r.op(T + 100 * MS, "update before the map", [=] { auto u = w->upd(); if (u.width) w->pupd(u); });
  const ns_t t_map = T + sec(o.p(0.8) ? 0.2 : o.uni(0.5, 3));
  s.at(t_map, [=, &s] { w->pmap(mapMsg(k->truth, k->map_frame, s.now)); });
  ns_t t = T + 500 * MS;
  const ns_t chaos = T + sec(o.uni(3, 14));
  int n_op = 0;
  while (t < chaos && n_op < 14)
  {
    ++n_op;
    Rng q(r.seed, "op" + std::to_string(n_op));
    const double u = q.uni();
    const int R = static_cast<int>(k->c.search_range / k->truth.res);
    if (u < 0.32)
    {
      const int kind = static_cast<int>(q.i(0, 2));
      const bool bad = q.p(0.06), fr = q.p(0.06);
      const double tl = q.pick({0.0, 0.1, 0.4}), ta = q.pick({0.05, 0.5, 1.6}), tf = q.pick({0.05, 0.2, 0.6});
      const bool cont = q.p(0.4);
      const uint64_t sd = q.u64();
      r.op(t, strf("goal by %s%s%s", kind == 0 ? "topic" : kind == 1 ? "move_base" : cont ? "tolerant_move (continuous)" : "tolerant_move", bad ? ", no orientation" : "", fr ? ", wrong frame" : ""), [=] {
        Rng h(sd, "goal");
        const double v = h.uni();
        C3 gc = randCell(k->truth, h, v < 0.85 ? R : 0, k->c.unknown, v < 0.7);
        if (v > 0.95)
          gc.x += k->truth.w;
        Pose2 p = k->truth.pose(gc);
        if (h.p(0.5))
        {
          p.x += h.uni(-0.4, 0.4) * k->truth.res;
          p.y += h.uni(-0.4, 0.4) * k->truth.res;
          p.th += h.uni(-0.4, 0.4) * k->truth.ares;
        }
        if (h.p(0.15))
          p.th = h.pick({M_PI, -M_PI, M_PI - 0.03, 0.03 - M_PI});
        w->send(kind, p, fr ? "odom" : k->map_frame, bad, tl, ta, tf, cont);
      });
    }
    else if (u < 0.42)
    {
      const int a = static_cast<int>(q.i(0, 1)), how = static_cast<int>(q.i(0, 2));
      r.op(t, strf("cancel %s", a ? "tolerant_move" : "move_base"), [=, &s] {
        actionlib_msgs::GoalID id;
        if (how == 1)
          id.stamp = rosTime(s.now);
        if (how == 2 && w->n_goal)
          id.id = strf("goal-%d", w->n_goal);
        (a ? w->ctm : w->cmb)(id);
      });
    }
    else if (u < 0.62)
    {
      const int n = static_cast<int>(q.i(1, 3));
      const uint64_t sd = q.u64();
      r.op(t, "obstacles appear", [=] { obstacles(w, sd, n); });
    }
    else if (u < 0.72)
      r.op(t, "obstacles leave", [=] { w->obst.clear(); });
    else if (u < 0.80)
    {
      const ns_t d = sec(q.uni(0.3, w->k->c.trigger && w->k->c.watchdog > 0 ? 1 + 3.5 * w->k->c.watchdog : 4));
      r.op(t, strf("no costmap updates for %.1f s", d * 1e-9), [=, &s] {
        w->updates = false;
        s.after(d, [=] { w->updates = true; });
      });
    }
    else if (u < 0.85)
    {
      const uint64_t sd = q.u64();
      r.op(t, "odd costmap update", [=] {
        Rng h(sd, "odd");
        auto u2 = w->upd();
        if (!u2.width)
          return;
        const int kind = static_cast<int>(h.i(0, 3));
        if (kind == 0)
          u2.x = static_cast<uint32_t>(k->truth.w) - u2.width + static_cast<uint32_t>(h.i(1, 5));
        else if (kind == 1)
          u2.y = static_cast<uint32_t>(k->truth.h);
        else if (kind == 2)
        {
          u2.angle += 2;
          u2.data.resize(static_cast<size_t>(u2.width) * u2.height * u2.angle, 100);
        }
        else
        {
          u2.yaw = 1;
        }
        w->pupd(u2);
      });
    }
    else if (u < 0.90)
    {
      const uint64_t sd = q.u64();
      const bool same = q.p(0.5);
      newMap(w, r, t, sd, same);
    }
    else if (u < 0.94)
    {
      const uint64_t sd = q.u64();
      r.op(t, "localization jump", [=] { jump(w, sd); });
    }
    else if (u < 0.955)
      r.op(t, "temporary escape requested", [=] { w->pesc(std_msgs::Empty()); });
    else if (u < 0.975)
    {
      const bool f = q.p(0.5);
      r.op(t, f ? "robot stops following" : "robot follows", [=] { k->follow = !f; });
    }
    else
    {
      const uint64_t sd = q.u64();
      r.op(t, "parameters change", [=, &s] {
        Rng h(sd, "reconf");
        Conf n = k->reconf.empty() ? k->c : k->reconf.back();
        std::map<std::string, std::string> v;
        auto put = [&](const char* nm, double x) { v[nm] = strf("%.17g", x); };
        if (h.p(0.5))
          put("max_vel", n.max_vel = h.pick({0.3, 0.6, 1.0}));
        if (h.p(0.5))
          put("local_range", n.local_range = h.pick({5.0, 10.0, 40.0}) * static_cast<double>(k->truth.res));
        if (h.p(0.3))
          put("min_curve_radius", n.min_curve = h.pick({0.1, 0.4}));
        if (h.p(0.3))
          put("tolerance_range", n.tol_range = h.pick({0.0, 0.25, 0.5}));
        if (h.p(0.3))
          put("costmap_watchdog", n.watchdog = h.pick({0.5, 1.0}));
        if (h.p(0.2))
          v["trigger_plan_by_costmap_update"] = (n.trigger = !n.trigger) ? "1" : "0";
        if (h.p(0.3))
          put("search_range", n.search_range = (h.i(3, 4) + 0.3) * static_cast<double>(k->truth.res));
        k->reconf.push_back(n);
        s.reconfigure(PN, v);
      });
    }
    t += sec(o.uni(0.1, 2));
  }
  faults(w, T + SEC, chaos);
  s.run(chaos);
  if (r.failed)
    return;
  // --- closing phase: no faults, no obstacles, a reachable goal
  w->obst.clear();
  w->updates = true;
  k->follow = true;
  k->patient = true;
  s.run(chaos + 3 * SEC);
  if (r.failed)
    return;
  if (!k->md.has_map || std::tie(k->md.m.w, k->md.m.h) != std::tie(k->truth.w, k->truth.h) || k->md.m.ox != k->truth.ox)
  {
    // the last map was lost: it is sent again
    w->pmap(mapMsg(k->truth, k->map_frame, s.now));
    s.run(s.now + 500 * MS);
  }
  const int R = static_cast<int>(k->c.search_range / k->truth.res);
  const C3 rc = k->truth.cell(k->robot);
  C3 gc;
  int steps = -1;
  Rng h = r.rng("close");
  for (int i = 0; i < 40 && steps < 0; ++i)
  {
    gc = randCell(k->truth, h, R, k->c.unknown);
    if (freeAll(k->truth, gc.x, gc.y, R, k->c.unknown))
      steps = sureSteps(k->truth, rc, gc, k->c.unknown);
    // also with what is left of old updates
    if (steps >= 0 && !k->md.clearOf(gc))
      steps = -1;
  }
  bool edge = false;  // a free cell where the planner refuses to start
  for (int y = 0; y < k->truth.h; ++y)
    for (int x = 0; x < k->truth.w; ++x)
      if (x < R || y < R || x >= k->truth.w - R || y >= k->truth.h - R)
        for (int t = 0; t < k->truth.a; ++t)
          edge = edge || freeCell(k->truth, C3{x, y, t}, 0, k->c.unknown);
  edge = edge || rc.x < R || rc.y < R || rc.x >= k->truth.w - R || rc.y >= k->truth.h - R;
  if (steps >= 0 && !edge && k->border && !(k->c.overwrite && !w->unknown_bg) && !k->truth.yaw_dep && !k->slow && !(k->c.keep && k->cells(k->c.tol_lin) < 1) && k->c.local_range > 35 * static_cast<double>(k->truth.res))
  {
    // whatever goal is left must not keep the next one from being served
    const int kind = static_cast<int>(h.i(0, 2));
    if (kind == 0)
    {
      w->cmb(actionlib_msgs::GoalID());
      w->ctm(actionlib_msgs::GoalID());
      s.run(s.now + 200 * MS);
    }
    else
    {
      (kind == 1 ? w->ctm : w->cmb)(actionlib_msgs::GoalID());
      s.run(s.now + 200 * MS);
    }
    if (r.failed)
      return;
    const ns_t t0 = s.now;
    Pose2 gp = k->truth.pose(gc);
    if (h.p(0.25))
    {
      gp.th = h.pick({M_PI, -M_PI, M_PI - 0.03, 0.03 - M_PI});
      gc = k->truth.cell(gp);
    }
    const std::string id = w->send(kind, gp, k->map_frame, false, 0.1, 0.4, 0.1, false);
    const double bound = 20 + 4 * (steps + 4) * k->truth.res / k->c.max_vel + 25 / k->c.max_w + 6 * k->c.sw_wait;
    auto ok = std::make_shared<bool>(false);
    s.every(t0 + 300 * MS, 50 * MS, [=, &s] {
      if (kind ? k->goals[id].done : (!k->live && k->goal_t >= t0))
      {
        *ok = true;
        s.stop = true;
      }
    });
    s.run(t0 + sec(bound));
    s.stop = false;
    if (r.failed)
      return;
    s.probe("planner.closing");
    if (getenv("PL_TRACE"))
      for (size_t i = 0; i < k->hist.size(); i += 5)
        fprintf(stderr, "HIST %.2f %s  %.3f %.3f %.3f\n", (k->hist[i].t - s.t_start) * 1e-9, k->str(k->truth.cell(k->hist[i].p)).c_str(), (k->hist[i].p.x - k->truth.ox) / k->truth.res - 0.5, (k->hist[i].p.y - k->truth.oy) / k->truth.res - 0.5, k->hist[i].p.th / k->truth.ares);
    r.nontrivial = true;
    r.expect(*ok, "P11", "goal-not-reached", [&] {
      const C3 c = k->truth.cell(k->robot);
      return strf("reachable goal (%s, %d steps) not finished after %.1f s: robot in %s, goal %s, status %d error %d, last path of %zu poses", kind == 0 ? "topic" : kind == 1 ? "move_base" : "tolerant_move", steps, bound, k->str(c).c_str(), k->str(gc).c_str(), k->st.status,
                  k->st.error, k->last_path_n);
    });
    if (kind && *ok)
      r.expect(k->goals[id].status == GS::SUCCEEDED, "P11", "goal-not-succeeded", [&] { return strf("reachable goal ended with status %d", k->goals[id].status); });
    s.probe("planner.closing_steps", static_cast<uint64_t>(steps));
    if (!r.failed)
    {
      s.run(s.now + 300 * MS);
      for (auto& kv : k->goals)
        r.expect(!kv.second.exec || kv.second.done, "P11", "pending-forever", [&] { return strf("goal %s (%s) received at %.2f s has no result", kv.second.id.c_str(), kv.second.tol ? "tolerant_move" : "move_base", (kv.second.t_exec - s.t_start) * 1e-9); });
    }
  }
  probes(k);
}

struct Init
{
  Init()
  {
    harness().real = "planner_cspace/src/planner_3d.cpp and everything it includes (costmap_bbf, grid_astar_model_3dof, motion_cache, motion_primitive_builder, rotation_cache, distance_map, start_pose_predictor, grid_astar.h) in full; actionlib's server is a stub with the same state machine";
    harness().stub = "roscpp, tf2, dynamic_reconfigure, actionlib, OpenMP runtime (cooperative threads), the monotonic clock, costmap source, robot and action clients";
  }
} init;
Register r2("remember", {{"P15", 1}}, rememberScenario);
Register r3("makeplan", {{"P16", 1}}, makePlanScenario);
Register r1("nav", {{"P10", 1}, {"P11", 1}, {"P12", 1}}, nav);
}  // namespace
