// The navigation stack as shipped (P27): costmap_3d, planner_3d, trajectory_tracker, safety_limiter, pointcloud2_to_map and patrol
// with the parameters of neonavigation_launch around a simulated robot in a world with walls and appearing obstacles.
#include <world.h>
#include <actionlib_msgs/GoalID.h>
#include <actionlib_msgs/GoalStatus.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/Twist.h>
#include <move_base_msgs/MoveBaseAction.h>
#include <nav_msgs/OccupancyGrid.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <planner_cspace_msgs/MoveWithToleranceAction.h>
#include <planner_cspace_msgs/PlannerStatus.h>
#include <std_msgs/Empty.h>
#include <deque>
using namespace sim;
using namespace world;
int costmap_3d_main(int, char**);
int planner_3d_main(int, char**);
int trajectory_tracker_main(int, char**);
int safety_limiter_main(int, char**);
int pointcloud2_to_map_main(int, char**);
namespace
{
typedef planner_cspace_msgs::PlannerStatus PS;
struct Box
{
  double x0, y0, x1, y1;
  bool in(double x, double y) const { return x >= x0 && x <= x1 && y >= y0 && y <= y1; }
};
struct Nav
{
  Run& r;
  Sim& s;
  int W = 0, H = 0;
  double res = 0.1, ox = 0, oy = 0;
  std::vector<char> occ;
  std::vector<Box> boxes;   // obstacles which are not on the map
  double fx0 = -0.35, fx1 = 0.35, fy = 0.22;
  double radius() const { return std::hypot(std::max(-fx0, fx1), fy); }
  double vel = 0.5, ang = 1.0;
  double acc_l = 1.5, acc_a = 4;
  Pose2 pose, mo;           // in map, map -> odom
  double v = 0, w = 0;      // true velocity
  double cv = 0, cw = 0;    // commanded
  ns_t cmd_t = 0, go_t = 0;  // last command, last command to move
  ns_t calm = 0;            // no faults after this time
  std::vector<Node*> nodes;
  std::map<std::string, Node*> by;
  std::deque<std::pair<ns_t, Pose2>> hist;
  double dist = 0;
  uint64_t n_cmd = 0, n_path = 0;
  PS st;
  int n_goal = 0;
  std::map<std::string, int> result, result_n;
  explicit Nav(Run& rr) : r(rr), s(rr.sim) {}
  bool at(int x, int y) const { return x < 0 || y < 0 || x >= W || y >= H || occ[static_cast<size_t>(y) * W + x]; }
  bool solid(double x, double y) const
  {
    if (at(static_cast<int>(std::floor((x - ox) / res)), static_cast<int>(std::floor((y - oy) / res))))
      return true;
    for (auto& b : boxes)
      if (b.in(x, y))
        return true;
    return false;
  }
  /// A point of the robot, reduced by eps, which is inside of something occupied.
  bool hit(const Pose2& p, double eps, double& hx, double& hy) const
  {
    const double a0 = fx0 + eps, a1 = fx1 - eps, b = fy - eps;
    const int n = static_cast<int>(std::ceil((a1 - a0) / 0.04)), m = static_cast<int>(std::ceil(2 * b / 0.04));
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= m; ++j)
      {
        p.apply(a0 + (a1 - a0) * i / n, -b + 2 * b * j / m, hx, hy);
        if (solid(hx, hy))
          return true;
      }
    return false;
  }
  /// Distance of a point to the nearest thing occupied, up to lim.
  double clear(double x, double y, double lim) const
  {
    double d = lim;
    const auto box = [&](double x0, double y0, double x1, double y1) {
      const double dx = std::max({x0 - x, 0.0, x - x1}), dy = std::max({y0 - y, 0.0, y - y1});
      d = std::min(d, std::hypot(dx, dy));
    };
    const int cx = static_cast<int>(std::floor((x - ox) / res)), cy = static_cast<int>(std::floor((y - oy) / res)), k = static_cast<int>(lim / res) + 2;
    for (int iy = cy - k; iy <= cy + k; ++iy)
      for (int ix = cx - k; ix <= cx + k; ++ix)
        if (at(ix, iy))
          box(ox + ix * res, oy + iy * res, ox + (ix + 1) * res, oy + (iy + 1) * res);
    for (auto& b : boxes)
      box(b.x0, b.y0, b.x1, b.y1);
    return d;
  }
  void step(double dt)
  {
    double tv = cv, tw = cw;
    if (s.now - cmd_t > 300 * MS)
      tv = tw = 0;  // the base stops without commands
    v += std::max(-acc_l * dt, std::min(acc_l * dt, tv - v));
    w += std::max(-acc_a * dt, std::min(acc_a * dt, tw - w));
    const Pose2 before = pose;
    pose.th += w * dt / 2;
    pose.x += v * std::cos(pose.th) * dt;
    pose.y += v * std::sin(pose.th) * dt;
    pose.th = wrap(pose.th + w * dt / 2);
    dist += std::abs(v) * dt;
    double hx, hy;
    if ((std::abs(v) > 1e-3 || std::abs(w) > 1e-3) && hit(pose, 0.02, hx, hy))
    {
      double ex, ey;
      if (!hit(before, 0.02, ex, ey))
        r.expect(false, "P27", "collision", [&] { return strf("the robot at (%.3f %.3f %.3f) moving at %.3f m/s, %.3f rad/s (commanded %.3f, %.3f) hits something at (%.2f %.2f)", pose.x, pose.y, pose.th, v, w, cv, cw, hx, hy); });
    }
  }
  std::vector<P3> scan() const
  {
    // everything within 3 m as seen from the robot's frame
    std::vector<P3> o;
    const Pose2 inv = pose.inv();
    const auto add = [&](double x, double y) {
      if (std::hypot(x - pose.x, y - pose.y) > 3.0)
        return;
      double a, b;
      inv.apply(x, y, a, b);
      o.push_back({a, b, 0.3});
    };
    const int cx = static_cast<int>(std::floor((pose.x - ox) / res)), cy = static_cast<int>(std::floor((pose.y - oy) / res)), k = static_cast<int>(3.0 / res) + 1;
    for (int y = std::max(0, cy - k); y <= std::min(H - 1, cy + k); ++y)
      for (int x = std::max(0, cx - k); x <= std::min(W - 1, cx + k); ++x)
        if (at(x, y) && (!at(x - 1, y) || !at(x + 1, y) || !at(x, y - 1) || !at(x, y + 1)))
        {
          add(ox + (x + 0.5) * res, oy + (y + 0.5) * res);
          for (int j = 0; j < 4; ++j)
            add(ox + (x + 0.1 + 0.8 * (j & 1)) * res, oy + (y + 0.1 + 0.8 * (j >> 1)) * res);
        }
    for (auto& b : boxes)
    {
      const int n = static_cast<int>(std::ceil((b.x1 - b.x0) / 0.05)), m = static_cast<int>(std::ceil((b.y1 - b.y0) / 0.05));
      for (int i = 0; i <= n; ++i)
        for (int j = 0; j <= m; ++j)
          if (i == 0 || j == 0 || i == n || j == m)
            add(b.x0 + (b.x1 - b.x0) * i / n, b.y0 + (b.y1 - b.y0) * j / m);
    }
    return o;
  }
  /// Cells a disc around the robot can surely reach.
  std::vector<int> reach(double x, double y, double rad) const
  {
    std::vector<int> d(static_cast<size_t>(W) * H, -1);
    const int sx = static_cast<int>(std::floor((x - ox) / res)), sy = static_cast<int>(std::floor((y - oy) / res));
    if (at(sx, sy) || clear(ox + (sx + 0.5) * res, oy + (sy + 0.5) * res, rad) < rad)
      return d;
    std::deque<std::pair<int, int>> q{{sx, sy}};
    d[static_cast<size_t>(sy) * W + sx] = 0;
    static const int X[4] = {1, 0, -1, 0}, Y[4] = {0, 1, 0, -1};
    while (!q.empty())
    {
      auto [cx, cy] = q.front();
      q.pop_front();
      for (int i = 0; i < 4; ++i)
      {
        const int nx = cx + X[i], ny = cy + Y[i];
        if (at(nx, ny) || d[static_cast<size_t>(ny) * W + nx] >= 0 || clear(ox + (nx + 0.5) * res, oy + (ny + 0.5) * res, rad) < rad)
          continue;
        d[static_cast<size_t>(ny) * W + nx] = d[static_cast<size_t>(cy) * W + cx] + 1;
        q.push_back({nx, ny});
      }
    }
    return d;
  }
};
XmlRpc::XmlRpcValue footXml(const Nav& k)
{
  XmlRpc::XmlRpcValue v;
  v.setSize(4);
  const double p[4][2] = {{k.fx1, -k.fy}, {k.fx1, k.fy}, {k.fx0, k.fy}, {k.fx0, -k.fy}};
  for (int i = 0; i < 4; ++i)
  {
    v[i].setSize(2);
    v[i][0] = p[i][0];
    v[i][1] = p[i][1];
  }
  return v;
}
void stack(Run& r)
{
  Rng c = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  Nav* k = new Nav(r);
  s.setParam("/neonavigation_compatible", 1);
  // --- the world
  const bool large = c.p(0.2);
  k->W = static_cast<int>(large ? c.i(50, 90) : c.i(34, 56));
  k->H = static_cast<int>(large ? c.i(50, 90) : c.i(34, 56));
  k->ox = c.p(0.5) ? 0 : c.uni(-10, 10);
  k->oy = c.p(0.5) ? 0 : c.uni(-10, 10);
  k->ox = static_cast<float>(k->ox);
  k->occ.assign(static_cast<size_t>(k->W) * k->H, 0);
  const auto fill = [&](int x0, int y0, int x1, int y1, char v) {
    for (int y = std::max(0, y0); y <= std::min(k->H - 1, y1); ++y)
      for (int x = std::max(0, x0); x <= std::min(k->W - 1, x1); ++x)
        k->occ[static_cast<size_t>(y) * k->W + x] = v;
  };
  if (c.p(0.6))
  {
    // two rooms
    const bool vert = c.p(0.5);
    const int n = vert ? k->W : k->H, m = vert ? k->H : k->W, p = static_cast<int>(c.i(n / 3, 2 * n / 3)), d = static_cast<int>(c.i(8, m - 9)), hw = static_cast<int>(c.i(6, 9));
    vert ? fill(p, 0, p, k->H - 1, 1) : fill(0, p, k->W - 1, p, 1);
    vert ? fill(p, d - hw, p, d + hw, 0) : fill(d - hw, p, d + hw, p, 0);
  }
  for (int i = 0, n = static_cast<int>(c.i(0, 4)); i < n; ++i)
  {
    const int x = static_cast<int>(c.i(2, k->W - 6)), y = static_cast<int>(c.i(2, k->H - 6));
    fill(x, y, x + static_cast<int>(c.i(1, 6)), y + static_cast<int>(c.i(1, 6)), 1);
  }
  const int border = 5;
  fill(0, 0, border - 1, k->H - 1, 1);
  fill(k->W - border, 0, k->W - 1, k->H - 1, 1);
  fill(0, 0, k->W - 1, border - 1, 1);
  fill(0, k->H - border, k->W - 1, k->H - 1, 1);
  if (c.p(0.5))
  {
    k->fx1 = c.uni(0.2, 0.35);
    k->fx0 = -c.uni(0.2, 0.35);
    k->fy = c.uni(0.15, 0.25);
  }
  // --- parameters: neonavigation_launch/config/navigate.yaml and launch/navigate.launch
  const std::string cm = "/costmap_3d/", pl = "/planner_3d/", tr = "/spur/", sl = "/safety_limiter/", pm = "/pointcloud2_to_map/";
  const bool safety = c.p(0.75), local = c.p(0.7);
  s.setParam(cm + "footprint", footXml(*k));
  s.setParam(sl + "footprint", footXml(*k));
  s.setParam(cm + "ang_resolution", 16);
  s.setParam(cm + "linear_expand", 0.08);
  s.setParam(cm + "linear_spread", 0.3);
  {
    XmlRpc::XmlRpcValue v, e0, e1;
    e0["name"] = "unknown";
    e0["type"] = "Costmap3dLayerUnknownHandle";
    e0["unknown_cost"] = 100;
    e0["overlay_mode"] = "max";
    e1["name"] = "overlay0";
    e1["type"] = "Costmap3dLayerPlain";
    e1["overlay_mode"] = "max";
    e1["linear_expand"] = 0.0;
    e1["linear_spread"] = 0.0;
    v.setSize(2);
    v[0] = e0;
    v[1] = e1;
    s.setParam(cm + "static_layers", v);
  }
  {
    XmlRpc::XmlRpcValue v, e0, e1, e2;
    e0["name"] = "stop_propagation";
    e0["type"] = "Costmap3dLayerStopPropagation";
    e0["overlay_mode"] = "max";
    e1["name"] = "overlay2";
    e1["type"] = "Costmap3dLayerPlain";
    e1["overlay_mode"] = "max";
    e1["linear_expand"] = 0.08;
    e1["linear_spread"] = 0.0;
    e1["keep_unknown"] = true;
    e2["name"] = "overlay1";
    e2["type"] = "Costmap3dLayerFootprint";
    e2["overlay_mode"] = "max";
    e2["linear_expand"] = 0.15;
    e2["linear_spread"] = 0.3;
    e2["keep_unknown"] = true;
    v.setSize(3);
    v[0] = e0;
    v[1] = e1;
    v[2] = e2;
    s.setParam(cm + "layers", v);
  }
  k->vel = c.uni(0.3, 0.8);
  k->ang = c.uni(0.5, 1.5);
  const double acc = c.uni(0.4, 1.0), aacc = c.uni(0.6, 2.0);
  s.setParam(pl + "num_threads", 2);
  s.setParam(pl + "freq", 2.0);
  s.setParam(pl + "freq_min", 0.5);
  s.setParam(pl + "local_range", 2.0);
  s.setParam(pl + "remember_updates", c.p(0.7));
  s.setParam(pl + "hist_ignore_range", 0.0);
  s.setParam(pl + "hist_ignore_range_max", 1.5);
  s.setParam(pl + "esc_range", 1.0);
  s.setParam(pl + "esc_range_min_ratio", 0.5);
  s.setParam(pl + "temporary_escape_tolerance_lin", 0.2);
  s.setParam(pl + "keep_a_part_of_previous_path", true);
  // At least two cells and one angular bin: with less than that the last plan may stop next to the goal's cell.
  s.setParam(pl + "goal_tolerance_lin", 0.2);
  s.setParam(pl + "goal_tolerance_ang", 0.4);
  s.setParam(pl + "goal_tolerance_ang_finish", 0.1);
  s.setParam(pl + "max_vel", k->vel);
  s.setParam(pl + "max_ang_vel", k->ang);
  if (c.p(0.3))
    s.setParam(pl + "enable_crowd_mode", true);
  const bool velpath = c.p(0.2);
  if (velpath)
    s.setParam(pl + "use_path_with_velocity", true);
  s.setParam(tr + "hz", 30.0);
  for (auto& x : std::initializer_list<std::pair<const char*, double>>{{"k_dist", 16.0}, {"k_ang", 10.0}, {"k_avel", 4.0}, {"dist_lim", 0.5}, {"goal_tolerance_dist", 0.05}, {"goal_tolerance_ang", 0.05}, {"stop_tolerance_dist", 0.04}, {"stop_tolerance_ang", 0.04}, {"no_position_control_dist", 0.05}, {"look_forward", 0.0}, {"curv_forward", 0.5}, {"rotate_ang", 0.4}})
    s.setParam(tr + x.first, x.second);
  s.setParam(tr + "limit_vel_by_avel", true);
  s.setParam(tr + "path_step", 1);
  s.setParam(tr + "max_vel", k->vel);
  s.setParam(tr + "max_acc", acc);
  s.setParam(tr + "max_angvel", k->ang);
  s.setParam(tr + "max_angacc", aacc);
  s.setParam(sl + "allow_empty_cloud", true);
  s.setParam(sl + "watchdog_interval", 0.0);
  s.setParam(sl + "lin_vel", k->vel);
  s.setParam(sl + "ang_vel", k->ang);
  s.setParam(sl + "freq", 10.0);
  // The planner plans up to the expanded footprint (0.08 m); a larger margin of the limiter would stop the robot on such paths.
  s.setParam(sl + "d_margin", c.uni(0.02, 0.06));
  s.setParam(sl + "yaw_margin", c.uni(0.02, 0.06));
  s.setParam(pm + "width", 60);
  s.setParam(pm + "resolution", 0.1);
  s.setParam(pm + "hz", 5.0);
  r.note("map", strf("%dx%d", k->W, k->H));
  r.note("vel", k->vel);
  r.note("safety", safety);
  r.note("local", local);
  // --- start
  const double sure = k->radius() + 0.08 + 0.15 + 0.15;
  std::vector<std::pair<int, int>> free;
  for (int y = 0; y < k->H; ++y)
    for (int x = 0; x < k->W; ++x)
      if (!k->at(x, y) && k->clear(k->ox + (x + 0.5) * k->res, k->oy + (y + 0.5) * k->res, sure) >= sure)
        free.push_back({x, y});
  if (free.size() < 10)
    return;
  {
    auto [x, y] = free[c.i(0, static_cast<int64_t>(free.size()) - 1)];
    k->pose = Pose2(k->ox + (x + c.uni(0.1, 0.9)) * k->res, k->oy + (y + c.uni(0.1, 0.9)) * k->res, c.uni(-M_PI, M_PI));
  }
  k->mo = c.p(0.5) ? Pose2() : Pose2(c.uni(-3, 3), c.uni(-3, 3), c.uni(-3, 3));
  // --- nodes
  const auto node = [&](const char* n, int (*f)(int, char**), std::map<std::string, std::string> rm) {
    k->by[n] = s.spawn(n, f, rm, T + static_cast<ns_t>(c.uni(1, 300) * MS));
    k->nodes.push_back(k->by[n]);
    keepServing(r, k->by[n]);
  };
  node("/costmap_3d", costmap_3d_main, {});
  node("/planner_3d", planner_3d_main, {});
  node("/spur", trajectory_tracker_main, {{"/cmd_vel", safety ? "/cmd_vel_raw" : "/base_cmd"}});
  if (safety)
    node("/safety_limiter", safety_limiter_main, {{"/cmd_vel_in", "/cmd_vel_raw"}, {"/cmd_vel", "/base_cmd"}});
  if (local)
    node("/pointcloud2_to_map", pointcloud2_to_map_main, {{"/map_local", "/overlay1"}});
  auto* tf = new TfPub(s);
  auto pmap = s.pub<nav_msgs::OccupancyGrid>("/map", true);
  auto pcloud = s.pub<sensor_msgs::PointCloud2>("/cloud");
  auto podom = s.pub<nav_msgs::Odometry>("/odom");
  auto pgoal = s.pub<geometry_msgs::PoseStamped>("/move_base_simple/goal");
  auto pmb = s.pub<move_base_msgs::MoveBaseActionGoal>("/move_base/goal");
  auto ptm = s.pub<planner_cspace_msgs::MoveWithToleranceActionGoal>("/tolerant_move/goal");
  auto cmb = s.pub<actionlib_msgs::GoalID>("/move_base/cancel");
  auto ctm = s.pub<actionlib_msgs::GoalID>("/tolerant_move/cancel");
  s.sub<geometry_msgs::Twist>("/base_cmd", [=, &s](const geometry_msgs::Twist& m) {
    k->cv = m.linear.x;
    k->cw = m.angular.z;
    k->cmd_t = s.now;
    if (std::abs(m.linear.x) > 0.01 || std::abs(m.angular.z) > 0.01)
      k->go_t = s.now;
    ++k->n_cmd;
    const double lin = std::abs(m.linear.x), an = std::abs(m.angular.z);
    k->r.expect(std::isfinite(lin) && std::isfinite(an) && lin <= k->vel + 1e-6 && an <= k->ang + 1e-6 && m.linear.y == 0, "P27", "command-limit", [&] { return strf("command (%.3f %.3f %.3f) exceeds the limits %.3f, %.3f", m.linear.x, m.linear.y, m.angular.z, k->vel, k->ang); });
  });
  s.sub<PS>("/planner_3d/status", [=](const PS& m) { k->st = m; });
  const auto onResult = [=](const actionlib_msgs::GoalStatus& g) {
    k->result[g.goal_id.id] = g.status;
    ++k->result_n[g.goal_id.id];
  };
  s.sub<move_base_msgs::MoveBaseActionResult>("/move_base/result", [=](const move_base_msgs::MoveBaseActionResult& m) { onResult(m.status); });
  s.sub<planner_cspace_msgs::MoveWithToleranceActionResult>("/tolerant_move/result", [=](const planner_cspace_msgs::MoveWithToleranceActionResult& m) { onResult(m.status); });
  s.every(T + 3 * MS, 10 * MS, [k] { k->step(0.01); });
  s.every(T + 1 * MS, 20 * MS, [=, &s] {
    tf->send(tfMsg("odom", "base_link", s.now, k->mo.inv() * k->pose));
    nav_msgs::Odometry o;
    o.header.stamp = rosTime(s.now);
    o.header.frame_id = "odom";
    o.child_frame_id = "base_link";
    const Pose2 p = k->mo.inv() * k->pose;
    o.pose.pose.position.x = p.x;
    o.pose.pose.position.y = p.y;
    o.pose.pose.orientation = quatYaw(p.th);
    o.twist.twist.linear.x = k->v;
    o.twist.twist.angular.z = k->w;
    podom(o);
  });
  tf->sendStatic(tfMsg("map", "odom", s.now, k->mo));
  s.every(T + 10 * MS, 100 * MS, [=, &s] {
    auto p = k->scan();
    pcloud(cloudMsg("base_link", s.now, p));
  });
  s.at(T + static_cast<ns_t>(c.uni(10, 800) * MS), [=, &s] {
    nav_msgs::OccupancyGrid m;
    m.header.frame_id = "map";
    m.header.stamp = rosTime(s.now);
    m.info.width = static_cast<uint32_t>(k->W);
    m.info.height = static_cast<uint32_t>(k->H);
    m.info.resolution = static_cast<float>(k->res);
    m.info.origin.position.x = k->ox;
    m.info.origin.position.y = k->oy;
    m.info.origin.orientation.w = 1;
    m.data.resize(k->occ.size());
    for (size_t i = 0; i < k->occ.size(); ++i)
      m.data[i] = k->occ[i] ? 100 : 0;
    pmap(m);
  });
  const auto send = [=, &s](int kind, const Pose2& p) {
    geometry_msgs::PoseStamped g;
    g.header.frame_id = "map";
    g.header.stamp = rosTime(s.now);
    g.pose.position.x = p.x;
    g.pose.position.y = p.y;
    g.pose.orientation = quatYaw(p.th);
    const std::string id = strf("goal-%d", ++k->n_goal);
    if (kind == 0)
      pgoal(g);
    else if (kind == 1)
    {
      move_base_msgs::MoveBaseActionGoal m;
      m.header.stamp = m.goal_id.stamp = rosTime(s.now);
      m.goal_id.id = id;
      m.goal.target_pose = g;
      pmb(m);
    }
    else
    {
      planner_cspace_msgs::MoveWithToleranceActionGoal m;
      m.header.stamp = m.goal_id.stamp = rosTime(s.now);
      m.goal_id.id = id;
      m.goal.target_pose = g;
      m.goal.goal_tolerance_lin = 0.2f;
      m.goal.goal_tolerance_ang = 0.4f;
      m.goal.goal_tolerance_ang_finish = 0.1f;
      ptm(m);
    }
    return id;
  };
  // --- operations
  const auto cellPose = [=](Rng& q) {
    auto [x, y] = free[q.i(0, static_cast<int64_t>(free.size()) - 1)];
    return Pose2(k->ox + (x + q.uni(0.05, 0.95)) * k->res, k->oy + (y + q.uni(0.05, 0.95)) * k->res, q.uni(-M_PI, M_PI));
  };
  const ns_t chaos = T + sec(c.uni(4, 25));
  ns_t t = T + sec(c.uni(0.5, 2.5));
  for (int i = 0; t < chaos && i < 10; ++i)
  {
    Rng q(r.seed, "op" + std::to_string(i));
    const double u = i == 0 ? 0 : q.uni();
    const uint64_t sd = q.u64();
    const int kind = static_cast<int>(q.i(0, 2));
    if (u < 0.4)
      r.op(t, strf("goal by %s", kind == 0 ? "topic" : kind == 1 ? "move_base" : "tolerant_move"), [=] {
        Rng h(sd, "goal");
        send(kind, cellPose(h));
      });
    else if (u < 0.5)
      r.op(t, "cancel", [=] {
        cmb(actionlib_msgs::GoalID());
        ctm(actionlib_msgs::GoalID());
      });
    else if (u < 0.85 && safety && local)
      r.op(t, "an obstacle appears", [=] {
        Rng h(sd, "obst");
        for (int j = 0; j < 20; ++j)
        {
          const double x = k->ox + h.uni(6, k->W - 6) * k->res, y = k->oy + h.uni(6, k->H - 6) * k->res, a = h.uni(0.1, 0.25), b = h.uni(0.1, 0.25);
          if (std::hypot(x - k->pose.x, y - k->pose.y) < k->radius() + 1.3)
            continue;
          k->boxes.push_back({x - a, y - b, x + a, y + b});
          return;
        }
      });
    else if (u < 0.95)
      r.op(t, "the obstacles leave", [=] { k->boxes.clear(); });
    else
      r.op(t, "temporary escape", [=, &s] { s.pub<std_msgs::Empty>("/planner_3d/temporary_escape")(std_msgs::Empty()); });
    t += sec(q.uni(0.3, 8));
  }
  k->calm = std::max(chaos, t) + 200 * MS;
  if (r.faults)
  {
    // what a local network and a busy processor do; the base stops 0.3 s after the last command
    NetFaultMix m;
    m.targets = {"/tf>", "/odom>", "/cloud>", "/path>", "/costmap_update>", "/overlay1>", "/cmd_vel_raw>", "/base_cmd>", ">/planner_3d", ">/costmap_3d"};
    m.max_delay = 0.1;
    m.max_partition = 1.0;
    Rng f = r.rng("nodefaults");
    netFaults(r, m, T + SEC, k->calm - 100 * MS, 6);
    std::vector<std::string> names;
    for (auto& n : k->by)
      names.push_back(n.first);
    stallFaults(r, names, T + SEC, k->calm - 100 * MS, 3, 0.3);
    for (int i = 0, n = static_cast<int>(f.i(0, 2)); i < n; ++i)
    {
      const std::string v = names[f.i(0, static_cast<int64_t>(names.size()) - 1)];
      const ns_t tk = T + SEC + static_cast<ns_t>(f.uni() * (k->calm - T - 3 * SEC)), td = sec(f.uni(0.1, 1.5));
      r.faultAt("crash", v + strf(" for %.2fs", td * 1e-9), tk, [=, &s] {
        Node* nd = k->by[v];
        if (nd->done)
          return;
        s.kill(nd);
        s.after(td, [=, &s] { s.restart(nd); });
      });
    }
  }
  s.run(k->calm);
  if (r.failed)
    return;
  // --- no faults any more: a reachable goal is reached
  k->boxes.clear();
  Rng h = r.rng("close");
  s.run(s.now + 3 * SEC);
  if (r.failed)
    return;
  const auto rc = k->reach(k->pose.x, k->pose.y, sure);
  std::vector<int> cand;
  for (size_t i = 0; i < rc.size(); ++i)
    if (rc[i] > 3)
      cand.push_back(static_cast<int>(i));
  double hx, hy;
  if (!cand.empty() && !k->hit(k->pose, 0, hx, hy))
  {
    const int g = cand[h.i(0, static_cast<int64_t>(cand.size()) - 1)];
    const Pose2 gp(k->ox + (g % k->W + 0.5) * k->res, k->oy + (g / k->W + 0.5) * k->res, h.uni(-M_PI, M_PI));
    const int kind = static_cast<int>(h.i(0, 2));
    // goals of other kinds are refused while an action is active
    cmb(actionlib_msgs::GoalID());
    ctm(actionlib_msgs::GoalID());
    s.run(s.now + 1500 * MS);
    if (r.failed)
      return;
    const ns_t t0 = s.now;
    const double d0 = k->dist;
    const std::string id = send(kind, gp);
    const double bound = 40 + 6 * (rc[g] * k->res / k->vel) + 30 / k->ang;
    auto done = std::make_shared<bool>(false);
    s.every(t0 + SEC, 50 * MS, [=, &s] {
      if (*done)
        return;
      if (kind ? k->result.count(id) > 0 : k->st.status == PS::DONE)
      {
        *done = true;
        s.stop = true;
      }
    });
    s.run(t0 + sec(bound));
    s.stop = false;
    if (r.failed)
      return;
    s.probe("nav.closing");
    if (!*done && safety && s.now - k->go_t > 5 * SEC && k->hit(k->pose, -1.2, hx, hy))
    {
      // held by the safety limiter in front of something (it stops early if a small angular velocity is commanded): judged by P01 to P03
      s.probe("nav.held_by_limiter");
      return;
    }
    r.nontrivial = true;
    r.expect(*done, "P27", "goal-not-reached", [&] {
      return strf("reachable goal (%.2f %.2f %.2f), %.1f m away, sent by %s is not reported to be reached after %.0f s: the robot is at (%.2f %.2f %.2f), planner status %d error %d, last command to move %.1f s ago, clearance for 5 cm steps %d", gp.x, gp.y, gp.th, rc[g] * k->res,
                  kind == 0 ? "topic" : kind == 1 ? "move_base" : "tolerant_move", bound, k->pose.x, k->pose.y, k->pose.th, k->st.status, k->st.error, (s.now - k->go_t) * 1e-9, [&] {
                    double a, b;
                    int n = 0;
                    while (n < 12 && !k->hit(k->pose, -0.05 * n, a, b))
                      ++n;
                    return n;
                  }());
    });
    if (r.failed)
      return;
    if (kind)
      r.expect(k->result[id] == actionlib_msgs::GoalStatus::SUCCEEDED, "P27", "goal-not-succeeded", [&] { return strf("reachable goal ended with status %d", k->result[id]); });
    const double tol = 0.2 + 1.5 * k->res;
    const double e = std::hypot(k->pose.x - gp.x, k->pose.y - gp.y);
    r.expect(e <= tol, "P27", "reported-far", [&] { return strf("goal (%.2f %.2f) reported to be reached, the robot is at (%.2f %.2f), %.2f m away", gp.x, gp.y, k->pose.x, k->pose.y, e); });
    r.expect(std::abs(wrap(k->pose.th - gp.th)) <= 0.25 + (kind == 2 ? 0.1 : 0), "P27", "reported-heading", [&] { return strf("goal heading %.2f reported to be reached, the robot heads to %.2f", gp.th, k->pose.th); });
    if (kind)
    {
      s.run(s.now + SEC);
      r.expect(k->result_n[id] == 1, "P27", "result-twice", [&] { return strf("%d results", k->result_n[id]); });
    }
    s.probe("nav.drive_m", static_cast<uint64_t>(k->dist - d0));
    s.probe("nav.time_s", static_cast<uint64_t>((s.now - t0) / SEC));
  }
  for (auto& n : k->nodes)
    r.expect(!n->died, "P27", "node-died", [&] { return n->name + " died"; });
  s.probe("nav.total_m", static_cast<uint64_t>(k->dist));
  s.probe("nav.commands", k->n_cmd);
  s.state(mix64(static_cast<uint64_t>(k->pose.x * 20) * 100003 + static_cast<uint64_t>(k->pose.y * 20)));
}
struct Init
{
  Init()
  {
    harness().real = "costmap_3d, planner_3d, trajectory_tracker, safety_limiter and pointcloud2_to_map nodes, with the parameters of neonavigation_launch";
    harness().stub = "roscpp, tf2, actionlib, dynamic_reconfigure, OpenMP runtime, PCL containers and filters; robot, sensor and map server";
  }
} init_;
Register r1("stack", {{"P27", 1.0}}, stack);
}  // namespace
