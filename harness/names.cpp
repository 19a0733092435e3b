// Names of topics and services at every compatibility level (P29), nodes started, restarted and renamed.
#include <world.h>
#include <sensor_msgs/Joy.h>
#include <geometry_msgs/Twist.h>
using namespace sim;
using namespace world;
#define M(x) int x##_main(int, char**);
M(costmap_3d) M(laserscan_to_map) M(pointcloud2_to_map) M(largemap_to_map) M(joystick_interrupt) M(joystick_mux) M(pose_transform) M(select_map) M(pointcloud_to_maps) M(patrol) M(dummy_robot) M(planner_3d)
M(planner_2dof) M(safety_limiter) M(track_odometry) M(trajectory_server) M(trajectory_tracker) M(trajectory_saver) M(trajectory_recorder)
#undef M
namespace
{
struct Name
{
  char kind;  // P publisher, S subscriber, V service
  std::string now, old;  // at level 1, at level 0; "~x": in the node's own namespace
  std::string type;
};
struct Kind
{
  const char* name;
  int (*main)(int, char**);
  std::vector<Name> names;
};
const std::string TW = "geometry_msgs/Twist", OG = "nav_msgs/OccupancyGrid", PC2 = "sensor_msgs/PointCloud2", PATH = "nav_msgs/Path";
Name both(char k, const char* n, std::string t) { return {k, n, n, t}; }
std::vector<Name> action(bool server, const std::string& n, const std::string& t)
{
  std::vector<Name> r;
  for (auto& x : std::initializer_list<std::pair<const char*, std::string>>{{"goal", t + "ActionGoal"}, {"cancel", "actionlib_msgs/GoalID"}})
    r.push_back(both(server ? 'S' : 'P', (n + "/" + x.first).c_str(), x.second));
  for (auto& x : std::initializer_list<std::pair<const char*, std::string>>{{"status", "actionlib_msgs/GoalStatusArray"}, {"feedback", t + "ActionFeedback"}, {"result", t + "ActionResult"}})
    if (server || x.first[0] != 'f')
    r.push_back(both(server ? 'P' : 'S', (n + "/" + x.first).c_str(), x.second));
  return r;
}
const std::vector<Kind>& kinds()
{
  static const std::vector<Kind> k = {
      {"costmap_3d", costmap_3d_main, {{'P', "costmap", "~costmap", "costmap_cspace_msgs/CSpace3D"}, {'P', "costmap_update", "~costmap_update", "costmap_cspace_msgs/CSpace3DUpdate"}, both('P', "~footprint", "geometry_msgs/PolygonStamped"), both('S', "map", OG)}},
      {"laserscan_to_map", laserscan_to_map_main, {{'P', "map_local", "~map", OG}, both('S', "scan", "sensor_msgs/LaserScan")}},
      {"pointcloud2_to_map", pointcloud2_to_map_main, {{'P', "map_local", "~map", OG}, both('S', "cloud", PC2), both('S', "cloud_singleshot", PC2)}},
      {"largemap_to_map", largemap_to_map_main, {{'P', "map_local", "~map", OG}, both('S', "map", OG)}},
      {"joystick_interrupt", joystick_interrupt_main, {{'S', "cmd_vel_input", "~cmd_vel_input", TW}, {'P', "cmd_vel", "~cmd_vel", TW}, both('S', "joy", "sensor_msgs/Joy"), both('P', "~interrupt_status", "std_msgs/Bool")}},
      {"joystick_mux", joystick_mux_main, {{'S', "mux_input0", "~input0", "*"}, {'S', "mux_input1", "~input1", "*"}, both('S', "joy", "sensor_msgs/Joy"), {'P', "mux_output", "~output", TW}}},
      {"pose_transform", pose_transform_main, {{'S', "pose_in", "~pose_in", "geometry_msgs/PoseWithCovarianceStamped"}, {'P', "pose_out", "~pose_out", "geometry_msgs/PoseWithCovarianceStamped"}}},
      {"select_map", select_map_main, {{'S', "maps", "/maps", "map_organizer_msgs/OccupancyGridArray"}, {'S', "floor", "~floor", "std_msgs/Int32"}, {'P', "map", "/map", OG}}},
      {"pointcloud_to_maps", pointcloud_to_maps_main, {{'S', "mapcloud", "~map_cloud", PC2}, both('P', "maps", "map_organizer_msgs/OccupancyGridArray")}},
      {"patrol", patrol_main, {{'S', "patrol_nodes", "~path", PATH}}},
      {"dummy_robot", dummy_robot_main, {both('P', "odom", "nav_msgs/Odometry"), both('S', "cmd_vel", TW), both('S', "initialpose", "geometry_msgs/PoseWithCovarianceStamped")}},
      {"planner_3d", planner_3d_main,
       {{'S', "costmap", "~costmap", "costmap_cspace_msgs/CSpace3D"}, {'S', "costmap_update", "~costmap_update", "costmap_cspace_msgs/CSpace3DUpdate"}, {'S', "move_base_simple/goal", "~goal", "geometry_msgs/PoseStamped"},
        {'V', "forget_planning_cost", "~forget", ""}, both('V', "~make_plan", ""), both('P', "~status", "planner_cspace_msgs/PlannerStatus"), both('P', "~path_start", "geometry_msgs/PoseStamped"), both('P', "~path_end", "geometry_msgs/PoseStamped"), both('P', "~metrics", "neonavigation_metrics_msgs/Metrics")}},
      {"planner_2dof", planner_2dof_main, {{'P', "joint_trajectory", "~trajectory_out", "trajectory_msgs/JointTrajectory"}, {'S', "trajectory_in", "~trajectory_in", "trajectory_msgs/JointTrajectory"}, {'S', "joint_states", "~joint", "sensor_msgs/JointState"}}},
      {"safety_limiter", safety_limiter_main,
       {{'P', "cmd_vel", "~cmd_vel_out", TW}, {'S', "cmd_vel_in", "~cmd_vel_in", TW}, {'S', "disable_safety", "~disable", "std_msgs/Bool"}, {'S', "watchdog_reset", "~watchdog_reset", "std_msgs/Empty"}, both('P', "~status", "safety_limiter_msgs/SafetyLimiterStatus"),
        both('P', "collision", "sensor_msgs/PointCloud")}},
      {"track_odometry", track_odometry_main, {{'S', "imu/data", "imu", "sensor_msgs/Imu"}, {'S', "reset_odometry_z", "~reset_z", "std_msgs/Float32"}, both('P', "odom", "nav_msgs/Odometry")}},
      {"trajectory_server", trajectory_server_main, {{'V', "change_path", "~ChangePath", ""}, both('P', "~status", "trajectory_tracker_msgs/TrajectoryServerStatus")}},
      {"trajectory_tracker", trajectory_tracker_main, {{'S', "speed", "~speed", "std_msgs/Float32"}, both('S', "path_velocity", "trajectory_tracker_msgs/PathWithVelocity"), both('P', "~status", "trajectory_tracker_msgs/TrajectoryTrackerStatus")}},
      {"trajectory_saver", trajectory_saver_main, {}},
      {"trajectory_recorder", trajectory_recorder_main, {both('V', "~clear_path", "")}},
  };
  return k;
}
std::string resolve(const std::string& ns, const std::string& node, const std::string& n)
{
  if (n[0] == '~')
    return node + "/" + n.substr(1);
  return n[0] == '/' ? n : (ns == "/" ? "" : ns) + "/" + n;
}
struct Inst
{
  const Kind* k;
  Node* n;
  std::string ns, name;
  std::vector<Name> names;
  std::vector<Name> clouds;  // of safety_limiter
  int level = 0;
  ns_t t0 = 0;
  bool starved = false;
};
std::string shown(char k, const std::string& t) { return std::string(k == 'P' ? "topic published " : k == 'S' ? "topic subscribed " : "service ") + t; }
void names(Run& r)
{
  Rng g = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  r.death_is_violation = false;
  const bool runtime_change = g.p(0.15);
  auto level = std::make_shared<int>();
  auto pickLevel = [&s, level](Rng& q) {
    const int x = static_cast<int>(q.pick({0, 0, 0, 1, 1, 1, 1, -1, 2, 2, -2, 3, 10, -100, 2147483647, -2147483647 - 1}));
    const bool unset = x == 0 && q.p(0.4);
    s.params->erase("/neonavigation_compatible");
    if (!unset)
      s.setParam("/neonavigation_compatible", x);
    *level = x;
    return x;
  };
  Rng o = r.rng("ops");
  r.note("level", pickLevel(o));
  const int count = static_cast<int>(g.i(1, 4));
  auto all = std::make_shared<std::vector<std::unique_ptr<Inst>>>();
  std::set<std::string> used;
  for (int i = 0; i < count; ++i)
  {
    Rng q(r.seed, "node" + std::to_string(i));
    const auto& ks = kinds();
    std::unique_ptr<Inst> in(new Inst);
    in->k = &ks[q.i(0, ks.size() - 1)];
    in->ns = q.pick({std::string("/"), std::string("/"), std::string("/robot1"), std::string("/a/b")});
    in->name = (in->ns == "/" ? "" : in->ns) + "/" + (q.p(0.6) ? std::string(in->k->name) : "n" + std::to_string(q.i(0, 9)));
    if (!used.insert(in->name).second)
      continue;
    const std::string pn = in->name + "/", kn = in->k->name;
    in->names = in->k->names;
    auto add = [&](const Name& x) { in->names.push_back(x); };
    if (kn == "costmap_3d" || kn == "safety_limiter")
    {
      XmlRpc::XmlRpcValue fp;
      const double xy[4][2] = {{0.2, 0.1}, {0.2, -0.1}, {-0.2, -0.1}, {-0.2, 0.1}};
      for (int j = 0; j < 4; ++j)
        for (int c = 0; c < 2; ++c)
          fp[j][c] = xy[j][c];
      s.setParam(pn + "footprint", fp);
    }
    if (kn == "planner_3d")
    {
      for (auto& a : {action(true, "move_base", "move_base_msgs/MoveBase"), action(true, "tolerant_move", "planner_cspace_msgs/MoveWithTolerance")})
        for (auto& x : a)
          add(x);
      const bool v = q.p(0.3);
      s.setParam(pn + "use_path_with_velocity", v);
      if (v)
        add(both('P', "path_velocity", "trajectory_tracker_msgs/PathWithVelocity"));
      else
        add({'P', "path", "~path", PATH});
    }
    if (kn == "patrol")
    {
      const bool t = q.p(0.5);
      s.setParam(pn + "with_tolerance", t);
      for (auto& x : t ? action(false, "tolerant_move", "planner_cspace_msgs/MoveWithTolerance") : action(false, "move_base", "move_base_msgs/MoveBase"))
        add(x);
    }
    if (kn == "planner_2dof")
    {
      const int ng = static_cast<int>(q.i(1, 2));
      s.setParam(pn + "num_groups", ng);
      for (int j = 0; j < ng; ++j)
      {
        const std::string gn = q.p(0.5) ? "group" + std::to_string(j) : "arm" + std::to_string(j);
        s.setParam(pn + "group" + std::to_string(j) + "_name", gn);
        s.setParam(pn + gn + "/resolution", 16);
        add(both('P', ("~" + gn + "/status").c_str(), "planner_cspace_msgs/PlannerStatus"));
      }
    }
    if (kn == "safety_limiter")
    {
      const int n = q.p(0.6) ? 1 : static_cast<int>(q.i(2, 4));
      if (n != 1 || q.p(0.5))
        s.setParam(pn + "num_input_clouds", n);
      if (n == 1)
        add({'S', "cloud", "~cloud", PC2});
      else
        for (int j = 0; j < n; ++j)
          add(both('S', ("cloud" + std::to_string(j)).c_str(), PC2));
    }
    if (kn == "track_odometry")
    {
      const bool w = q.p(0.4);
      s.setParam(pn + "without_odom", w);
      if (!w)
        add(both('S', "odom_raw", "nav_msgs/Odometry"));
    }
    const auto param = [&](const char* p, const char* def) {
      if (q.p(0.5))
        return std::string("~") + def;
      const std::string v = q.pick({std::string("p1"), std::string("/abs/p2"), std::string("q/p3")});
      s.setParam(pn + p, v);
      return v[0] == '/' ? v : "~" + v;
    };
    if (kn == "trajectory_server")
      add({'P', "path", param("path", "path"), PATH});
    if (kn == "trajectory_recorder")
      add({'P', "path", param("path", "recpath"), PATH});
    if (kn == "trajectory_saver")
      add({'S', "path", param("path", "recpath"), PATH});
    if (kn == "trajectory_tracker")
    {
      add({'S', "path", param("path", "path"), PATH});
      add({'P', "cmd_vel", param("cmd_vel", "cmd_vel"), TW});
      if (q.p(0.3))
      {
        s.setParam(pn + "use_odom", true);
        add(both('S', "odom", "nav_msgs/Odometry"));
      }
    }
    in->t0 = T + sec(q.uni(0, 0.5));
    Inst* p = in.get();
    in->n = s.spawn(in->name, in->k->main, {}, in->t0);
    s.at(in->t0 - 1, [=] { p->level = *level; });
    all->push_back(std::move(in));
  }
  // somebody uses every name of both worlds
  for (auto& in : *all)
  {
    const std::string ns = in->ns, name = in->name, kn = in->k->name;
    if (kn == "joystick_mux")
      for (auto& x : {std::string("mux_input0"), std::string("~input0"), std::string("mux_input1"), std::string("~input1")})
      {
        auto pub = s.pub<geometry_msgs::Twist>(resolve(ns, name, x));
        s.every(T + 700 * MS, 100 * MS, [=] { pub(geometry_msgs::Twist()); });
      }
  }
  auto check = [=, &r, &s](Inst* in) {
    if (in->n->crashed || r.failed)
      return;
    const int l = in->level;
    if (l < 0 || l > 1)
    {
      r.expect(in->n->done, "P29", "runs-unsupported", [&] { return strf("%s (%s) is running although compatibility level %d is not supported", in->name.c_str(), in->k->name, l); });
      r.nontrivial = true;
      return;
    }
    if (in->n->done && !in->n->died && !strcmp(in->k->name, "trajectory_saver"))
      return;  // it has saved a path
    r.expect(!in->n->done, "P29", "stopped", [&] { return strf("%s (%s) stopped at compatibility level %d: %s", in->name.c_str(), in->k->name, l, in->n->death.c_str()); });
    if (r.failed)
      return;
    std::set<std::pair<char, std::string>> have, want, other;
    std::map<std::pair<char, std::string>, std::string> type;
    for (auto& p : in->n->pubs)
      if (p->alive)
        have.insert({'P', p->topic}), type[{'P', p->topic}] = p->type;
    for (auto& p : in->n->subs)
      if (p->alive)
        have.insert({'S', p->topic}), type[{'S', p->topic}] = p->type;
    for (auto& p : in->n->srvs)
      if (p->alive)
        have.insert({'V', p->name});
    for (auto& n : in->names)
      want.insert({n.kind, resolve(in->ns, in->name, l == 1 ? n.now : n.old)});
    for (auto& n : in->names)
      other.insert({n.kind, resolve(in->ns, in->name, l == 1 ? n.old : n.now)});
    for (auto& n : in->names)
    {
      const std::pair<char, std::string> w{n.kind, resolve(in->ns, in->name, l == 1 ? n.now : n.old)};
      r.expect(have.count(w), "P29", "missing", [&] { return strf("%s (%s) at level %d: %s is missing", in->name.c_str(), in->k->name, l, shown(w.first, w.second).c_str()); });
      r.expect(n.type.empty() || !have.count(w) || type[w] == n.type, "P29", "type", [&] { return strf("%s (%s) at level %d: %s has type %s, not %s", in->name.c_str(), in->k->name, l, shown(w.first, w.second).c_str(), type[w].c_str(), n.type.c_str()); });
    }
    for (auto& x : other)
      r.expect(want.count(x) || !have.count(x), "P29", "wrong-level", [&] { return strf("%s (%s) at level %d: %s belongs to the other level", in->name.c_str(), in->k->name, l, shown(x.first, x.second).c_str()); });
    // the name may not be used for anything else either
    for (auto& x : other)
      for (char c : {'P', 'S', 'V'})
        r.expect(c == x.first || want.count({c, x.second}) || !have.count({c, x.second}), "P29", "wrong-kind", [&] { return strf("%s (%s) at level %d: %s", in->name.c_str(), in->k->name, l, shown(c, x.second).c_str()); });
    r.nontrivial = true;
    s.state(comb(comb(hashStr(in->k->name), l + 7), hashStr(in->ns)));
  };
  auto checkAll = [=, &r, &s] {
    for (auto& p : *all)
      check(p.get());
  };
  s.at(T + 3 * SEC, checkAll);
  // nothing is sent under a mixed set of names
  for (auto& in : *all)
    for (auto& n : in->names)
      if (n.kind == 'P' && n.now != n.old)
        for (int l : {0, 1})
        {
          Inst* p = in.get();
          const std::string t = resolve(p->ns, p->name, l ? n.now : n.old);
          const bool same = resolve(p->ns, p->name, n.now) == resolve(p->ns, p->name, n.old);
          s.tapAny(t, [=, &r](const std::string&, const MsgRef&, Node* from) {
            r.expect(from != p->n || p->level == l || (same && (p->level == 0 || p->level == 1)), "P29", "sent", [&] { return strf("%s (%s) sends to %s at level %d", p->name.c_str(), p->k->name, t.c_str(), p->level); });
          });
        }
  if (runtime_change)
    r.op(T + sec(o.uni(0.6, 2)), "parameter changed", [=, &r] {
      Rng q(r.seed, "change");
      auto l = *level;
      pickLevel(q);
      (void)l;
    });
  const int nr = static_cast<int>(o.i(0, 3));
  ns_t t = T + 3 * SEC;
  for (int j = 0; j < nr; ++j)
  {
    t += 3 * SEC;
    r.op(t, "restarted at another level", [=, &r, &s] {
      Rng q(r.seed, "restart" + std::to_string(j));
      pickLevel(q);
      for (auto& p : *all)
      {
        Inst* in = p.get();
        if (!in->n->done)
          s.kill(in->n);
        in->level = 99;
        s.after(sec(q.uni(0.1, 0.5)), [=, &s] {
          in->level = *level;
          in->t0 = s.now;
          s.restart(in->n);
        });
      }
      s.after(2500 * MS, checkAll);
    });
  }
  s.run(t + 3 * SEC);
  s.probe("names.nodes", all->size());
}
struct Init
{
  Init()
  {
    harness().real = "all 19 nodes which use the compatibility helper";
    harness().stub = "roscpp replaced by simros (name resolution, parameters, topics, services)";
  }
} init_;
Register r1("names", {{"P29", 1.0}}, names);
}  // namespace
