// patrol (P26) with action servers which succeed, abort, stall, die and restart.
#include <world.h>
#include <actionlib/server/simple_action_server.h>
#include <move_base_msgs/MoveBaseAction.h>
#include <nav_msgs/Path.h>
#include <planner_cspace_msgs/MoveWithToleranceAction.h>
using namespace sim;
using namespace world;
int patrol_main(int, char**);
namespace
{
typedef actionlib_msgs::GoalStatus GS;
const char* const PN = "/patrol";
const char* const SN = "/planner";
struct Pat
{
  Run& r;
  Sim& s;
  Node *node = nullptr, *server = nullptr;
  bool tol = false;
  double tl = 0.1, ta = 0.1, tf = 0.05;
  // the reference
  nav_msgs::Path path;
  bool has_path = false;
  ns_t path_t = 0;
  size_t next = 0;           // waypoint to be sent
  bool out = false;          // a goal is being executed as far as patrol can know
  std::string id;            // its identifier
  bool lost = false;         // the server died after the goal had been sent
  bool suspended = false;    // preempted by somebody else: nothing is required until the next path
  bool cancel_due = false;   // a cancel request has to be published before the next goal
  bool cancelled = false;
  bool cancel_ok = false, maybe_ended = false;
  ns_t last_progress = 0, busy_until = 0, ready_since = -1;
  int n_goal = 0, n_done = 0, n_paths = 0, n_resent = 0, n_replaced = 0;
  // the server
  double d_min = 0.1, d_max = 2, p_abort = 0.25;
  explicit Pat(Run& rr) : r(rr), s(rr.sim) {}
  void onPath(const nav_msgs::Path& m)
  {
    cancel_ok = true;
    if (out)
    {
      cancel_due = !maybe_ended && !suspended && !lost;
      ++n_replaced;
    }
    path = m;
    has_path = !m.poses.empty();
    path_t = s.now;
    next = 0;
    out = lost = suspended = false;
    last_progress = s.now;
    ++n_paths;
  }
  void onCancel(const actionlib_msgs::GoalID& m)
  {
    const bool all = m.id.empty() && m.stamp.isZero();
    r.expect(cancel_ok, "P26", "cancel-unasked", [&] { return std::string("patrol cancels although no new path came"); });
    if (all || m.id == id)
      cancel_due = false;
  }
  template <class G>
  void onGoal(const std::string& gid, const G& g)
  {
    ++n_goal;
    last_progress = s.now;
    r.nontrivial = true;
    if (!has_path)
    {
      r.expect(false, "P26", "goal-without-path", [&] { return strf("goal (%.2f %.2f) although the path is empty or finished", g.target_pose.pose.position.x, g.target_pose.pose.position.y); });
      return;
    }
    r.expect(!cancel_due, "P26", "not-cancelled", [&] { return std::string("goal of the new path sent, the running goal was not cancelled"); });
    r.expect(!suspended || !out, "P26", "goal-after-preemption", [&] { return std::string("goal sent although the former one was preempted"); });
    size_t k = next;
    if (out)
    {
      r.expect(lost, "P26", "goal-before-end", [&] { return strf("waypoint sent while the goal for waypoint %zu of %zu has not ended", next - 1, path.poses.size()); });
      k = next - 1;
      ++n_resent;
    }
    if (r.failed)
      return;
    if (k >= path.poses.size())
    {
      r.expect(false, "P26", "goal-beyond-end", [&] { return strf("goal sent after all %zu waypoints", path.poses.size()); });
      return;
    }
    const auto& w = path.poses[k];
    const auto& p = g.target_pose;
    const auto same = [](const geometry_msgs::Pose& a, const geometry_msgs::Pose& b) {
      return a.position.x == b.position.x && a.position.y == b.position.y && a.position.z == b.position.z && a.orientation.x == b.orientation.x && a.orientation.y == b.orientation.y && a.orientation.z == b.orientation.z && a.orientation.w == b.orientation.w;
    };
    r.expect(same(p.pose, w.pose) && p.header.frame_id == w.header.frame_id, "P26", "wrong-waypoint", [&] {
      size_t j = 0;
      while (j < path.poses.size() && !same(path.poses[j].pose, p.pose))
        ++j;
      return strf("goal (%.2f %.2f) in '%s' sent, waypoint %zu of %zu (%.2f %.2f) in '%s' is due%s", p.pose.position.x, p.pose.position.y, p.header.frame_id.c_str(), k, path.poses.size(), w.pose.position.x, w.pose.position.y, w.header.frame_id.c_str(),
                  j < path.poses.size() ? strf("; it is waypoint %zu", j).c_str() : "");
    });
    const double age = (s.now + node->clock_off) * 1e-9 - p.header.stamp.toSec();
    r.expect(std::abs(age) < 0.5, "P26", "old-stamp", [&] { return strf("goal stamped %.3f s in the past: it would be transformed with old data", age); });
    next = k + 1;
    out = true;
    lost = cancel_ok = maybe_ended = false;
    id = gid;
    s.state(mix64((next << 8) ^ path.poses.size() ^ (static_cast<uint64_t>(n_resent) << 16) ^ (static_cast<uint64_t>(n_replaced) << 24) ^ (static_cast<uint64_t>(n_done) << 32)));
  }
  void onResult(const GS& st)
  {
    if (!out || st.goal_id.id != id)
      return;
    last_progress = s.now;
    if (st.status == GS::SUCCEEDED || st.status == GS::ABORTED)
    {
      out = false;
      lost = false;
      ++n_done;
      if (next >= path.poses.size())
        has_path = false;
    }
    else if (cancelled)
      suspended = true;
  }
  void onServerResult(const GS& st)
  {
    if (out && st.goal_id.id == id)
      maybe_ended = true;
  }
  bool finished() const { return !has_path || suspended; }
};
template <class A>
int serverMain(Pat* k, const std::string& name)
{
  int argc = 0;
  ros::init(argc, nullptr, "planner");
  ros::NodeHandle nh;
  actionlib::SimpleActionServer<A> as(nh, name, false);
  ros::Time due;
  bool abort = false;
  int n = 0;
  as.registerGoalCallback([&] {
    as.acceptNewGoal();
    Rng g(k->r.seed, "exec" + std::to_string(++n) + "/" + std::to_string(k->server->incarnation));
    due = ros::Time::now() + ros::Duration(g.uni(k->d_min, k->d_max));
    abort = g.p(k->p_abort);
  });
  as.registerPreemptCallback([&] {
    if (as.isActive())
      as.setPreempted();
  });
  as.start();
  ros::Rate rate(50);
  while (ros::ok())
  {
    ros::spinOnce();
    if (as.isActive() && ros::Time::now() >= due)
    {
      if (abort)
        as.setAborted();
      else
        as.setSucceeded();
    }
    rate.sleep();
  }
  return 0;
}
void patrol(Run& r)
{
  Rng g = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  Pat* k = new Pat(r);
  const bool compat = g.p(0.2);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string pn = std::string(PN) + "/", pt = compat ? pn + "path" : "/patrol_nodes";
  k->tol = g.p(0.5);
  s.setParam(pn + "with_tolerance", k->tol);
  if (g.p(0.6))
    s.setParam(pn + "tolerance_lin", k->tl = g.uni(0, 1));
  if (g.p(0.6))
    s.setParam(pn + "tolerance_ang", k->ta = g.uni(0, 1));
  if (g.p(0.6))
    s.setParam(pn + "tolerance_ang_finish", k->tf = g.uni(0, 1));
  k->d_max = g.logu(0.15, 4);
  k->d_min = g.p(0.3) ? 0.0 : 0.1;
  k->p_abort = g.pick({0.0, 0.2, 0.7});
  r.note("tolerant", k->tol);
  r.note("goal_s", k->d_max);
  const std::string an = k->tol ? "tolerant_move" : "move_base", ap = "/" + an;
  if (k->tol)
    s.tap<planner_cspace_msgs::MoveWithToleranceActionGoal>(ap + "/goal", [=](const planner_cspace_msgs::MoveWithToleranceActionGoal& m, Node* n) {
      if (n != k->node)
        return;
      k->onGoal(m.goal_id.id, m.goal);
      k->r.expect(m.goal.goal_tolerance_lin == static_cast<float>(k->tl) && m.goal.goal_tolerance_ang == static_cast<float>(k->ta) && m.goal.goal_tolerance_ang_finish == static_cast<float>(k->tf) && !m.goal.continuous_movement_mode, "P26", "other-tolerance",
                  [&] { return strf("goal with tolerances %.3f %.3f %.3f, configured %.3f %.3f %.3f", m.goal.goal_tolerance_lin, m.goal.goal_tolerance_ang, m.goal.goal_tolerance_ang_finish, k->tl, k->ta, k->tf); });
    });
  else
    s.tap<move_base_msgs::MoveBaseActionGoal>(ap + "/goal", [=](const move_base_msgs::MoveBaseActionGoal& m, Node* n) { if (n == k->node) k->onGoal(m.goal_id.id, m.goal); });
  s.tap<actionlib_msgs::GoalID>(ap + "/cancel", [=](const actionlib_msgs::GoalID& m, Node* n) { if (n == k->node) k->onCancel(m); });
  if (k->tol)
  {
    s.tap<planner_cspace_msgs::MoveWithToleranceActionResult>(ap + "/result", [=](const planner_cspace_msgs::MoveWithToleranceActionResult& m, Node*) { k->onServerResult(m.status); });
    s.onRecv<planner_cspace_msgs::MoveWithToleranceActionResult>(PN, ap + "/result", [=](const planner_cspace_msgs::MoveWithToleranceActionResult& m, Node*) { k->onResult(m.status); });
  }
  else
  {
    s.tap<move_base_msgs::MoveBaseActionResult>(ap + "/result", [=](const move_base_msgs::MoveBaseActionResult& m, Node*) { k->onServerResult(m.status); });
    s.onRecv<move_base_msgs::MoveBaseActionResult>(PN, ap + "/result", [=](const move_base_msgs::MoveBaseActionResult& m, Node*) { k->onResult(m.status); });
  }
  s.onExec<nav_msgs::Path>(PN, pt, [=](const nav_msgs::Path& m, Node*) { k->onPath(m); });
  auto pub = s.pub<nav_msgs::Path>(pt, g.p(0.5));
  auto cancel = s.pub<actionlib_msgs::GoalID>(ap + "/cancel");
  Pat* kk = k;
  const bool tol = k->tol;
  const ns_t t_srv = T + (g.p(0.6) ? 0 : sec(g.uni(0, 6)));
  k->node = s.spawn(PN, patrol_main);
  keepServing(r, k->node);
  k->server = s.spawn(SN, [=](int, char**) { return tol ? serverMain<planner_cspace_msgs::MoveWithToleranceAction>(kk, an) : serverMain<move_base_msgs::MoveBaseAction>(kk, an); }, {}, t_srv);
  Rng o = r.rng("ops");
  const ns_t chaos = T + sec(o.uni(2, 20));
  const double span = (chaos - T) * 1e-9;
  const int n = static_cast<int>(o.i(1, 5));
  for (int i = 0; i < n; ++i)
  {
    Rng q(r.seed, "path" + std::to_string(i));
    const int np = q.p(0.08) ? 0 : static_cast<int>(q.i(1, 6));
    nav_msgs::Path p;
    p.header.frame_id = "map";
    for (int j = 0; j < np; ++j)
    {
      geometry_msgs::PoseStamped w;
      w.header.frame_id = q.p(0.85) ? "map" : "odom";
      w.pose.position.x = q.p(0.1) && j ? p.poses.back().pose.position.x : q.uni(-9, 9);
      w.pose.position.y = i + j * 0.01;
      w.pose.orientation = quatYaw(q.uni(-3, 3));
      p.poses.push_back(w);
    }
    r.op(T + sec(i == 0 ? q.uni(0, 1) : q.uni(0, span)), strf("path of %d waypoints", np), [=, &s] {
      nav_msgs::Path m = p;
      m.header.stamp = rosTime(s.now);
      pub(m);
    });
  }
  if (o.p(0.15))
    r.op(T + sec(o.uni(1, span)), "somebody else cancels all goals", [=] {
      k->cancelled = true;
      cancel(actionlib_msgs::GoalID());
    });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/goal", "/cancel", "/result", "/status", "/patrol_nodes", "/path"};
    mix.drop = mix.dup = mix.reorder = mix.partition = 0;
    mix.max_delay = 0.6;
    netFaults(r, mix, T, chaos, 6);
    stallFaults(r, {SN}, T, chaos, 2, 3);
    stallFaults(r, {PN}, T, chaos, 2, 0.6);
    Rng f = r.rng("extra");
    const int nc = static_cast<int>(f.i(0, 2));
    for (int i = 0; i < nc; ++i)
    {
      const ns_t d = sec(f.uni(1.0, 5));
      r.faultAt("crash", SN, T + sec(f.uni(0.5, span)), [=, &s] {
        if (k->server->crashed || !k->server->started)
          return;
        s.kill(k->server);
        k->lost = k->out;
        s.after(d, [=, &s] { s.restart(k->server); });
      });
    }
    if (f.p(0.15))
      r.faultAt("crash", PN, T + sec(f.uni(0.5, span)), [=, &s] {
        s.kill(k->node);
        k->has_path = k->out = k->lost = k->cancel_due = k->suspended = false;
        k->path.poses.clear();
        s.after(500 * MS, [=, &s] { s.restart(k->node); });
      });
  }
  s.run(chaos + 6 * SEC);
  if (r.failed)
    return;
  // no more faults and paths: what is left has to be visited
  const size_t left = k->has_path ? k->path.poses.size() - k->next + 1 : 0;
  s.every(s.now, 50 * MS, [=, &s] {
    if (k->finished())
      s.stop = true;
  });
  s.run(s.now + sec(6 + static_cast<double>(left) * (k->d_max + 1)));
  s.stop = false;
  if (r.failed)
    return;
  r.expect(k->finished(), "P26", "stuck", [&] { return strf("waypoint %zu of %zu %s for %.1f s", k->out ? k->next - 1 : k->next, k->path.poses.size(), k->out ? "has been pursued" : "has not been sent", (s.now - k->last_progress) * 1e-9); });
  s.run(s.now + 2 * SEC);
  for (auto& x : std::initializer_list<std::pair<const char*, int>>{{"goals", k->n_goal}, {"goals_ended", k->n_done}, {"paths", k->n_paths}, {"resent", k->n_resent}, {"replaced", k->n_replaced}, {"suspended", k->suspended}})
    s.probe(std::string("patrol.") + x.first, static_cast<uint64_t>(x.second));
}
struct Init
{
  Init()
  {
    harness().real = "patrol node";
    harness().stub = "roscpp and actionlib replaced by simros (same client and server state machines); the planner is a simulated action server process";
  }
} init_;
Register r1("patrol", {{"P26", 1.0}}, patrol);
}  // namespace
