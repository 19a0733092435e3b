// trajectory_tracker (P06, P07), trajectory_saver/server (P08) and trajectory_recorder (P09).
#include <world.h>
#include <sim/io.h>
#include <fstream>
#include <sys/stat.h>
#include <geometry_msgs/Twist.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <std_msgs/Float32.h>
#include <std_srvs/Empty.h>
#include <trajectory_tracker_msgs/ChangePath.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
#include <trajectory_tracker_msgs/TrajectoryServerStatus.h>
#include <trajectory_tracker_msgs/TrajectoryTrackerStatus.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>
#include <visualization_msgs/InteractiveMarkerUpdate.h>
using namespace sim;
using namespace world;
int trajectory_tracker_main(int, char**);
int trajectory_recorder_main(int, char**);
int trajectory_saver_main(int, char**);
int trajectory_server_main(int, char**);
namespace
{
typedef trajectory_tracker_msgs::TrajectoryTrackerStatus TStatus;
const char* const TN = "/trajectory_tracker";

struct PathPt
{
  double x, y, yaw;
  double vel = NAN;
};
/// Path under construction: exact poses of a vehicle moving on lines and arcs, with cusps and turns in place.
struct PathBuilder
{
  std::vector<PathPt> p;
  Pose2 c;
  double sign = 1, len = 0, turn = 0, step = 0.1;
  int cusps = 0, spins = 0;
  double vel = NAN;
  explicit PathBuilder(const Pose2& s, double st) : c(s), step(st) { push(); }
  void push() { p.push_back(PathPt{c.x, c.y, c.th, vel}); }
  void move(double l, double curv)
  {
    const int n = std::max(2, static_cast<int>(std::ceil(l / step)));
    for (int i = 0; i < n; ++i)
    {
      const double d = sign * l / n, dth = d * curv;
      if (std::abs(curv) < 1e-9)
        c = c * Pose2(d, 0, 0);
      else
        c = c * Pose2(std::sin(dth) / curv, (1 - std::cos(dth)) / curv, dth);
      push();
    }
    len += l;
    turn += std::abs(l * curv);
  }
  void spin(double a)
  {
    c.th += a;
    turn += std::abs(a);
    ++spins;
    push();
  }
  void cusp()
  {
    sign = -sign;
    ++cusps;
  }
};
nav_msgs::Path pathMsg(const std::vector<PathPt>& p, const std::string& frame, ns_t stamp)
{
  nav_msgs::Path m;
  m.header.frame_id = frame;
  m.header.stamp = rosTime(stamp);
  for (auto& q : p)
  {
    geometry_msgs::PoseStamped s;
    s.header = m.header;
    s.pose.position.x = q.x;
    s.pose.position.y = q.y;
    s.pose.orientation = quatYaw(q.yaw);
    m.poses.push_back(s);
  }
  return m;
}
trajectory_tracker_msgs::PathWithVelocity pathVelMsg(const std::vector<PathPt>& p, const std::string& frame, ns_t stamp)
{
  trajectory_tracker_msgs::PathWithVelocity m;
  m.header.frame_id = frame;
  m.header.stamp = rosTime(stamp);
  for (auto& q : p)
  {
    trajectory_tracker_msgs::PoseStampedWithVelocity s;
    s.header = m.header;
    s.pose.position.x = q.x;
    s.pose.position.y = q.y;
    s.pose.orientation = quatYaw(q.yaw);
    s.linear_velocity.x = q.vel;
    m.poses.push_back(s);
  }
  return m;
}

struct Params
{
  double max_vel = 0.5, max_w = 1.0, acc = 1.0, aacc = 2.0, d_stop = 2.0, tol_d = 0.2, tol_a = 0.1, stop_d = 0.1, stop_a = 0.05, look = 0.5, no_pos = 0, min_track = 0, tol_lv = 0, tol_wv = 0;
  int step = 1;
};
/// The robot, the reference of what the tracker has been told, and the checks on its outputs.
struct Trk
{
  Run& r;
  Sim& s;
  bool use_odom = false, predict = true;
  double hz = 50, max_dt = 0.1, odom_to = 0.1;
  Params pr;
  std::deque<Params> reconf;
  std::vector<PathPt> path;  // last executed path
  std_msgs::Header path_hd;
  bool has_path = false, valid_path = false, fresh_path = false;
  double speed = 0.5, path_vmax = 0;  // highest speed asked for by the path in effect
  // transforms received: newest by stamp
  struct TfV
  {
    ns_t stamp = -1;
    Pose2 p;
  } tf_mo, tf_ob;
  bool mo_static = false;
  // odometry as executed
  nav_msgs::Odometry od, od_prev;
  bool has_od = false, has_prev = false;
  ns_t od_exec = 0;
  double od_dt = 0;
  // outputs
  double pv = 0, pw = 0;  // previous output
  bool zeroed = true;
  int n_cmd = 0, n_stat = 0;
  TStatus st;
  geometry_msgs::Twist cmd;
  ns_t cb_t = 0, last_zero = 0, last_goal = 0, last_cmd_t = 0;
  std_msgs::Header goal_hd;
  uint64_t n_ctrl = 0, n_goal = 0, n_far = 0, n_nopath = 0, n_follow = 0, n_timeout = 0;
  double worst_lat = 0, worst_along = 0;
  // robot
  Pose2 robot;
  double rv = 0, rw = 0;
  Pose2 drift;  // map -> odom
  Node* node = nullptr;
  bool control_cb = false, in_cb = false;
  std::string label;
  explicit Trk(Run& rr) : r(rr), s(rr.sim) {}
  ns_t nodeNow() const { return s.now + (s.cur ? s.cur->debt : 0) + (node ? node->clock_off : 0); }

  template <class M> void gotPath(const M& m, bool with_vel)
  {
    path.clear();
    path_hd = m.header;
    has_path = true;
    fresh_path = true;
    valid_path = !m.header.frame_id.empty() && !m.poses.empty();
    path_vmax = 0;
    finite_path = true;
    unsure_path = false;
    for (auto& p : m.poses)
    {
      PathPt q{p.pose.position.x, p.pose.position.y, yawOf(p.pose.orientation), NAN};
      q.vel = velOf(p);
      path.push_back(q);
      finite_path = finite_path && std::isfinite(q.x) && std::isfinite(q.y) && std::isfinite(q.yaw);
    }
    // consecutive poses at one point are merged, the velocity of the merged ones does not matter
    for (size_t i = 0; i < path.size(); ++i)
      if (std::isfinite(path[i].vel) && path[i].vel < 0)
      {
        bool sure = true;
        for (size_t j = 0; j < i && i + 1 != path.size(); ++j)
          sure = sure && std::hypot(path[i].x - path[j].x, path[i].y - path[j].y) > 2e-3;
        if (sure)
          valid_path = false;
        else
          unsure_path = true;
      }
    (void)with_vel;
  }
  bool finite_path = true, finite_before = true, unsure_path = false;
  static double velOf(const geometry_msgs::PoseStamped&) { return NAN; }
  static double velOf(const trajectory_tracker_msgs::PoseStampedWithVelocity& p) { return static_cast<float>(p.linear_velocity.x); }
  // highest linear speed allowed now
  double vLimit() const
  {
    double v = 0;
    bool any = false;
    for (auto& q : path)
    {
      if (std::isnan(q.vel))
        any = true;
      else if (!(q.vel <= v))
        v = q.vel;
    }
    if (any || path.empty())
      v = std::max(v, speed);
    return v;
  }
  void attach(const std::string& frame_odom_child)
  {
    (void)frame_odom_child;
    auto tf = [this](const tf2_msgs::TFMessage& m, Node*) {
      for (auto& t : m.transforms)
      {
        TfV& v = t.child_frame_id == "odom" ? tf_mo : tf_ob;
        const ns_t k = static_cast<ns_t>(t.header.stamp.toNSec());
        if (k >= v.stamp)
        {
          v.stamp = k;
          v.p = Pose2(t.transform.translation.x, t.transform.translation.y, yawOf(t.transform.rotation));
        }
      }
    };
    s.onRecv<tf2_msgs::TFMessage>(TN, "/tf", tf);
    s.onRecv<tf2_msgs::TFMessage>(TN, "/tf_static", tf);
    auto on = [this](const std::string& topic) {
      s.onExec<nav_msgs::Path>(TN, topic, [this](const nav_msgs::Path& m, Node*) { gotPath(m, false); });
      s.onExec<trajectory_tracker_msgs::PathWithVelocity>(TN, topic, [this](const trajectory_tracker_msgs::PathWithVelocity& m, Node*) { gotPath(m, true); });
    };
    on(path_topic);
    on("/path_velocity");
    s.onExec<std_msgs::Float32>(TN, speed_topic, [this](const std_msgs::Float32& m, Node*) { speed = m.data; });
    s.onExec<nav_msgs::Odometry>(TN, "/odom", [this](const nav_msgs::Odometry& m, Node*) {
      od_prev = od;
      has_prev = has_od && !od_prev.header.stamp.isZero();
      od = m;
      has_od = true;
      od_exec = s.now;
      od_dt = has_prev ? (od.header.stamp - od_prev.header.stamp).toSec() : 0;
    });
    s.tap<geometry_msgs::Twist>(cmd_topic, [this](const geometry_msgs::Twist& m, Node* n) {
      if (n != node)
        return;
      cmd = m;
      ++n_cmd;
      onCmd();
    });
    s.tap<TStatus>(std::string(TN) + "/status", [this](const TStatus& m, Node* n) {
      if (n != node)
        return;
      st = m;
      ++n_stat;
    });
    s.cb_hooks.push_back([this](Node* k, const std::string& l, bool begin) {
      if (k != node)
        return;
      if (begin)
      {
        in_cb = true;
        label = l;
        n_cmd = n_stat = 0;
        if (l == "reconf" && !reconf.empty())
        {
          pr = reconf.front();
          reconf.pop_front();
          speed = pr.max_vel;
        }
      }
      else
      {
        in_cb = false;
        finish();
      }
    });
  }
  std::string path_topic = "/path", speed_topic = "/speed", cmd_topic = "/cmd_vel";
  bool isControl() const { return use_odom ? label == "/odom" : label.rfind("timer", 0) == 0; }
  bool isTimeout() const { return use_odom && label.rfind("timer", 0) == 0; }
  double dtMax() const { return use_odom ? std::max(0.0, std::min(max_dt, od_dt)) : 1.0 / hz; }
  void onCmd()
  {
    const double v = cmd.linear.x, w = cmd.angular.z;
    last_cmd_t = nodeNow();
    if (v == 0 && w == 0)
      last_zero = last_cmd_t;
    r.expect(std::isfinite(v) && std::isfinite(w) && cmd.linear.y == 0 && cmd.linear.z == 0 && cmd.angular.x == 0 && cmd.angular.y == 0, "P06", "not-finite",
             [&] { return strf("velocity (%g %g %g | %g %g %g)", v, cmd.linear.y, cmd.linear.z, cmd.angular.x, cmd.angular.y, w); });
    if (r.failed)
      return;
    const double dt = in_cb ? dtMax() : 0;
    const double dv = pr.acc * dt + 1e-4, dw = pr.aacc * dt + 1e-4;
    const double vl = vLimit() + 1e-4, wl = pr.max_w + 1e-4;
    if (v != 0 || w != 0)
    {
      // decelerating from a limit which has been lowered is bounded by the acceleration
      r.expect(std::abs(v) <= vl || (std::abs(v) <= std::abs(pv) && std::abs(std::abs(pv) - std::abs(v)) >= pr.acc * dt * 0.99 - 1e-4), "P06", "linear-velocity-limit",
               [&] { return strf("linear velocity %.4f, limit %.4f, previous %.4f", v, vl, pv); });
      r.expect(std::abs(w) <= wl || (std::abs(w) <= std::abs(pw) && std::abs(std::abs(pw) - std::abs(w)) >= pr.aacc * dt * 0.99 - 1e-4), "P06", "angular-velocity-limit",
               [&] { return strf("angular velocity %.4f, limit %.4f, previous %.4f", w, wl, pw); });
      const bool nan_stop = !finite_path || !finite_before;  // a term which is not finite stops that motion
      r.expect(std::abs(v - pv) <= dv || (nan_stop && v == 0), "P06", "linear-acceleration-limit", [&] { return strf("linear velocity %.4f -> %.4f in %.4f s, maximum acceleration %.3f", pv, v, dt, pr.acc); });
      r.expect(std::abs(w - pw) <= dw || (nan_stop && w == 0), "P06", "angular-acceleration-limit", [&] { return strf("angular velocity %.4f -> %.4f in %.4f s, maximum acceleration %.3f", pw, w, dt, pr.aacc); });
    }
    finite_before = finite_path;
    prev_v = pv;
    pv = v;
    pw = w;
    if (!in_cb)
      return;
    r.expect(isControl() || isTimeout(), "P06", "unexpected-command", [&] { return "velocity published from " + label; });
  }
  // pose of the robot in the path frame as the node could know it
  bool knownPose(Pose2& p, double& slack, bool raw = false) const
  {
    slack = 0.02;
    Pose2 ob;
    if (use_odom)
    {
      if (!has_od)
        return false;
      ob = Pose2(od.pose.pose.position.x, od.pose.pose.position.y, yawOf(od.pose.pose.orientation));
      if (predict && !raw)
      {
        const double d = std::max(0.0, std::min(max_dt, (nodeNow() - static_cast<ns_t>(od.header.stamp.toNSec())) * 1e-9));
        ob = ob * Pose2(od.twist.twist.linear.x * d, 0, 0);
        ob.th += od.twist.twist.angular.z * d;
        slack += std::abs(od.twist.twist.linear.x) * max_dt;
      }
    }
    else
    {
      if (tf_ob.stamp < 0)
        return false;
      ob = tf_ob.p;
    }
    if (path_hd.frame_id == "odom")
      p = ob;
    else if (path_hd.frame_id == "map" && tf_mo.stamp >= 0)
      p = tf_mo.p * ob;
    else
      return false;
    return true;
  }
  double pathLength() const
  {
    const std::vector<PathPt> path = sampled();
    double l = 0;
    for (size_t i = 1; i < path.size(); ++i)
      l += std::hypot(path[i].x - path[i - 1].x, path[i].y - path[i - 1].y);
    return l;
  }
  // path as documented: consecutive poses at one point are a turn in place, every path_step-th pose and the last are used
  std::vector<PathPt> sampled() const
  {
    std::vector<PathPt> m, o;
    for (auto& q : path)
    {
      const size_t k = m.size();
      auto near = [&](size_t i) { return std::hypot(m[i].x - q.x, m[i].y - q.y) < 1e-3; };
      if (k && near(k - 1))
      {
        PathPt e = q;
        e.x = m[k - 1].x;
        e.y = m[k - 1].y;
        if (k > 1 && m[k - 2].x == e.x && m[k - 2].y == e.y)
          m[k - 1] = e;
        else
          m.push_back(e);
      }
      else
        m.push_back(q);
    }
    for (size_t i = 0; i < m.size(); i += static_cast<size_t>(pr.step))
      o.push_back(m[i]);
    if (m.size() && (m.size() - 1) % static_cast<size_t>(pr.step))
      o.push_back(m.back());
    return o;
  }
  void finish()
  {
    const bool ctl = isControl() && !(use_odom && !has_prev), to = isTimeout();
    if (!ctl && !to)
    {
      r.expect(n_cmd == 0, "P06", "unexpected-command", [&] { return "velocity published from " + label; });
      return;
    }
    r.expect(n_stat == 1, "P06", "status-missing", [&] { return strf("%d statuses in a control cycle (%s)", n_stat, label.c_str()); });
    if (r.failed)
      return;
    if (to)
    {
      ++n_timeout;
      r.expect(n_cmd == 1 && cmd.linear.x == 0 && cmd.angular.z == 0, "P06", "timeout-not-zero", [&] { return strf("velocity (%.3f, %.3f) at the odometry timeout", cmd.linear.x, cmd.angular.z); });
      return;
    }
    ++n_ctrl;
    const bool zero = cmd.linear.x == 0 && cmd.angular.z == 0;
    const bool pose_ok = use_odom || tf_ob.stamp >= 0;
    r.expect(n_cmd == (pose_ok ? 1 : 0) || (!pose_ok && n_cmd == 1 && zero), "P06", "command-missing", [&] { return strf("%d commands in a control cycle", n_cmd); });
    r.expect(has_path ? st.path_header.frame_id == path_hd.frame_id && st.path_header.stamp == path_hd.stamp : st.path_header.frame_id.empty(), "P07", "status-of-other-path",
             [&] { return strf("status refers to the path stamped %.3f, the last path is stamped %.3f", st.path_header.stamp.toSec(), path_hd.stamp.toSec()); });
    if (st.status == TStatus::NO_PATH || st.status == TStatus::FAR_FROM_PATH)
      r.expect(n_cmd == 0 ? pv == 0 && pw == 0 : zero, "P06", "moving-without-path", [&] { return strf("velocity (%.3f, %.3f) with status %d", cmd.linear.x, cmd.angular.z, st.status); });
    n_nopath += st.status == TStatus::NO_PATH;
    n_far += st.status == TStatus::FAR_FROM_PATH;
    n_follow += st.status == TStatus::FOLLOWING;
    const bool frame_ok = path_hd.frame_id == "odom" || (path_hd.frame_id == "map" && tf_mo.stamp >= 0) || path_hd.frame_id == "base_link";
    if (!valid_path || !frame_ok || !pose_ok)
      r.expect(st.status == TStatus::NO_PATH && (zero || n_cmd == 0), "P06", "motion-without-path", [&] {
        return strf("status %d, velocity (%.3f, %.3f) while there is no usable path (%zu poses, frame '%s', pose %d)", st.status, cmd.linear.x, cmd.angular.z, path.size(), path_hd.frame_id.c_str(), pose_ok);
      });
    if (r.failed || !valid_path || unsure_path)
      return;
    Pose2 p;
    double slack;
    if (!knownPose(p, slack) || !finite_path)
      return;
    r.expect(!std::isnan(st.distance_remains) && !std::isnan(st.angle_remains), "P07", "status-not-finite", [&] { return strf("distance_remains %g angle_remains %g", st.distance_remains, st.angle_remains); });
    checkFar(p, slack);
    if (st.status == TStatus::GOAL)
      checkGoal(p, slack);
  }
  void checkFar(const Pose2& p, double slack)
  {
    const std::vector<PathPt> path = sampled();
    // straight paths only: lateral distance is unambiguous
    const size_t n = path.size();
    if (n < 2 || pathLength() < std::max({0.3, pr.min_track + 0.1, pr.no_pos + 0.1}))
      return;
    const double dx = path[n - 1].x - path[0].x, dy = path[n - 1].y - path[0].y, l = std::hypot(dx, dy);
    for (size_t i = 1; i < n; ++i)
    {
      const double ex = path[i].x - path[i - 1].x, ey = path[i].y - path[i - 1].y;
      if ((ex * dx + ey * dy) / l < 1e-2 || std::abs(ex * dy - ey * dx) / l > 1e-6)
        return;
    }
    const double lat = std::abs((p.x - path[0].x) * dy - (p.y - path[0].y) * dx) / l, al = ((p.x - path[0].x) * dx + (p.y - path[0].y) * dy) / l;
    const double m = pr.d_stop + slack + pr.look * (std::abs(pv) + pr.max_vel) + 0.1;
    if (lat < m || al < 0.2 || al > l - 0.2)
      return;
    s.probe("tracker.far_cases");
    r.expect(st.status == TStatus::FAR_FROM_PATH || (st.status == TStatus::FOLLOWING && std::abs(cmd.linear.x) <= std::abs(prev_v) + 1e-6), "P06", "driving-far-from-path",
             [&] { return strf("status %d, velocity (%.3f, %.3f) %.2f m beside the path, dist_stop %.2f", st.status, cmd.linear.x, cmd.angular.z, lat, pr.d_stop); });
  }
  double prev_v = 0;
  ns_t last_busy = 0;
  void checkGoal(const Pose2& p, double slack)
  {
    const std::vector<PathPt> path = sampled();
    ++n_goal;
    last_goal = s.now;
    goal_hd = st.path_header;
    if (use_odom && has_od)
    {
      const double v = std::abs(od.twist.twist.linear.x), w = std::abs(od.twist.twist.angular.z);
      r.expect((pr.tol_lv == 0 || v < pr.tol_lv) && (pr.tol_wv == 0 || w < pr.tol_wv), "P07", "goal-while-moving", [&] { return strf("GOAL at a velocity of %.3f m/s, %.3f rad/s (tolerances %.3f, %.3f)", v, w, pr.tol_lv, pr.tol_wv); });
    }
    const size_t n = path.size();
    const double len = pathLength();
    if (len < std::max({pr.min_track, pr.no_pos, pr.stop_d}) + 1e-3)
    {
      // orientation control only
      double ea = std::abs(wrap(p.th - path[n - 1].yaw));
      if (len >= std::max(pr.min_track, pr.no_pos) - 1e-3)  // may also have been followed
        for (size_t j = 1; j < n; ++j)
        {
          const double jx = path[j].x - path[j - 1].x, jy = path[j].y - path[j - 1].y;
          if (std::hypot(jx, jy) > 1e-9)
          {
            const double dir = std::atan2(jy, jx);
            ea = std::min({ea, std::abs(wrap(p.th - dir)), std::abs(wrap(p.th - dir + M_PI))});
          }
        }
      r.expect(ea <= pr.tol_a + (use_odom ? pr.max_w * max_dt : 0) + 0.02, "P07", "goal-with-wrong-heading", [&] { return strf("GOAL with a heading error of %.3f rad (tolerance %.3f)", ea, pr.tol_a); });
      return;
    }
    // last piece of the path with a direction
    size_t i = n - 1;
    while (i > 0 && std::hypot(path[i].x - path[i - 1].x, path[i].y - path[i - 1].y) < 1.5e-3)
      --i;
    const bool spin_end = i != n - 1;
    const double dx = path[i].x - path[i - 1].x, dy = path[i].y - path[i - 1].y, l = std::hypot(dx, dy);
    const double ex = path[n - 1].x - p.x, ey = path[n - 1].y - p.y;
    const double along = (ex * dx + ey * dy) / l, lat = (ex * dy - ey * dx) / l;
    worst_lat = std::max(worst_lat, std::abs(lat));
    if (!spin_end)
    {
      worst_along = std::max(worst_along, std::abs(along));
      // on a bent end, the distance along the path depends on the lateral error
      double bend = 0, back = 0;
      for (size_t j = i; j > 1 && back <= pr.tol_d + std::abs(lat) + 0.5; --j)
      {
        const double jx = path[j].x - path[j - 1].x, jy = path[j].y - path[j - 1].y, kx = path[j - 1].x - path[j - 2].x, ky = path[j - 1].y - path[j - 2].y;
        back += std::hypot(jx, jy);
        bend += std::abs(std::atan2(kx * jy - ky * jx, kx * jx + ky * jy));
      }
      if (bend > 0.5)
        bend = 1e3;
      r.expect(std::abs(along) <= pr.tol_d + slack + std::abs(pv) * pr.look + bend * (std::abs(lat) + pr.tol_d), "P07", "goal-far-from-end",
               [&] { return strf("GOAL %.3f m from the end of the path along it (tolerance %.3f, velocity %.3f)", along, pr.tol_d, pv); });
      // nor before the measured position, without prediction, is there
      Pose2 q;
      double sl;
      if (use_odom && predict && knownPose(q, sl, true))
      {
        const double rx = path[n - 1].x - q.x, ry = path[n - 1].y - q.y, ra = (rx * dx + ry * dy) / l;
        r.expect(std::abs(ra) <= pr.tol_d + 0.02 + bend * (std::abs(lat) + pr.tol_d), "P07", "goal-before-end",
                 [&] { return strf("GOAL while the last odometry is %.3f m from the end of the path (tolerance %.3f, velocity %.3f)", ra, pr.tol_d, pv); });
      }
    }
    r.expect(std::hypot(ex, ey) <= pr.d_stop + pr.tol_d + slack + pr.look * pr.max_vel, "P07", "goal-far-beside-end",
             [&] { return strf("GOAL %.3f m from the end of the path (dist_stop %.2f)", std::hypot(ex, ey), pr.d_stop); });
    // the heading is compared to the piece of the path the robot is at, within the tolerance of the end
    const double e1 = std::abs(wrap(p.th - path[n - 1].yaw));
    double e2 = M_PI, back = 0;
    for (size_t j = i; j > 0 && back <= pr.tol_d + slack + std::abs(pv) * pr.look + 0.05; --j)
    {
      const double jx = path[j].x - path[j - 1].x, jy = path[j].y - path[j - 1].y, jl = std::hypot(jx, jy);
      if (jl < 1e-9)
        break;
      const double dir = std::atan2(jy, jx);
      e2 = std::min({e2, std::abs(wrap(p.th - dir)), std::abs(wrap(p.th - dir + M_PI))});
      back += jl;
    }
    r.expect((spin_end ? e1 : std::min(e1, e2)) <= pr.tol_a + (use_odom ? pr.max_w * max_dt * 2 : 0) + 0.02, "P07", "goal-with-wrong-heading",
             [&] { return strf("GOAL with a heading error of %.3f rad to the end pose, %.3f to the path (tolerance %.3f)", e1, e2, pr.tol_a); });
  }
};

void setParams(Trk& k, Rng& g, bool calm)
{
  Sim& s = k.s;
  const std::string pn = std::string(TN) + "/";
  auto P = [&](const char* n, double& v, double nv, double prob) {
    if (g.p(prob))
      s.setParam(pn + n, v = nv);
  };
  Params& p = k.pr;
  P("max_vel", p.max_vel, g.uni(0.2, 1.0), 0.6);
  P("max_angvel", p.max_w, g.uni(0.5, 2.0), 0.6);
  P("max_acc", p.acc, g.uni(0.3, 2.0), 0.5);
  P("max_angacc", p.aacc, g.uni(1.0, 4.0), 0.5);
  P("hz", k.hz, g.pick({20.0, 30.0, 50.0, 100.0}), 0.4);
  if (!calm)
  {
    P("dist_stop", p.d_stop, g.uni(0.5, 3), 0.5);
    P("goal_tolerance_dist", p.tol_d, g.uni(0.05, 0.4), 0.4);
    P("goal_tolerance_ang", p.tol_a, g.uni(0.05, 0.4), 0.4);
    P("look_forward", p.look, g.uni(0, 1), 0.4);
    P("no_position_control_dist", p.no_pos, g.uni(0, 1), 0.15);
    P("min_tracking_path", p.min_track, g.uni(0, 1), 0.15);
  }
  if (k.use_odom)
  {
    s.setParam(pn + "use_odom", true);
    if (g.p(0.4))
      s.setParam(pn + "predict_odom", k.predict = g.p(0.5));
    P("max_dt", k.max_dt, g.uni(0.05, 0.3), 0.4);
    if (!calm)
    {
      P("goal_tolerance_lin_vel", p.tol_lv, g.uni(0.02, 0.3), 0.3);
      P("goal_tolerance_ang_vel", p.tol_wv, g.uni(0.02, 0.3), 0.3);
    }
    P("odom_timeout_sec", k.odom_to, g.pick({0.0, 0.1, 0.2, 0.5}), 0.5);
  }
  k.speed = p.max_vel;
  k.r.note("use_odom", k.use_odom);
  k.r.note("hz", k.hz);
  k.r.note("max_vel", p.max_vel);
}

// ---------------------------------------------------------------------------------------------
// The robot: follows cmd_vel exactly after the network and a command latency, publishes odometry and transforms.
void startRobot(Trk* k, Rng& g, double period, ns_t lag)
{
  Sim& s = k->s;
  s.sub<geometry_msgs::Twist>(k->cmd_topic, [k](const geometry_msgs::Twist& m) {
    k->rv = m.linear.x;
    k->rw = m.angular.z;
  });
  const ns_t T = s.t_start;
  s.every(T, 5 * MS, [k] {
    const double d = 0.005;
    k->robot = k->robot * Pose2(k->rv * d * std::cos(k->rw * d / 2), k->rv * d * std::sin(k->rw * d / 2), k->rw * d);
  });
  auto* tf = new TfPub(s);
  auto od = s.pub<nav_msgs::Odometry>("/odom");
  const double mp = g.pick({0.02, 0.05, 0.1});
  s.every(T + sec(g.uni(0, period)), sec(period), [k, tf, od, lag, &s] {
    const Pose2 ob = k->drift.inv() * k->robot;
    const double v = k->rv, w = k->rw;
    const ns_t t = s.now;
    auto send = [=] {
      tf->send(tfMsg("odom", "base_link", t, ob));
      nav_msgs::Odometry m;
      m.header.frame_id = "odom";
      m.child_frame_id = "base_link";
      m.header.stamp = rosTime(t);
      m.pose.pose.position.x = ob.x;
      m.pose.pose.position.y = ob.y;
      m.pose.pose.orientation = quatYaw(ob.th);
      m.twist.twist.linear.x = v;
      m.twist.twist.angular.z = w;
      od(m);
    };
    if (lag)
      s.after(lag, send);
    else
      send();
  });
  s.every(T + sec(g.uni(0, mp)), sec(mp), [k, tf, &s] { tf->send(tfMsg("map", "odom", s.now, k->drift)); });
}

// ---------------------------------------------------------------------------------------------
// P07 (and P06): trackable paths, transient faults, the robot must arrive.
void follow(Run& r)
{
  auto* k = new Trk(r);
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  k->use_odom = g.p(0.4);
  const bool compat = g.p(0.1);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  if (compat)
  {
    k->path_topic = std::string(TN) + "/path";
    k->speed_topic = std::string(TN) + "/speed";
    k->cmd_topic = std::string(TN) + "/cmd_vel";
  }
  setParams(*k, g, true);
  const std::string pn = std::string(TN) + "/";
  const ns_t T = s.t_start;
  k->robot = Pose2(g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3));
  k->drift = Pose2(g.uni(-2, 2), g.uni(-2, 2), g.uni(-3, 3));
  const double period = g.pick({0.01, 0.02, 0.04});
  startRobot(k, g, period, g.p(0.3) ? sec(g.uni(0, 0.03)) : 0);
  k->attach("");
  k->node = s.spawn(TN, trajectory_tracker_main);
  keepServing(r, k->node);
  Rng o = r.rng("ops");
  const int np = static_cast<int>(o.i(1, 3));
  auto pp = s.pub<nav_msgs::Path>(k->path_topic, true);
  auto pv = s.pub<trajectory_tracker_msgs::PathWithVelocity>("/path_velocity", true);
  struct Cur
  {
    double budget = 0;
    ns_t sent = 0;
    std_msgs::Header hd;
    PathBuilder* b = nullptr;
    int n = -1;
  };
  auto c = std::make_shared<Cur>();
  const ns_t t_first = T + 300 * MS;
  auto sendPath = [=, &s, &r](int i) {
    Rng q(r.seed, "path" + std::to_string(i));
    const bool in_map = q.p(0.7);
    Pose2 st = in_map ? k->robot : k->drift.inv() * k->robot;
    if (q.p(0.5))
      st = st * Pose2(q.uni(-0.15, 0.15), q.uni(-0.15, 0.15), q.uni(-0.2, 0.2));
    auto* b = new PathBuilder(st, q.pick({0.05, 0.1, 0.15}));
    const double rmin = std::max(0.6, 1.3 * k->pr.max_vel / k->pr.max_w);
    const int ns = static_cast<int>(q.i(1, 4));
    if (q.p(0.2))
      b->sign = -1;
    for (int j = 0; j < ns; ++j)
    {
      if (j && q.p(0.25))
        b->cusp();
      if (q.p(0.2))
        b->spin(q.uni(0.3, 2.5) * (q.p(0.5) ? 1 : -1));
      if (q.p(0.45))
        b->move(q.uni(0.7, 2.5), 0);
      else
      {
        const double rad = q.uni(rmin, rmin + 2);
        b->move(rad * q.uni(0.5, 1.8), (q.p(0.5) ? 1 : -1) / rad);
      }
    }
    if (q.p(0.25))
      b->spin(q.uni(0.3, 2.5) * (q.p(0.5) ? 1 : -1));
    const bool with_vel = q.p(0.3);
    double vm = k->pr.max_vel;
    if (with_vel)
    {
      vm = q.uni(0.15, 1) * k->pr.max_vel;
      for (auto& pt : b->p)
        pt.vel = q.p(0.1) ? NAN : vm;
    }
    const std::string fr = in_map ? "map" : "odom";
    if (with_vel)
      pv(pathVelMsg(b->p, fr, s.now));
    else
      pp(pathMsg(b->p, fr, s.now));
    c->hd.frame_id = fr;
    c->hd.stamp = rosTime(s.now);
    c->b = b;
    c->n = i;
    c->sent = s.now;
    c->budget = b->len / vm * 1.5 + b->turn / k->pr.max_w * 2 + (b->cusps + b->spins) * (4 + 2 * vm / k->pr.acc) + 12 + 6 * vm / k->pr.acc;
  };
  ns_t t = t_first;
  for (int i = 0; i < np; ++i)
  {
    const int i2 = i;
    if (r.op(t, strf("path %d", i), [=] { sendPath(i2); }) < 0)
      continue;
    t += sec(o.uni(0.5, 15));
  }
  const ns_t chaos = t_first + sec(o.uni(1, 12));
  if (o.p(0.3))
    r.op(T + sec(o.uni(1, 8)), "localization jump", [=] { k->drift = Pose2(Rng(r.seed, "j").uni(-0.15, 0.15), Rng(r.seed, "k").uni(-0.15, 0.15), Rng(r.seed, "l").uni(-0.05, 0.05)) * k->drift; });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/tf>", "/odom>", ">" + std::string(TN), TN};
    mix.max_delay = 0.4;
    mix.max_partition = 1.0;
    netFaults(r, mix, T + SEC, chaos, 5);
    stallFaults(r, {TN}, T + SEC, chaos, 2, 0.8);
  }
  // run until the last path is reached or the bound is exceeded
  struct Done
  {
    bool ok = false;
    ns_t t = 0;
  };
  auto d = std::make_shared<Done>();
  const ns_t last_op = std::max(chaos, t);
  s.every(last_op, 100 * MS, [=, &s] {
    if (c->n >= 0 && k->last_goal > c->sent && k->goal_hd.stamp == c->hd.stamp && k->rv == 0 && k->rw == 0)
    {
      d->ok = true;
      d->t = s.now;
      s.stop = true;
    }
  });
  s.run(last_op + 10 * MS);
  const ns_t start = std::max(last_op, c->sent);
  s.run(start + sec(c->budget * 1.6 + 5));
  if (!r.failed && c->n >= 0 && k->path_hd.stamp == c->hd.stamp)
  {
    const PathPt& e = c->b->p.back();
    Pose2 rob = c->hd.frame_id == "map" ? k->robot : k->drift.inv() * k->robot;
    const double dist = std::hypot(e.x - rob.x, e.y - rob.y), ang = std::abs(wrap(e.yaw - rob.th));
    r.expect(d->ok, "P07", "goal-not-reached", [&] {
      return strf("path of %.1f m, %d cusps, %d turns in place sent at %.2f s not finished after %.1f s: robot %.2f m, %.2f rad from its end, status %d, velocity (%.3f, %.3f)", c->b->len, c->b->cusps, c->b->spins, (c->sent - s.t_start) * 1e-9,
                  (s.now - start) * 1e-9, dist, ang, k->st.status, k->pv, k->pw);
    });
    if (d->ok)
    {
      r.expect(dist <= (c->b->turn < 0.5 ? 0.7 : 1.2) + (r.faults ? k->pr.max_vel : 0) && ang <= k->pr.tol_a + 0.15, "P07", "stopped-off-the-end", [&] { return strf("finished %.3f m and %.3f rad from the end of the path", dist, ang); });
      s.probe("follow.reached");
      s.probe(strf("follow.err_%s", dist < 0.05 ? "lt5cm" : dist < 0.1 ? "lt10cm" : dist < 0.2 ? "lt20cm" : dist < 0.35 ? "lt35cm" : "lt50cm"));
      const double tt = (d->t - start) * 1e-9 / c->budget;
      s.probe(tt < 0.3 ? "follow.time_lt30%" : tt < 0.6 ? "follow.time_lt60%" : tt < 1 ? "follow.time_lt100%" : "follow.time_over");
    }
    r.nontrivial = true;
    s.probe("follow.cusps", c->b->cusps);
    s.probe("follow.spins", c->b->spins);
  }
  s.probe("tracker.cycles", k->n_ctrl);
  s.probe("tracker.goal", k->n_goal);
  s.probe("tracker.far", k->n_far);
  s.probe("tracker.no_path", k->n_nopath);
  s.probe("tracker.odom_timeouts", k->n_timeout);
  s.state(mix64(static_cast<uint64_t>(std::llround(k->robot.x * 20)) * 1000003 + static_cast<uint64_t>(std::llround(k->robot.y * 20))));
}

// ---------------------------------------------------------------------------------------------
// P06: any input at all.
std::vector<PathPt> junkPath(Rng& q, const Pose2& at)
{
  std::vector<PathPt> p;
  const int kind = static_cast<int>(q.i(0, 9));
  Pose2 st = at;
  if (q.p(0.4))
    st = st * Pose2(q.uni(-6, 6), q.uni(-6, 6), q.uni(-3, 3));
  switch (kind)
  {
    case 0:
      break;  // empty
    case 1:
      p.push_back(PathPt{st.x, st.y, st.th, NAN});
      break;
    case 2:  // the same point
      for (int i = 0; i < q.i(2, 5); ++i)
        p.push_back(PathPt{st.x, st.y, st.th + i * 0.4, NAN});
      break;
    case 3:  // random walk
      for (int i = 0; i < q.i(2, 40); ++i)
        p.push_back(PathPt{st.x + q.uni(-2, 2), st.y + q.uni(-2, 2), q.uni(-3, 3), NAN});
      break;
    case 4:  // straight, sparse or dense
    {
      const double stp = q.logu(1e-4, 3);
      for (int i = 0; i < q.i(2, 60); ++i)
        p.push_back(PathPt{st.x + i * stp * std::cos(st.th), st.y + i * stp * std::sin(st.th), st.th + (q.p(0.1) ? M_PI : 0), NAN});
      break;
    }
    default:
    {
      PathBuilder b(st, q.pick({0.02, 0.1, 0.5}));
      for (int j = 0; j < q.i(1, 4); ++j)
      {
        if (q.p(0.3))
          b.cusp();
        if (q.p(0.3))
          b.spin(q.uni(-3, 3));
        b.move(q.uni(0.1, 3), q.p(0.4) ? 0 : q.uni(-3, 3));
      }
      p = b.p;
    }
  }
  if (q.p(0.06) && !p.empty())
    p[static_cast<size_t>(q.i(0, static_cast<int64_t>(p.size()) - 1))].x = q.p(0.5) ? NAN : INFINITY;
  return p;
}
void chaosT(Run& r)
{
  auto* k = new Trk(r);
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  k->use_odom = g.p(0.5);
  s.setParam("/neonavigation_compatible", 1);
  setParams(*k, g, false);
  const std::string pn = std::string(TN) + "/";
  if (g.p(0.3))
    s.setParam(pn + "limit_vel_by_avel", true);
  if (g.p(0.3))
    s.setParam(pn + "allow_backward", false);
  if (g.p(0.3))
    s.setParam(pn + "use_time_optimal_control", false);
  if (g.p(0.3))
    s.setParam(pn + "check_old_path", true);
  if (g.p(0.3))
    s.setParam(pn + "gain_at_vel", g.uni(0, 1));
  int step = 1;
  if (g.p(0.3))
    s.setParam(pn + "path_step", k->pr.step = step = static_cast<int>(g.i(1, 5)));
  r.note("path_step", step);
  const ns_t T = s.t_start;
  k->robot = Pose2(g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3));
  k->drift = Pose2(g.uni(-2, 2), g.uni(-2, 2), g.uni(-3, 3));
  startRobot(k, g, g.pick({0.01, 0.02, 0.05, 0.08}), g.p(0.3) ? sec(g.uni(0, 0.1)) : 0);
  k->attach("");
  k->node = s.spawn(TN, trajectory_tracker_main);
  keepServing(r, k->node);
  Rng o = r.rng("ops");
  const ns_t chaos = T + sec(o.uni(5, 20)), end = chaos + 3 * SEC;
  auto pp = s.pub<nav_msgs::Path>("/path");
  auto pv = s.pub<trajectory_tracker_msgs::PathWithVelocity>("/path_velocity");
  auto ps = s.pub<std_msgs::Float32>("/speed");
  auto odp = s.pub<nav_msgs::Odometry>("/odom");
  const int n = static_cast<int>(o.i(2, 14));
  for (int i = 0; i < n; ++i)
  {
    const ns_t t = T + sec(o.uni(0.2, (chaos - T) * 1e-9));
    const int kind = static_cast<int>(o.i(0, 13));
    const std::string key = "op" + std::to_string(i);
    if (kind <= 7)
      r.op(t, strf("path %d", i), [=, &s, &r] {
        Rng q(r.seed, key);
        const std::string fr = q.p(0.75) ? "map" : q.p(0.6) ? "odom" : q.p(0.5) ? "" : "nowhere";
        auto p = junkPath(q, fr == "odom" ? k->drift.inv() * k->robot : k->robot);
        if (q.p(0.35))
        {
          for (auto& pt : p)
            pt.vel = q.p(0.1) ? NAN : q.uni(0, 1.2);
          if (q.p(0.1) && !p.empty())
            p[static_cast<size_t>(q.i(0, static_cast<int64_t>(p.size()) - 1))].vel = -0.3;
          pv(pathVelMsg(p, fr, s.now));
        }
        else
          pp(pathMsg(p, fr, s.now));
      });
    else if (kind == 8)
      r.op(t, "speed", [=, &r] {
        Rng q(r.seed, key);
        std_msgs::Float32 m;
        m.data = static_cast<float>(q.p(0.3) ? 0 : q.uni(0, 1.2));
        ps(m);
      });
    else if (kind == 9)
      r.op(t, "robot moved away", [=, &r] {
        Rng q(r.seed, key);
        k->robot = k->robot * Pose2(q.uni(-5, 5), q.uni(-5, 5), q.uni(-3, 3));
      });
    else if (kind == 10)
      r.op(t, "localization jump", [=, &r] {
        Rng q(r.seed, key);
        k->drift = Pose2(q.uni(-4, 4), q.uni(-4, 4), q.uni(-3, 3)) * k->drift;
      });
    else if (kind == 11 || kind == 12)
      r.op(t, "parameters", [=, &s, &r] {
        Rng q(r.seed, key);
        std::map<std::string, std::string> v;
        Params p = k->reconf.empty() ? k->pr : k->reconf.back();
        auto set = [&](const char* n2, double& x, double nv) {
          if (q.p(0.5))
          {
            x = nv;
            v[n2] = strf("%.9g", nv);
          }
        };
        set("max_vel", p.max_vel, q.uni(0, 1.2));
        set("max_angvel", p.max_w, q.uni(0.1, 2));
        set("max_acc", p.acc, q.uni(0.1, 2));
        set("max_angacc", p.aacc, q.uni(0.1, 4));
        set("dist_stop", p.d_stop, q.uni(0.3, 3));
        set("look_forward", p.look, q.uni(0, 1));
        if (q.p(0.4))
          v["path_step"] = std::to_string(p.step = static_cast<int>(q.i(1, 5)));
        if (!k->node->reconf.empty() && k->node->fiber)
        {
          s.reconfigure(TN, v);
          k->reconf.push_back(p);
        }
      });
    else
    {
      const double off = o.p(0.5) ? o.uni(-20, 20) : o.uni(-0.3, 0.3);
      r.faultAt("odom_stamp", strf("%+.2f s", off), t, [=, &s] {
        const Pose2 ob = k->drift.inv() * k->robot;
        nav_msgs::Odometry m;
        m.header.frame_id = "odom";
        m.child_frame_id = "base_link";
        m.header.stamp = rosTime(s.now + sec(off));
        m.pose.pose.position.x = ob.x;
        m.pose.pose.position.y = ob.y;
        m.pose.pose.orientation = quatYaw(ob.th);
        m.twist.twist.linear.x = k->rv;
        m.twist.twist.angular.z = k->rw;
        odp(m);
      });
    }
  }
  // odometry silence is detected
  s.every(T, 10 * MS, [=, &s, &r] {
    if (!k->use_odom || k->odom_to == 0 || !k->has_od || !k->node->fiber)
      return;
    if (k->node->busy_until > s.now - 20 * MS)
      k->last_busy = s.now;
    const ns_t since = std::max(k->od_exec, k->last_busy);
    if (s.now - since > sec(k->odom_to) + 110 * MS)
      r.expect(k->pv == 0 && k->pw == 0, "P06", "odometry-timeout-ignored",
               [&] { return strf("velocity (%.3f, %.3f) is in effect %.3f s after the last odometry, timeout %.3f", k->pv, k->pw, (s.now - k->od_exec) * 1e-9, k->odom_to); });
  });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/tf>", "/odom>", "/odom>", ">" + std::string(TN), "path"};
    mix.max_delay = 0.6;
    mix.max_partition = 2.0;
    netFaults(r, mix, T, chaos, 6);
    stallFaults(r, {TN}, T, chaos, 2, 1.0);
    if (g.p(0.15))
    {
      const double j = g.uni(-15, 15);
      r.faultAt("clock_jump", strf("%+.1f s", j), T + sec(g.uni(1, 8)), [=, &s] {
        k->node->clock_off += sec(j);
        if (j < 0)
          k->last_busy = s.now + sec(-j);  // timers of the node wait for its clock
      });
    }
  }
  s.run(end);
  r.nontrivial = r.nontrivial || k->n_follow > 20;
  s.probe("tracker.cycles", k->n_ctrl);
  s.probe("tracker.goal", k->n_goal);
  s.probe("tracker.far", k->n_far);
  s.probe("tracker.no_path", k->n_nopath);
  s.probe("tracker.following", k->n_follow);
  s.probe("tracker.odom_timeouts", k->n_timeout);
  s.state(mix64(k->n_follow * 31 + k->n_far * 17 + k->n_goal));
}

// ---------------------------------------------------------------------------------------------
// P08: a path on the topic -> trajectory_saver -> file -> trajectory_server -> path on the topic
std::string slurp(const std::string& f, bool& ok)
{
  Node* const cur = Sim::g->cur;  // the oracle reads it, not a node
  Sim::g->cur = nullptr;
  std::string b;
  {
    std::ifstream i(f.c_str(), std::ios::binary);
    struct stat st;
    ok = stat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode) && static_cast<bool>(i);
    if (ok)
      b.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
  }
  Sim::g->cur = cur;
  return b;
}
std::string bytesOf(const nav_msgs::Path& m)
{
  const uint32_t n = ros::serialization::serializationLength(m);
  std::string b(n, 0);
  ros::serialization::OStream s(reinterpret_cast<uint8_t*>(&b[0]), n);
  ros::serialization::serialize(s, m);
  return b;
}
bool parse(const std::string& b, nav_msgs::Path& m)
{
  try
  {
    std::string c = b;
    ros::serialization::IStream s(reinterpret_cast<uint8_t*>(&c[0]), static_cast<uint32_t>(c.size()));
    ros::serialization::deserialize(s, m);
    return true;
  }
  catch (const std::exception&)
  {
    return false;
  }
}
bool samePath(const nav_msgs::Path& a, const nav_msgs::Path& b)
{
  nav_msgs::Path x = a, y = b;
  x.header.stamp = y.header.stamp = ros::Time();
  x.header.seq = y.header.seq = 0;
  return bytesOf(x) == bytesOf(y);
}
nav_msgs::Path randomPath(Rng& q, ns_t stamp, bool with_empty)
{
  nav_msgs::Path m;
  m.header.frame_id = q.p(0.7) ? "map" : std::string(static_cast<size_t>(q.i(0, 40)), 'f');
  m.header.stamp = rosTime(stamp);
  const int n = q.p(0.1) && with_empty ? 0 : static_cast<int>(q.p(0.15) ? q.i(200, 2500) : q.i(1, 60));
  for (int i = 0; i < n; ++i)
  {
    geometry_msgs::PoseStamped s;
    s.header.frame_id = m.header.frame_id;
    s.header.seq = static_cast<uint32_t>(i);
    if (q.p(0.5))
      s.header.stamp = rosTime(stamp + i * MS);
    s.pose.position.x = q.uni(-50, 50);
    s.pose.position.y = q.uni(-50, 50);
    s.pose.position.z = q.uni(-1, 1);
    s.pose.orientation = quatYaw(q.uni(-3, 3));
    m.poses.push_back(s);
  }
  return m;
}
struct Stored
{
  Run& r;
  Sim& s;
  struct Saver
  {
    Node* n = nullptr;
    std::string file;
    std::vector<std::string> offered;  // serialised paths it received
    bool judged = false, fault = false;
    bool killed = false;
    uint64_t touched = 0;  // changes of the file when it was opened
  };
  std::map<std::string, uint64_t> touch;  // file -> times opened for writing or tampered with
  std::map<std::string, std::shared_ptr<Saver>> savers;
  // server
  nav_msgs::Path ref;      // what the server holds
  std::string ref_file;
  bool loaded = false, in_change = false, io_fault = false;
  bool file_ok = false;
  nav_msgs::Path file_path;
  std::vector<nav_msgs::Path> pubs;
  double filter = 0;
  Node* server = nullptr;
  uint32_t ref_id = 0;
  int n_saved = 0, n_ok = 0, n_fail = 0, n_fb = 0;
  struct IoFault
  {
    std::string file;
    int kind, err;
    int64_t off;
    bool crash;
    bool armed = false, sticky = false;
  };
  std::vector<IoFault> iof;
  std::deque<trajectory_tracker_msgs::ChangePath::Request> req;
  explicit Stored(Run& rr) : r(rr), s(rr.sim) {}
  IoAct hook(const IoOp& o)
  {
    IoAct a;
    if (o.kind == IoOp::OPEN && o.mode.find('w') != std::string::npos)
    {
      ++touch[o.path];
      auto it = savers.find(o.node->name);
      if (it != savers.end())
        it->second->touched = touch[o.path];
    }
    for (auto& f : iof)
    {
      if (!f.armed || f.file != o.path || f.kind != static_cast<int>(o.kind))
        continue;
      if (o.kind == IoOp::WRITE || o.kind == IoOp::READ)
      {
        if (static_cast<int64_t>(o.off) + static_cast<int64_t>(o.len) <= f.off)
          continue;
        const size_t room = f.off > static_cast<int64_t>(o.off) ? static_cast<size_t>(f.off - static_cast<int64_t>(o.off)) : 0;
        if (room)
          a.len = room;  // partial transfer up to the point of the fault, which comes with the next operation
        else
          a.err = f.err;
        if (f.crash)
          a.err = 0, a.len = room ? room : 0, a.crash = true;
      }
      else
      {
        a.err = f.err;
        a.crash = f.crash;
      }
      if ((!f.sticky && !(a.len != SIZE_MAX && !f.crash)) || a.crash)
        f.armed = false;
      auto it = savers.find(o.node->name);
      if (it != savers.end())
        it->second->fault = true;
      if (o.node == server)
        io_fault = true;
      break;
    }
    return a;
  }
  // a path node published: identical to the reference (x, y up to the filter)
  bool matches(const nav_msgs::Path& m, const nav_msgs::Path& e, std::string& why) const
  {
    if (filter <= 0)
    {
      if (samePath(m, e))
        return true;
      why = strf("%zu poses published, %zu expected", m.poses.size(), e.poses.size());
      return false;
    }
    nav_msgs::Path x = m, y = e;
    if (x.poses.size() != y.poses.size())
    {
      why = "number of poses";
      return false;
    }
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
    for (size_t i = 0; i < x.poses.size(); ++i)
    {
      const double in[2] = {y.poses[i].pose.position.x, y.poses[i].pose.position.y}, out[2] = {x.poses[i].pose.position.x, x.poses[i].pose.position.y};
      for (int j = 0; j < 2; ++j)
      {
        lo[j] = std::min(lo[j], in[j]);
        hi[j] = std::max(hi[j], in[j]);
        const double mg = 1e-3 * (1 + std::abs(hi[j]) + std::abs(lo[j]));
        if (!(out[j] >= lo[j] - mg && out[j] <= hi[j] + mg) || (i == 0 && std::abs(out[j] - in[j]) > mg))
        {
          why = strf("filtered pose %zu: %g from %g, range %g..%g", i, out[j], in[j], lo[j], hi[j]);
          return false;
        }
      }
      x.poses[i].pose.position = y.poses[i].pose.position;
    }
    if (!samePath(x, y))
    {
      why = "something else than x and y changed by the filter";
      return false;
    }
    return true;
  }
  void startServer(const std::string& topic)
  {
    s.tap<nav_msgs::Path>(topic, [this](const nav_msgs::Path& m, Node* n) {
      if (n == server)
        pubs.push_back(m);
    });
    s.tap<trajectory_tracker_msgs::TrajectoryServerStatus>("/trajectory_server/status", [this](const trajectory_tracker_msgs::TrajectoryServerStatus& m, Node* n) {
      if (n != server || in_change || ref_file == "?")
        return;
      r.expect(m.filename == ref_file && m.id == ref_id, "P08", "status-of-other-file", [&] { return strf("status says file '%s' id %u, '%s' id %u was loaded", m.filename.c_str(), m.id, ref_file.c_str(), ref_id); });
    });
    s.cb_hooks.push_back([this](Node* k, const std::string& l, bool begin) {
      if (k != server)
        return;
      if (begin)
      {
        pubs.clear();
        if (l.rfind("srv:", 0) == 0)
        {
          in_change = true;
          io_fault = false;
          bool ok;
          const std::string f = req.empty() ? "" : req.front().filename;
          const std::string b = slurp(f, ok);
          file_ok = ok && parse(b, file_path);
        }
      }
      else if (l.rfind("srv:", 0) != 0 && l.find("feedback") == std::string::npos)
        r.expect(pubs.empty(), "P08", "path-from-nowhere", [&] { return "path published from " + l; });
    });
    server = s.spawn("/trajectory_server", trajectory_server_main);
    keepServing(r, server);
  }
  // answer of change_path, at the end of its callback
  void answered(const trajectory_tracker_msgs::ChangePath::Request& rq, bool ok, const trajectory_tracker_msgs::ChangePath::Response& rs)
  {
    in_change = false;
    const bool success = ok && rs.success;
    // an injected read error may be hidden by the buffering of the stream; a success must still be the stored path
    if (!file_ok)
      r.expect(!success, "P08", "success-without-file", [&] { return strf("change_path to '%s' succeeded although it is missing or incomplete (read fault %d)", rq.filename.c_str(), io_fault); });
    else if (!io_fault)
      r.expect(success, "P08", "complete-file-refused", [&] { return strf("change_path to '%s' failed although it holds a complete path of %zu poses", rq.filename.c_str(), file_path.poses.size()); });
    if (r.failed)
      return;
    if (success)
    {
      ++n_ok;
      r.nontrivial = true;
      std::string why;
      r.expect(pubs.size() == 1, "P08", "path-not-published", [&] { return strf("%zu paths published after loading", pubs.size()); });
      if (r.failed || pubs.empty())
        return;
      r.expect(matches(pubs[0], file_path, why), "P08", "published-other-path", [&] { return strf("path published after loading '%s' differs from the file (%s; read fault %d)", rq.filename.c_str(), why.c_str(), io_fault); });
      ref = pubs[0];
      loaded = true;
      ref_file = rq.filename;
      ref_id = rq.id;
    }
    else
    {
      ++n_fail;
      r.nontrivial = true;
      r.expect(pubs.empty(), "P08", "published-after-failure", [&] { return strf("a path of %zu poses was published although loading '%s' failed", pubs.back().poses.size(), rq.filename.c_str()); });
      loaded = false;
      ref = nav_msgs::Path();
      ref_file = "";
      ref_id = rq.id;
    }
  }
  void feedback(const visualization_msgs::InteractiveMarkerFeedback& f)
  {
    typedef visualization_msgs::InteractiveMarkerFeedback FB;
    const int id = std::atoi(f.marker_name.c_str());
    const size_t n = ref.poses.size();
    const bool known = loaded && id >= 0 && static_cast<size_t>(id) < n;
    bool out = false;
    if (known)
    {
      ++n_fb;
      if (f.event_type == FB::POSE_UPDATE)
        ref.poses[static_cast<size_t>(id)].pose = f.pose;
      else if (f.event_type == FB::MOUSE_UP)
        out = true;
      else if (f.event_type == FB::MENU_SELECT)
      {
        if (f.menu_entry_id == 1)
          ref.poses.erase(ref.poses.begin() + id);
        else if (f.menu_entry_id == 2)
          ref.poses.insert(ref.poses.begin() + id, ref.poses[static_cast<size_t>(id)]);
        out = true;
      }
    }
    r.expect(pubs.size() == (out ? 1u : 0u), "P08", "edit-not-published", [&] { return strf("%zu paths published for an edit of pose %d of %zu", pubs.size(), id, n); });
    if (!r.failed && out && pubs.size() == 1)
      r.expect(samePath(pubs[0], ref), "P08", "edited-path-differs", [&] { return strf("path after an edit of pose %d has %zu poses, %zu expected, or differs", id, pubs[0].poses.size(), ref.poses.size()); });
  }
  void checkSaver(Saver& v)
  {
    if (v.judged || !v.n || !v.n->done)
      return;
    v.judged = true;
    if (v.killed || v.n->crashed || touch[v.file] != v.touched)
      return;  // or somebody else changed the file since
    bool ok;
    const std::string b = slurp(v.file, ok);
    ++n_saved;
    r.nontrivial = true;
    r.expect(ok && !v.offered.empty() && std::find(v.offered.begin(), v.offered.end(), b) != v.offered.end(), "P08", "saved-file-incomplete",
             [&] { return strf("%s finished but %s holds %zu bytes, %s (I/O fault %d)", v.n->name.c_str(), v.file.c_str(), b.size(), v.offered.empty() ? "no path was received" : strf("the path has %zu", v.offered.back().size()).c_str(), v.fault); });
  }
};
void files(Run& r)
{
  auto* k = new Stored(r);
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const ns_t T = s.t_start;
  const bool compat = g.p(0.2);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  if (g.p(0.25))
    s.setParam("/trajectory_server/filter_step", k->filter = g.uni(0.5, 5));
  s.setParam("/trajectory_server/hz", g.pick({2.0, 5.0, 20.0}));
  if (compat)
    s.setParam("/trajectory_server/path", "/path");
  std::string in = "/path_in";
  io_hook = [k](const IoOp& o) { return k->hook(o); };
  auto pp = s.pub<nav_msgs::Path>(in, true);
  Rng o = r.rng("ops");
  const ns_t end = T + sec(o.uni(12, 30));
  auto when = [&] { return T + sec(o.uni(0.3, (end - T) * 1e-9 - 3)); };
  const int nf = static_cast<int>(o.i(1, 3));
  auto file = [nf](Rng& q) { return strf("f%d.path", static_cast<int>(q.i(0, nf - 1))); };
  // the server; an initial file name is reported but nothing is loaded
  k->ref_file = "a.path";
  k->startServer("/path");
  for (int i = 0; i < static_cast<int>(o.i(1, 4)); ++i)
  {
    const std::string key = "pub" + std::to_string(i);
    r.op(i == 0 ? T + 100 * MS : when(), "path on the topic", [=, &r, &s] {
      Rng q(r.seed, key);
      pp(randomPath(q, s.now, true));
    });
  }
  const int ns = static_cast<int>(o.i(1, 4));
  for (int i = 0; i < ns; ++i)
  {
    const std::string f = file(o), nn = strf("/saver%d", i);
    const ns_t t = i == 0 ? T + sec(o.uni(0, 2)) : when();
    r.op(t, strf("saver %d to %s", i, f.c_str()), [=, &s] {
      auto v = std::make_shared<Stored::Saver>();
      v->file = f;
      k->savers[nn] = v;
      s.setParam(nn + "/file", f);
      if (compat)
        s.setParam(nn + "/path", in);
      s.onExec<nav_msgs::Path>(nn, in, [v](const nav_msgs::Path& m, Node*) { v->offered.push_back(bytesOf(m)); });
      v->n = s.spawn(nn, trajectory_saver_main, compat ? std::map<std::string, std::string>() : std::map<std::string, std::string>{{"/path", in}});
    });
  }
  const int nc = static_cast<int>(o.i(2, 8));
  for (int i = 0; i < nc; ++i)
  {
    const std::string f = o.p(0.1) ? "missing.path" : o.p(0.05) ? "." : file(o);
    r.op(i < 2 ? T + sec(o.uni(2, 5)) : when(), "change_path " + f, [=, &s] {
      if (!k->req.empty())
        return;  // one call at a time
      trajectory_tracker_msgs::ChangePath::Request q;
      q.filename = f;
      q.id = static_cast<uint32_t>(i + 1);
      k->req.push_back(q);
      s.call<trajectory_tracker_msgs::ChangePath>(compat ? "/trajectory_server/ChangePath" : "/change_path", q, [=](bool, bool, const trajectory_tracker_msgs::ChangePath::Response&) { k->req.clear(); });
    });
  }
  s.onService<trajectory_tracker_msgs::ChangePath>(compat ? "/trajectory_server/ChangePath" : "/change_path",
                                                   [k](const trajectory_tracker_msgs::ChangePath::Request& q, const trajectory_tracker_msgs::ChangePath::Response& a, bool ok, Node*) { k->answered(q, ok, a); });
  auto fb = s.pub<visualization_msgs::InteractiveMarkerFeedback>("/trajectory_server/feedback");
  auto last_fb = std::make_shared<visualization_msgs::InteractiveMarkerFeedback>();
  s.onExec<visualization_msgs::InteractiveMarkerFeedback>("/trajectory_server", "/trajectory_server/feedback", [last_fb](const visualization_msgs::InteractiveMarkerFeedback& m, Node*) { *last_fb = m; });
  s.cb_hooks.push_back([k, last_fb](Node* n, const std::string& l, bool begin) {
    if (n == k->server && !begin && l.find("feedback") != std::string::npos)
      k->feedback(*last_fb);
  });
  for (int i = 0; i < static_cast<int>(o.i(0, 12)); ++i)
  {
    const std::string key = "fb" + std::to_string(i);
    r.op(when(), "marker feedback", [=, &r] {
      typedef visualization_msgs::InteractiveMarkerFeedback FB;
      Rng q(r.seed, key);
      FB f;
      f.client_id = "rviz";
      const int n = static_cast<int>(k->ref.poses.size());
      f.marker_name = std::to_string(n && q.p(0.8) ? (q.p(0.3) ? n - 1 : q.i(0, n - 1)) : q.i(0, 80));
      const int e = static_cast<int>(q.i(0, 3));
      f.event_type = e == 0 ? FB::POSE_UPDATE : e == 1 ? FB::MOUSE_UP : FB::MENU_SELECT;
      f.menu_entry_id = e == 2 ? 1 : 2;
      f.pose.position.x = q.uni(-10, 10);
      f.pose.orientation.w = 1;
      fb(f);
    });
  }
  Rng d = r.rng("disk");
  const int nd = static_cast<int>(d.i(0, 4));
  for (int i = 0; i < nd; ++i)
  {
    Stored::IoFault f;
    f.file = file(d);
    const int kind = static_cast<int>(d.i(0, 6));
    f.kind = kind <= 2 ? IoOp::WRITE : kind <= 4 ? IoOp::READ : kind == 5 ? IoOp::OPEN : IoOp::CLOSE;
    f.err = f.kind == IoOp::OPEN ? d.pick({EACCES, ENOSPC, EMFILE}) : f.kind == IoOp::READ ? EIO : d.pick({ENOSPC, EIO});
    f.off = d.p(0.3) ? 0 : static_cast<int64_t>(d.logu(1, 200000));
    f.crash = f.kind == IoOp::WRITE && d.p(0.35);
    f.sticky = !f.crash && d.p(0.4);
    const size_t id = k->iof.size();
    k->iof.push_back(f);
    const ns_t t = T + sec(d.uni(0, (end - T) * 1e-9 - 5));
    r.faultAt("disk", strf("%s %s errno %d at %lld%s%s", f.kind == IoOp::WRITE ? "write" : f.kind == IoOp::READ ? "read" : f.kind == IoOp::OPEN ? "open" : "close", f.file.c_str(), f.err, static_cast<long long>(f.off), f.crash ? " crash" : "", f.sticky ? " persistent" : ""),
              t, [k, id] { k->iof[id].armed = true; });
    if (f.sticky)
      s.at(t + sec(d.uni(0.5, 4)), [k, id] { k->iof[id].armed = false; });
  }
  // stored files torn or lost by other means
  const int nt = static_cast<int>(d.i(0, 3));
  for (int i = 0; i < nt; ++i)
  {
    const std::string f = file(d), key = "tear" + std::to_string(i);
    const int kind = static_cast<int>(d.i(0, 4));
    const char* const kn[] = {"truncated", "truncated", "removed", "emptied", "length overwritten"};
    r.faultAt("file", f + " " + kn[kind], T + sec(d.uni(2, (end - T) * 1e-9 - 3)), [=, &s, &r] {
      Rng q(r.seed, key);
      struct stat st;
      if (stat(f.c_str(), &st) != 0)
        return;
      ++k->touch[f];
      s.countFault(std::string("file_") + (kind <= 1 ? "truncated" : kind == 2 ? "removed" : kind == 3 ? "emptied" : "corrupted"));
      if (kind <= 1)
        (void)!truncate(f.c_str(), q.i(0, std::max<int64_t>(0, st.st_size - 1)));
      else if (kind == 2)
        unlink(f.c_str());
      else if (kind == 3)
        (void)!truncate(f.c_str(), 0);
      else if (st.st_size >= 20)
      {
        bool ok;
        std::string b = slurp(f, ok);
        uint32_t fl;
        memcpy(&fl, &b[12], 4);
        const size_t at = q.p(0.5) ? 12 : 16 + fl;  // length of the frame name or number of poses
        if (at + 4 <= b.size())
        {
          const uint32_t v = q.pick({0xffffffffu, 0x7fffffffu, 0x40000000u});
          memcpy(&b[at], &v, 4);
          std::ofstream(f.c_str(), std::ios::binary) << b;
        }
      }
    });
  }
  Rng sf = r.rng("kill");
  if (sf.p(0.3))
    r.faultAt("crash", "a saver", T + sec(sf.uni(0.3, 6)), [=, &s] {
      for (auto& v : k->savers)
        if (v.second->n && !v.second->n->done && v.second->n->fiber)
        {
          v.second->killed = true;
          s.kill(v.second->n);
          break;
        }
    });
  if (r.faults)
    stallFaults(r, {"trajectory_server", "saver"}, T, end - 4 * SEC, 2, 1.0);
  s.every(T, 20 * MS, [k] {
    for (auto& v : k->savers)
      k->checkSaver(*v.second);
  });
  // without faults, a saver which received a path finishes
  s.run(end);
  for (auto& v : k->savers)
    if (!v.second->offered.empty() && !v.second->killed && !v.second->fault)
      r.expect(v.second->n->done, "P08", "not-saved", [&] { return strf("%s received a path and no I/O fault happened but it did not finish", v.first.c_str()); });
  io_hook = nullptr;
  s.probe("files.saved", k->n_saved);
  s.probe("files.loaded", k->n_ok);
  s.probe("files.refused", k->n_fail);
  s.probe("files.edits", k->n_fb);
  s.state(mix64(k->n_saved * 1000 + k->n_ok * 100 + k->n_fail * 10 + k->n_fb));
}
// ---------------------------------------------------------------------------------------------
// P09: trajectory_recorder against the transforms it received
struct Rec
{
  Run& r;
  Sim& s;
  struct Smp
  {
    ns_t t;
    double x, y, z, th;
  };
  std::vector<Smp> c[2];  // map -> odom, odom -> base_link, by stamp
  bool stat_mo = false;   // map -> odom is static
  struct St
  {
    ns_t from;  // true time since which this was the latest pose
    Smp p;
  };
  std::deque<St> latest;
  uint64_t n_latest = 0, used = 0;  // index of the first element; index of the pose last added
  std::vector<geometry_msgs::PoseStamped> ref;
  bool store_time = false, jumps = false;
  double di = 0.3, ai = 1.0;
  Node* node = nullptr;
  ns_t busy_until = 0, away_since = -1, good_since = -1, last_z = 0;
  uint64_t n_pub = 0, n_clear = 0, n_turn = 0, n_outage = 0;
  explicit Rec(Run& rr) : r(rr), s(rr.sim) {}
  static bool look(const std::vector<Smp>& v, ns_t t, Smp& o)
  {
    if (v.empty() || t < v.front().t || t > v.back().t)
      return false;
    size_t hi = 0;
    while (v[hi].t < t)
      ++hi;
    o = v[hi];
    if (v[hi].t == t || hi == 0)
      return true;
    const Smp& a = v[hi - 1];
    const double q = static_cast<double>(t - a.t) / static_cast<double>(v[hi].t - a.t);
    o.t = t;
    o.x = a.x + q * (v[hi].x - a.x);
    o.y = a.y + q * (v[hi].y - a.y);
    o.z = a.z + q * (v[hi].z - a.z);
    o.th = a.th + q * wrap(v[hi].th - a.th);
    return true;
  }
  bool pose(ns_t t, Smp& o) const  // t = 0: the latest common time
  {
    if (c[0].empty() || c[1].empty())
      return false;
    if (t == 0)
      t = stat_mo ? c[1].back().t : std::min(c[0].back().t, c[1].back().t);
    Smp a, b;
    if (stat_mo)
      a = c[0].back();
    else if (!look(c[0], t, a))
      return false;
    if (!look(c[1], t, b))
      return false;
    const Pose2 p = Pose2(a.x, a.y, a.th) * Pose2(b.x, b.y, b.th);
    o = Smp{t, p.x, p.y, a.z + b.z, p.th};
    return true;
  }
  void got(const tf2_msgs::TFMessage& m)
  {
    for (auto& t : m.transforms)
    {
      if (t.child_frame_id != "odom" && t.child_frame_id != "base_link")
        continue;
      auto& v = c[t.child_frame_id == "odom" ? 0 : 1];
      const Smp n{static_cast<ns_t>(t.header.stamp.toNSec()), t.transform.translation.x, t.transform.translation.y, t.transform.translation.z, yawOf(t.transform.rotation)};
      if (!v.empty() && n.t + 10 * SEC < v.back().t)
        continue;
      auto it = std::upper_bound(v.begin(), v.end(), n, [](const Smp& a, const Smp& b) { return a.t < b.t; });
      if (it != v.begin() && std::prev(it)->t == n.t)
        *std::prev(it) = n;
      else
        v.insert(it, n);
      while (v.front().t + 10 * SEC < v.back().t)
        v.erase(v.begin());
    }
    Smp p;
    if (pose(0, p))
      latest.push_back(St{s.now, p});
    while (latest.size() > 2 && latest[1].from < s.now - 5 * SEC)
    {
      latest.pop_front();
      ++n_latest;
    }
  }
  static double dist(const geometry_msgs::Pose& a, const Smp& b) { return std::hypot(a.position.x - b.x, a.position.y - b.y); }
  static double ang(const geometry_msgs::Pose& a, const Smp& b) { return std::abs(wrap(yawOf(a.orientation) - b.th)); }
  void published(const nav_msgs::Path& m)
  {
    ++n_pub;
    r.nontrivial = true;
    r.expect(m.header.frame_id == "map", "P09", "frame", [&] { return "path in frame " + m.header.frame_id; });
    bool prefix = m.poses.size() == ref.size() + 1;
    for (size_t i = 0; prefix && i < ref.size(); ++i)
      prefix = m.poses[i].pose.position.x == ref[i].pose.position.x && m.poses[i].pose.position.y == ref[i].pose.position.y && m.poses[i].pose.position.z == ref[i].pose.position.z &&
               m.poses[i].pose.orientation.z == ref[i].pose.orientation.z && m.poses[i].pose.orientation.w == ref[i].pose.orientation.w && m.poses[i].header.stamp == ref[i].header.stamp;
    r.expect(prefix, "P09", "not-appended", [&] { return strf("path of %zu poses published, the recorded ones are %zu and one is added at a time", m.poses.size(), ref.size()); });
    if (r.failed || m.poses.empty())
      return;
    const auto& a = m.poses.back();
    r.expect(a.header.frame_id == "map", "P09", "frame", [&] { return "pose in frame " + a.header.frame_id; });
    // an actual pose of the robot, not older than the one before
    bool found = false;
    double best = 1e9;
    if (store_time)
    {
      Smp p;
      if (pose(static_cast<ns_t>(a.header.stamp.toNSec()), p))
      {
        best = dist(a.pose, p) + ang(a.pose, p) + std::abs(p.z - a.pose.position.z);
        found = best < 0.05;
      }
      const double age = (s.now + node->clock_off - static_cast<ns_t>(a.header.stamp.toNSec())) * 1e-9;
      r.expect(age > -0.001 && (age < 0.35 || s.now < busy_until), "P09", "stamp", [&] { return strf("pose stamped %.3f s ago", age); });
      if (!ref.empty())
        r.expect(a.header.stamp >= ref.back().header.stamp, "P09", "order", [&] { return std::string("stamp of the pose precedes the one before"); });
    }
    else
      for (size_t i = 0; i < latest.size() && !found; ++i)
      {
        if (n_latest + i < used)
          continue;
        if (i + 1 < latest.size() && latest[i + 1].from < s.now - 500 * MS && s.now >= busy_until)
          continue;  // superseded long ago
        const double e = dist(a.pose, latest[i].p) + ang(a.pose, latest[i].p) + std::abs(latest[i].p.z - a.pose.position.z);
        best = std::min(best, e);
        if (e < 1e-6)
        {
          found = true;
          used = n_latest + i;
        }
      }
    r.expect(found, "P09", "not-a-robot-pose", [&] { return strf("recorded pose (%.4f %.4f %.4f | %.4f) differs from the poses of the robot by %.3g", a.pose.position.x, a.pose.position.y, a.pose.position.z, yawOf(a.pose.orientation), best); });
    if (!ref.empty() && !r.failed)
    {
      const Smp q{0, a.pose.position.x, a.pose.position.y, 0, yawOf(a.pose.orientation)};
      const double d = dist(ref.back().pose, q), t = ang(ref.back().pose, q);
      r.expect(d > di - 1e-4 || t > ai - 1e-4, "P09", "interval", [&] { return strf("pose added after %.4f m and %.4f rad, intervals are %.4f m and %.4f rad", d, t, di, ai); });
      n_turn += d < di - 1e-4;
    }
    ref = m.poses;
    away_since = -1;
  }
  void tick()
  {
    Smp p;
    if (!node || !node->fiber || node->done || s.now < busy_until || !pose(0, p))
    {
      away_since = good_since = -1;
      return;
    }
    // with store_time the transforms at the present must arrive within the time to wait
    const ns_t nn = s.now + node->clock_off;
    if (store_time && (c[1].back().t < nn - 100 * MS || (!stat_mo && c[0].back().t < nn - 100 * MS)))
      good_since = -1;
    else if (good_since < 0)
      good_since = s.now;
    const bool away = ref.empty() || dist(ref.back().pose, p) > di + 1e-3 || ang(ref.back().pose, p) > ai + 1e-3;
    const bool back = !ref.empty() && store_time;
    if (!away)
      away_since = -1;
    else if (away_since < 0)
      away_since = s.now;
    if (away_since >= 0 && good_since >= 0)
      r.expect(s.now - std::max(away_since, good_since) < (back ? 1200 : 400) * MS, "P09", "not-recorded", [&] {
        return ref.empty() ? strf("nothing recorded for %.2f s although the pose is available", (s.now - away_since) * 1e-9) : strf("%.3f m and %.3f rad away from the last recorded pose for %.2f s, intervals are %.3f m and %.3f rad", dist(ref.back().pose, p), ang(ref.back().pose, p), (s.now - away_since) * 1e-9, di, ai);
      });
  }
  void reset()
  {
    ref.clear();
    used = n_latest;
    away_since = good_since = -1;
  }
};
void rec(Run& r)
{
  auto* k = new Rec(r);
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const char* const RN = "/trajectory_recorder";
  const std::string pn = std::string(RN) + "/";
  const bool compat = g.p(0.2);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  if (g.p(0.6))
    s.setParam(pn + "dist_interval", k->di = g.logu(0.05, 2));
  if (g.p(0.6))
    s.setParam(pn + "ang_interval", k->ai = g.uni(0.1, 2.5));
  if (g.p(0.35))
    s.setParam(pn + "store_time", k->store_time = true);
  k->stat_mo = g.p(0.3);
  r.note("dist_interval", k->di);
  r.note("ang_interval", k->ai);
  r.note("store_time", k->store_time);
  const ns_t T = s.t_start;
  const std::string topic = compat ? pn + "recpath" : "/path";
  s.tap<nav_msgs::Path>(topic, [k](const nav_msgs::Path& m, Node* n) {
    if (n == k->node)
      k->published(m);
  });
  auto tf_in = [k](const tf2_msgs::TFMessage& m, Node*) { k->got(m); };
  s.onRecv<tf2_msgs::TFMessage>(RN, "/tf", tf_in);
  s.onRecv<tf2_msgs::TFMessage>(RN, "/tf_static", tf_in);
  s.onService<std_srvs::Empty>(pn + "clear_path", [k](const std_srvs::Empty::Request&, const std_srvs::Empty::Response&, bool, Node*) {
    ++k->n_clear;
    k->ref.clear();
    k->away_since = -1;
  });
  k->node = s.spawn(RN, trajectory_recorder_main);
  keepServing(r, k->node);
  // the robot: random motion; localisation may jump
  struct World
  {
    Pose2 robot, drift;
    double v = 0, w = 0, z = 0, vz = 0;
    bool tf_on = true;
  };
  auto* w = new World;
  w->robot = Pose2(g.uni(-5, 5), g.uni(-5, 5), g.uni(-3, 3));
  w->drift = Pose2(g.uni(-2, 2), g.uni(-2, 2), g.uni(-3, 3));
  s.every(T, 5 * MS, [w] {
    w->robot = w->robot * Pose2(w->v * 0.005, 0, w->w * 0.005);
    w->z += w->vz * 0.005;
  });
  auto* tf = new TfPub(s);
  const double bp = g.pick({0.01, 0.02, 0.05, 0.1}), mp = g.pick({0.02, 0.05, 0.1});
  const ns_t lag = g.p(0.3) ? sec(g.uni(0, 0.05)) : 0;
  s.every(T + sec(g.uni(0, bp)), sec(bp), [=, &s] {
    const auto m = tfMsg("odom", "base_link", s.now, w->drift.inv() * w->robot, w->z);
    if (w->tf_on)
      s.after(lag, [=] { tf->send(m); });
  });
  if (k->stat_mo)
    s.at(T, [=, &s] { tf->sendStatic(tfMsg("map", "odom", s.now, w->drift)); });
  else
    s.every(T + sec(g.uni(0, mp)), sec(mp), [=, &s] { tf->send(tfMsg("map", "odom", s.now, w->drift)); });
  Rng o = r.rng("ops");
  const ns_t chaos = T + sec(o.uni(5, 20)), end = chaos + 4 * SEC;
  const int n = static_cast<int>(o.i(3, 14));
  for (int i = 0; i < n; ++i)
  {
    const double v = o.p(0.2) ? 0 : o.uni(-1, 1.5), wz = o.p(0.3) ? 0 : o.uni(-1.5, 1.5), vz = o.p(0.2) ? o.uni(-0.2, 0.2) : 0;
    r.op(i == 0 ? T : T + sec(o.uni(0, (end - T) * 1e-9)), strf("motion %.2f m/s %.2f rad/s", v, wz), [=] {
      w->v = v;
      w->w = wz;
      w->vz = vz;
    });
  }
  const int nj = k->stat_mo ? 0 : static_cast<int>(o.i(0, 2));
  for (int i = 0; i < nj; ++i)
  {
    const Pose2 d(o.uni(-1, 1), o.uni(-1, 1), o.uni(-1, 1));
    r.op(T + sec(o.uni(1, (end - T) * 1e-9)), "localization jump", [=] {
      const Pose2 ob = w->drift.inv() * w->robot;
      w->drift = w->drift * d;
      w->robot = w->drift * ob;
    });
  }
  const int nc = static_cast<int>(o.i(0, 5));
  for (int i = 0; i < nc; ++i)
    r.op(T + sec(o.uni(0.05, (end - T) * 1e-9 - 2.5)), "clear_path", [=, &s, &r] {
      const ns_t t0 = s.now;
      auto got = std::make_shared<bool>(false);
      auto inc = k->node->incarnation;
      s.call<std_srvs::Empty>(pn + "clear_path", std_srvs::Empty::Request(), [=, &r, &s](bool found, bool ok, const std_srvs::Empty::Response&) {
        *got = true;
        if (found && k->node->incarnation == inc && k->node->fiber)
          r.expect(ok, "P09", "clear-failed", [&] { return std::string("clear_path failed"); });
      });
      s.after(1500 * MS, [=, &r, &s] {
        if (k->node->incarnation == inc && k->node->fiber && k->busy_until < t0)
          r.expect(*got, "P09", "clear-not-served", [&] { return std::string("clear_path was not served within 1.5 s"); });
      });
    });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/tf->", "/tf"};
    mix.max_delay = 0.4;
    mix.max_partition = 3;
    netFaults(r, mix, T, chaos, 6);
    Rng f = r.rng("extra");
    if (f.p(0.4))
    {
      const ns_t t = T + sec(f.uni(0, 8)), d = sec(f.logu(0.3, 5));
      r.faultAt("tf_outage", strf("%.2f s", d * 1e-9), t, [=, &s] {
        w->tf_on = false;
        ++k->n_outage;
        s.after(d, [=] { w->tf_on = true; });
      });
    }
    const int nst = static_cast<int>(f.i(0, 2));
    for (int i = 0; i < nst; ++i)
    {
      const double d = f.logu(0.01, 1.5);
      r.faultAt("stall", strf("%.3f s", d), T + sec(f.uni(0.2, (chaos - T) * 1e-9)), [=, &s] {
        s.stall(k->node, sec(d));
        k->busy_until = std::max(k->busy_until, s.now + sec(d) + 500 * MS);
      });
    }
    if (f.p(0.2))
      r.faultAt("crash", RN, T + sec(f.uni(1, (chaos - T) * 1e-9)), [=, &s] {
        s.kill(k->node);
        k->busy_until = s.now + SEC;
        s.after(300 * MS, [=, &s] {
          k->c[0].clear();
          k->c[1].clear();
          k->n_latest += k->latest.size();
          k->latest.clear();
          k->reset();
          s.restart(k->node);
        });
      });
    if (!k->store_time && f.p(0.2))
    {
      const double j = f.uni(-5, 5);
      r.faultAt("clock_jump", strf("%+.2f s", j), T + sec(f.uni(1, (chaos - T) * 1e-9)), [=, &s] {
        k->node->clock_off += sec(j);
        // a sleep of the node under way ends by its clock
        k->busy_until = std::max(k->busy_until, s.now + 500 * MS + (j < 0 ? sec(-j) : 0));
      });
    }
  }
  s.every(T + 20 * MS, 20 * MS, [k] { k->tick(); });
  s.run(end);
  s.probe("rec.paths", k->n_pub);
  s.probe("rec.clears", k->n_clear);
  s.probe("rec.turns", k->n_turn);
  s.probe("rec.outages", k->n_outage);
  s.state(mix64(k->n_pub * 100 + k->n_clear * 10 + k->n_turn));
}
struct Init
{
  Init()
  {
    harness().real = "trajectory_tracker, trajectory_saver, trajectory_server and trajectory_recorder nodes";
    harness().stub = "roscpp, tf2, dynamic_reconfigure, interactive_markers replaced by simros; robot, localization and file system faults simulated (files are real, in a scratch directory)";
  }
} init_;
Register r1("follow", {{"P07", 1.0}, {"P06", 0.3}}, follow);
Register r3("files", {{"P08", 1.0}}, files);
Register r4("rec", {{"P09", 1.0}}, rec);
Register r2("chaos", {{"P06", 1.0}, {"P07", 0.7}}, chaosT);
}  // namespace
