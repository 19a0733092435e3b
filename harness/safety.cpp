// safety_limiter under the simulator: P01 (stale inputs), P02 (collision), P03 (scaling, maxima, disable, hold).
#include <world.h>
#include <geometry_msgs/Twist.h>
#include <safety_limiter_msgs/SafetyLimiterStatus.h>
#include <sensor_msgs/PointCloud.h>
#include <std_msgs/Bool.h>
#include <std_msgs/Empty.h>
#include <optional>
using namespace sim;
using namespace world;

int safety_limiter_main(int, char**);

namespace
{
struct Cfg
{
  double freq, cloud_timeout, disable_timeout, lin_vel, lin_acc, ang_vel, ang_acc, zmin, zmax, dt, d_margin, d_escape, yaw_margin, yaw_escape, grid, hold, max_lin, max_ang, watchdog;
  bool allow_empty;
  int clouds;
  std::vector<std::pair<double, double>> fp;
  double fp_r = 0;
  double latency() const { return 1.0 / freq0 + dt; }
  double freq0;  // timer frequency is fixed at startup
  double tmax() const { return 1.5 * std::max(lin_vel / lin_acc, ang_vel / ang_acc) + std::max(d_margin / lin_vel, yaw_margin / ang_vel); }
  double holdEff() const { return std::max(hold, 1.0 / freq); }
};
struct Tw
{
  double x = 0, y = 0, w = 0;
  double lin() const { return std::hypot(x, y); }
  bool zero() const { return x == 0 && y == 0 && w == 0; }
  bool operator==(const Tw& o) const { return x == o.x && y == o.y && w == o.w; }
  std::string str() const { return strf("(%.4f %.4f %.4f)", x, y, w); }
};
Tw tw(const geometry_msgs::Twist& m) { Tw t; t.x = m.linear.x; t.y = m.linear.y; t.w = m.angular.z; return t; }
geometry_msgs::Twist tm(const Tw& t) { geometry_msgs::Twist m; m.linear.x = t.x; m.linear.y = t.y; m.angular.z = t.w; return m; }

// signed distance to the polygon border, positive inside
double depth(const std::vector<std::pair<double, double>>& f, double x, double y)
{
  bool in = false;
  double d = 1e9;
  for (size_t i = 0; i < f.size(); ++i)
  {
    const auto &a = f[i], &b = f[(i + 1) % f.size()];
    if ((a.second <= y) != (b.second <= y))
    {
      const double lx = a.first + (b.first - a.first) * (y - a.second) / (b.second - a.second);
      if (x < lx)
        in = !in;
    }
    const double ex = b.first - a.first, ey = b.second - a.second, L2 = ex * ex + ey * ey;
    double t = L2 > 0 ? ((x - a.first) * ex + (y - a.second) * ey) / L2 : 0;
    t = std::min(1.0, std::max(0.0, t));
    d = std::min(d, std::hypot(x - a.first - t * ex, y - a.second - t * ey));
  }
  return in ? d : -d;
}
// robot pose after moving with a constant twist for t
Pose2 arc(const Tw& u, double t)
{
  const double a = u.w * t;
  double s, c;
  if (std::abs(a) < 1e-6)
  {
    s = t;
    c = 0.5 * u.w * t * t;
  }
  else
  {
    s = std::sin(a) / u.w;
    c = (1 - std::cos(a)) / u.w;
  }
  return Pose2(u.x * s - u.y * c, u.x * c + u.y * s, a);
}

struct World
{
  Run& r;
  Sim& s;
  Cfg c;
  Node* n = nullptr;
  TfPub tf;
  std::vector<std::function<void(const sensor_msgs::PointCloud2&)>> pub_cloud;
  std::function<void(const geometry_msgs::Twist&)> pub_cmd;
  std::function<void(const std_msgs::Bool&)> pub_dis;
  std::function<void(const std_msgs::Empty&)> pub_wd;
  std::vector<Pose2> sensor;      // base -> sensor
  std::vector<double> sensor_z;
  Pose2 pose;                     // true pose in odom
  std::deque<std::pair<ns_t, Pose2>> hist;
  ns_t batch_stamp = 0;           // newest stamp in the batch: the evaluation refers to the robot pose at that time
  Pose2 poseAt(ns_t t) const
  {
    for (size_t i = hist.size(); i-- > 0;)
      if (hist[i].first <= t)
        return hist[i].second;
    return pose;
  }
  std::vector<P3> obs;            // obstacles in odom
  bool geometric = false;         // obstacles, poses and transforms are accurate: evaluate geometry
  double pos_err = 0.03, ang_err = 0.01;

  // --- model, in the order the node processes its inputs
  std::vector<P3> batch;
  bool batch_clear = false, any_cloud = false;
  ns_t last_cloud_exec = 0;
  ns_t newest_stamp = 0, last_stamp = 0;
  bool batch_empty_only = true, eval_invalid = false;
  ns_t eval_t = -1;
  ns_t t_dis = INT64_MIN / 2;
  Tw in, last_in;
  bool have_in = false, in_cb = false;
  int outs_in_cb = 0;
  bool wd_late = false;
  ns_t wd_ref = -1;  // last watchdog reset processed (or start)
  ns_t last_reconf = INT64_MIN / 2;
  double L = 1.0;
  bool have_status = false;
  bool limited_sure = false;
  ns_t limited_t = 0;
  ns_t maybe_until = 0;
  ns_t last_self_zero = 0;
  void maybeLimited(ns_t now) { maybe_limited = true; maybe_until = std::max(maybe_until, now + sec(c.holdEff())); }
  bool maybe_limited = true;
  bool out_in_timer = false, status_in_cb = false, zero_in_timer = false;
  safety_limiter_msgs::SafetyLimiterStatus st;
  std::vector<std::pair<std::string, std::map<std::string, double>>> pend_cfg;
  ns_t quiet_since = 0, last_stall_end = 0;
  ns_t first_tf = -1, last_busy = 0;
  std::set<std::string> static_seen;
  uint64_t n_out = 0, n_nonzero = 0, n_limited = 0, n_zero_forced = 0, n_eval = 0, n_hi = 0, n_lo = 0, n_bypass = 0;
  Tw out;
  ns_t out_t = 0;
  ns_t last_eval_real = -1;

  World(Run& rr) : r(rr), s(rr.sim), tf(rr.sim) {}

  ns_t nowNode() const { return s.now + (s.cur ? s.cur->debt : 0) + n->clock_off; }

  void config()
  {
    Rng g = r.rng("cfg");
    c.freq0 = c.freq = g.pick({4.0, 6.0, 10.0, 15.0, 20.0});
    c.cloud_timeout = g.uni(std::max(0.3, 2.5 / c.freq), 1.6);
    c.disable_timeout = g.pick({0.1, 0.3, 0.5});
    c.lin_vel = g.uni(0.3, 1.5);
    c.lin_acc = g.uni(0.4, 2.5);
    c.ang_vel = g.uni(0.4, 1.8);
    c.ang_acc = g.uni(0.8, 3.5);
    c.zmin = g.pick({0.0, -0.2, 0.1});
    c.zmax = c.zmin + g.uni(0.3, 1.0);
    c.dt = g.pick({0.05, 0.08, 0.1, 0.13});
    c.d_margin = g.uni(0.05, 0.4);
    c.yaw_margin = g.uni(0.05, 0.4);
    c.d_escape = g.pick({0.0, 0.05, 0.15, 0.3});
    c.yaw_escape = g.pick({0.0, 0.05, 0.15, 0.3});
    c.grid = g.pick({0.01, 0.02, 0.05});
    c.hold = g.pick({0.0, 0.0, 0.2, 0.7, 1.5});
    c.allow_empty = g.p(0.4);
    c.max_lin = g.p(0.5) ? 10.0 : g.pick({0.0, 0.2, 0.5, 1.0});
    c.max_ang = g.p(0.5) ? 10.0 : g.pick({0.0, 0.3, 0.8});
    c.watchdog = 0;
    c.clouds = static_cast<int>(g.pick({1, 1, 2, 3}));
    const int k = static_cast<int>(g.i(4, 8));
    const double rx = g.uni(0.15, 0.6), ry = g.uni(0.15, 0.45), ox = g.uni(-0.5, 0.5) * rx, off = g.uni(0, 6.28);
    c.fp.clear();
    for (int i = 0; i < k; ++i)
    {
      const double a = off + 2 * M_PI * i / k;
      c.fp.push_back({ox + rx * std::cos(a), ry * std::sin(a)});
    }
    if (g.p(0.3))
      c.fp = {{rx, -ry}, {rx, ry}, {-rx * 0.6, ry}, {-rx * 0.6, -ry}};
    if (g.p(0.3))
      std::reverse(c.fp.begin(), c.fp.end());
  }
  void start()
  {
    c.fp_r = 0;
    for (auto& p : c.fp)
      c.fp_r = std::max(c.fp_r, std::hypot(p.first, p.second));
    auto P = [&](const char* k, double v) { s.setParam(std::string("/safety_limiter/") + k, v); };
    P("freq", c.freq0);
    P("cloud_timeout", c.cloud_timeout);
    P("disable_timeout", c.disable_timeout);
    P("lin_vel", c.lin_vel);
    P("lin_acc", c.lin_acc);
    P("ang_vel", c.ang_vel);
    P("ang_acc", c.ang_acc);
    P("z_range_min", c.zmin);
    P("z_range_max", c.zmax);
    P("dt", c.dt);
    P("d_margin", c.d_margin);
    P("d_escape", c.d_escape);
    P("yaw_margin", c.yaw_margin);
    P("yaw_escape", c.yaw_escape);
    P("downsample_grid", c.grid);
    P("hold", c.hold);
    P("max_linear_vel", c.max_lin);
    P("max_angular_vel", c.max_ang);
    P("watchdog_interval", c.watchdog);
    s.setParam("/safety_limiter/allow_empty_cloud", c.allow_empty);
    s.setParam("/safety_limiter/num_input_clouds", c.clouds);
    const bool compat = r.rng("compat").p(0.2);
    s.setParam("/neonavigation_compatible", 1);
    (void)compat;
    XmlRpc::XmlRpcValue fp;
    fp.setSize(static_cast<int>(c.fp.size()));
    for (size_t i = 0; i < c.fp.size(); ++i)
    {
      fp[i].setSize(2);
      fp[i][0] = c.fp[i].first;
      fp[i][1] = c.fp[i].second;
    }
    s.setParam("/safety_limiter/footprint", fp);
    r.note("freq", c.freq0);
    r.note("timeout", c.cloud_timeout);
    r.note("hold", c.hold);
    r.note("wd", c.watchdog);
    r.note("clouds", c.clouds);
    r.note("empty_ok", c.allow_empty);
    r.note("vl", c.lin_vel);
    r.note("al", c.lin_acc);
    r.note("vw", c.ang_vel);
    r.note("aw", c.ang_acc);
    r.note("dt", c.dt);
    r.note("dm", c.d_margin);
    r.note("ym", c.yaw_margin);
    r.note("de", c.d_escape);
    r.note("ye", c.yaw_escape);
    r.note("grid", c.grid);
    r.note("maxl", c.max_lin);
    r.note("maxw", c.max_ang);
    r.note("z", strf("[%.2f,%.2f]", c.zmin, c.zmax));

    pub_cmd = s.pub<geometry_msgs::Twist>("/cmd_vel_in");
    pub_dis = s.pub<std_msgs::Bool>("/disable_safety");
    pub_wd = s.pub<std_msgs::Empty>("/watchdog_reset");
    Rng g = r.rng("sensors");
    for (int i = 0; i < c.clouds; ++i)
    {
      const std::string t = c.clouds == 1 ? "/cloud" : "/cloud" + std::to_string(i);
      pub_cloud.push_back(s.pub<sensor_msgs::PointCloud2>(t));
      sensor.push_back(Pose2(g.uni(-0.3, 0.3), g.uni(-0.3, 0.3), g.uni(-3.1, 3.1)));
      sensor_z.push_back(g.uni(0.0, 0.4));
      tf.sendStatic(tfMsg("base_link", "sensor" + std::to_string(i), s.now, sensor.back(), sensor_z.back()));
      s.onExec<sensor_msgs::PointCloud2>("/safety_limiter", t, [this](const sensor_msgs::PointCloud2& m, Node*) { execCloud(m); });
    }
    s.onExec<geometry_msgs::Twist>("/safety_limiter", "/cmd_vel_in", [this](const geometry_msgs::Twist& m, Node*) { execTwist(tw(m)); });
    s.onExec<std_msgs::Bool>("/safety_limiter", "/disable_safety", [this](const std_msgs::Bool& m, Node*) {
      if (m.data)
        t_dis = nowNode();
    });
    s.onExec<std_msgs::Empty>("/safety_limiter", "/watchdog_reset", [this](const std_msgs::Empty&, Node*) {
      // reset processed after its interval: the expiry may already be queued behind it
      wd_late = wd_ref >= 0 && nowNode() - wd_ref > sec(c.watchdog) - 2 * MS;
      wd_ref = nowNode();
    });
    s.tap<geometry_msgs::Twist>("/cmd_vel", [this](const geometry_msgs::Twist& m, Node*) { onOut(m); });
    s.tap<safety_limiter_msgs::SafetyLimiterStatus>("/safety_limiter/status", [this](const safety_limiter_msgs::SafetyLimiterStatus& m, Node*) {
      st = m;
      status_in_cb = true;
    });
    s.onRecv<tf2_msgs::TFMessage>("/safety_limiter", "/tf", [this](const tf2_msgs::TFMessage&, Node*) {
      if (first_tf < 0)
        first_tf = s.now;
    });
    s.onRecv<tf2_msgs::TFMessage>("/safety_limiter", "/tf_static", [this](const tf2_msgs::TFMessage& m, Node*) {
      for (auto& k : m.transforms)
        static_seen.insert(k.child_frame_id);
    });
    s.cb_hooks.push_back([this](Node* k, const std::string& l, bool b) {
      if (k == n)
        hook(l, b);
    });
    n = s.spawn("/safety_limiter", safety_limiter_main);
    keepServing(r, n);
    resetModel();
  }
  void resetModel()
  {
    batch.clear();
    batch_clear = any_cloud = false;
    first_tf = -1;
    static_seen.clear();
    newest_stamp = last_stamp = 0;
    batch_empty_only = true;
    eval_invalid = false;
    eval_t = -1;
    t_dis = INT64_MIN / 2;
    have_in = false;
    in = Tw();
    wd_ref = -1;
    wd_late = false;
    L = 1.0;
    limited_sure = false;
    maybe_limited = true;
    maybe_until = s.now;
    last_reconf = INT64_MIN / 2;
    last_eval_real = -1;
  }
  // ------------------------------------------------------------ processing order model
  void execCloud(const sensor_msgs::PointCloud2& m)
  {
    const ns_t stamp = static_cast<ns_t>(m.header.stamp.toNSec());
    if (m.width > 0 && (first_tf < 0 || !static_seen.count(m.header.frame_id)))
      return;  // cannot be transformed: not accepted
    if (batch_clear)
    {
      batch.clear();
      batch_empty_only = true;
      batch_clear = false;
      batch_stamp = 0;
    }
    if (m.width > 0)
    {
      batch_empty_only = false;
      batch_stamp = std::max(batch_stamp, stamp);
      // true positions: kept beside the message by its sequence number
      auto it = truth.find({m.header.frame_id, m.header.stamp.toNSec()});
      if (it != truth.end())
        batch.insert(batch.end(), it->second.begin(), it->second.end());
    }
    any_cloud = true;
    last_cloud_exec = s.now;
    newest_stamp = std::max(newest_stamp, stamp);
    last_stamp = stamp;
  }
  std::map<std::pair<std::string, uint64_t>, std::vector<P3>> truth;
  void execTwist(const Tw& t)
  {
    in = t;
    have_in = true;
  }
  Tw maxed(const Tw& i) const
  {
    Tw o = i;
    if (c.max_lin <= 0)
      o.x = o.y = 0;
    else if (o.lin() > c.max_lin)
    {
      const double k = c.max_lin / o.lin();
      o.x *= k;
      o.y *= k;
    }
    o.w = std::min(std::max(o.w, -c.max_ang), c.max_ang);
    return o;
  }
  void onOut(const geometry_msgs::Twist& m)
  {
    const Tw o = tw(m);
    ++n_out;
    if (!in_cb)
    {
      zero_in_timer = o.zero();
      if (o.zero())
        last_self_zero = s.now;
      out_in_timer = true;
      // the node never commands motion by itself
      r.expect(o.zero(), "P03", "self-motion", [&] { return "velocity " + o.str() + " published without an input command"; });
      r.expect(o.zero(), "P01", "self-motion", [&] { return "velocity " + o.str() + " published without an input command"; });
      setOut(o);
      return;
    }
    ++outs_in_cb;
    judge(o);
    setOut(o);
  }
  void setOut(const Tw& o)
  {
    out = o;
    out_t = s.now;
    if (!o.zero())
      ++n_nonzero;
  }
  bool disabledNow(ns_t slack) const { return nowNode() - t_dis < sec(c.disable_timeout) + slack; }
  bool watchdogExpired(ns_t slack) const
  {
    return c.watchdog > 0 && wd_ref >= 0 && (nowNode() - wd_ref > sec(c.watchdog) + slack || (slack < 0 && wd_late));
  }
  // reason why the output has to be zero now, or nullptr
  const char* mustBeZero() const
  {
    const ns_t now = nowNode();
    if (!any_cloud)
      return "no-cloud";
    if (now - newest_stamp > sec(c.cloud_timeout) + 2 * MS)
      return "cloud-timeout";
    if (eval_invalid && now - eval_t <= sec(c.holdEff()) - 2 * MS && last_reconf < eval_t)
      return "invalid-cloud";
    if (watchdogExpired(20 * MS) && s.now - last_busy > 30 * MS)
      return "watchdog";
    return nullptr;
  }
  void judge(const Tw& o)
  {
    const ns_t now = nowNode();
    const Tw m = maxed(in);
    auto close = [](double a, double b) { return std::abs(a - b) <= 1e-9 + 1e-6 * std::abs(b); };
    if (disabledNow(-2 * MS))
    {
      ++n_bypass;
      r.expect(close(o.x, m.x) && close(o.y, m.y) && close(o.w, m.w), "P03", "disable-not-bypassed",
               [&] { return strf("safety disabled %.3f s ago (timeout %.3f): input %s, maxima give %s, output %s", (now - t_dis) * 1e-9, c.disable_timeout, in.str().c_str(), m.str().c_str(), o.str().c_str()); });
      return;
    }
    // --- common scale factor and maxima
    scale(o);
    if (disabledNow(2 * MS))
      return;
    // --- P01
    if (const char* why = mustBeZero())
    {
      ++n_zero_forced;
      r.expect(o.zero(), "P01", std::string("moving-") + why, [&] {
        return strf("output %s for input %s although %s (newest cloud %.3f s old, timeout %.3f; last evaluation %.3f s ago %s; watchdog reset %.3f s ago, interval %.3f)", o.str().c_str(), in.str().c_str(), why,
                    any_cloud ? (now - newest_stamp) * 1e-9 : -1, c.cloud_timeout, (now - eval_t) * 1e-9, eval_invalid ? "invalid" : "valid", (now - wd_ref) * 1e-9, c.watchdog);
      });
    }
    // --- liveness: everything valid and quiet for long enough, nothing near
    if (settled())
    {
      r.expect(close(o.x, m.x) && close(o.y, m.y) && close(o.w, m.w), "P01", "not-recovered",
               [&] { return strf("inputs valid and no obstacle near for %.2f s, input %s gives %s instead of %s (limit ratio %.3f)", (s.now - quiet_since) * 1e-9, in.str().c_str(), o.str().c_str(), m.str().c_str(), L); });
      r.expect(close(o.x, m.x) && close(o.y, m.y) && close(o.w, m.w), "P03", "limited-without-reason",
               [&] { return strf("inputs valid and no obstacle near for %.2f s, input %s gives %s instead of %s (limit ratio %.3f)", (s.now - quiet_since) * 1e-9, in.str().c_str(), o.str().c_str(), m.str().c_str(), L); });
      r.nontrivial = true;
    }
    // after this command the limit may have been lifted
    if (maybe_limited && any_cloud && now > maybe_until + 2 * MS && !mustBeZeroLoose())
      maybe_limited = false;
  }
  bool mustBeZeroLoose() const
  {
    // conservatively: the node may still be in one of its stopped states
    const ns_t now = nowNode();
    return !any_cloud || now - last_stamp > sec(c.cloud_timeout) - 2 * MS || watchdogExpired(-2 * MS) || (c.watchdog > 0 && wd_ref < 0 && true);
  }
  double settle_extra = 0;
  bool settled() const { return quiet_since > 0 && s.now - quiet_since > sec(2 * c.holdEff() + 3.0 / c.freq0 + c.cloud_timeout + 0.6 + settle_extra); }
  void scale(const Tw& o)
  {
    const double eps = 1e-6;
    const double il = in.lin(), ol = o.lin();
    bool ok = ol <= c.max_lin + eps && std::abs(o.w) <= c.max_ang + eps && ol <= il + eps && std::abs(o.w) <= std::abs(in.w) + eps;
    // direction of travel
    ok = ok && std::abs(in.x * o.y - in.y * o.x) <= eps * (1 + il) && in.x * o.x + in.y * o.y >= -eps && in.w * o.w >= -eps;
    double lo = 0, hi = 1;
    auto narrow = [&](double a, double b, double mx) {
      // a: input magnitude, b: output magnitude = min(s*a, mx)
      if (a < 1e-4)
        return;
      if (b < mx - 1e-5)
      {
        lo = std::max(lo, b / a - 1e-4);
        hi = std::min(hi, b / a + 1e-4);
      }
      else
        lo = std::max(lo, mx / a - 1e-4);
    };
    if (c.max_lin > 0)
      narrow(il, ol, c.max_lin);
    else
      ok = ok && ol == 0;
    narrow(std::abs(in.w), std::abs(o.w), c.max_ang);
    ok = ok && lo <= hi + 1e-6;
    r.expect(ok, "P03", "not-a-scaled-command", [&] { return strf("input %s, output %s, maxima %.3f %.3f: no common factor (linear and angular need %.4f..%.4f)", in.str().c_str(), o.str().c_str(), c.max_lin, c.max_ang, lo, hi); });
    if (!ok)
      return;
    // hold: a limitation may not be relaxed early
    const ns_t now = nowNode();
    if (limited_sure && !disabledNow(2 * MS) && now < limited_t + sec(c.holdEff()) - 2 * MS && last_reconf < limited_t)
    {
      ++n_limited;
      r.expect(lo <= L + 1e-3, "P03", "limit-relaxed-early",
               [&] { return strf("%.3f s after an evaluation limited the velocity to ratio %.4f (hold %.3f) output %s is %.4f of input %s", (now - limited_t) * 1e-9, L, c.holdEff(), o.str().c_str(), lo, in.str().c_str()); });
      // the limit the node announces is the one it applies
      r.expect(lo <= L + 1e-3, "P02", "limit-not-applied", [&] { return strf("limit ratio %.4f but output %s for input %s", L, o.str().c_str(), in.str().c_str()); });
    }
  }
  void hook(const std::string& l, bool begin)
  {
    if (begin)
    {
      in_cb = l == "/cmd_vel_in";
      outs_in_cb = 0;
      out_in_timer = status_in_cb = zero_in_timer = false;
      return;
    }
    if (in_cb)
    {
      r.expect(outs_in_cb == 1, "P03", "no-output", [&] { return strf("%d outputs for one command", outs_in_cb); });
      in_cb = false;
    }
    if (l == "reconf")
    {
      last_reconf = nowNode();
      if (!pend_cfg.empty())
      {
        applyCfg(pend_cfg.front().second);
        pend_cfg.erase(pend_cfg.begin());
      }
      limited_sure = false;
      maybeLimited(nowNode());
      eval_invalid = false;
    }
    if (l.compare(0, 5, "timer") == 0 && status_in_cb)
    {
      const ns_t now = nowNode();
      L = st.limit_ratio;
      have_status = true;
      if (out_in_timer)
      {
        last_eval_real = -1;
        // stopped: timed out cloud or watchdog
        maybeLimited(now);
        const bool wd = st.has_watchdog_timed_out;
        if (!st.is_cloud_available && any_cloud)
        {
          const bool really = now - last_stamp > sec(c.cloud_timeout) - 2 * MS;
          if (really)
          {
            any_cloud = false;
            batch.clear();
            batch_empty_only = true;
            limited_sure = false;
            eval_invalid = false;
          }
          r.expect(really || wd, "P01", "false-timeout", [&] { return strf("reported cloud timeout although the last cloud is %.3f s old (timeout %.3f)", (now - last_stamp) * 1e-9, c.cloud_timeout); });
        }
      }
      else
        evaluated(now);
      // status tells the reason
      if (watchdogExpired(20 * MS) && s.now - last_busy > 30 * MS)
        r.expect(st.has_watchdog_timed_out, "P01", "status-watchdog", [&] { return strf("watchdog reset %.3f s ago (interval %.3f) but status does not report it", (now - wd_ref) * 1e-9, c.watchdog); });
      if (any_cloud && now - newest_stamp > sec(c.cloud_timeout + 1.0 / c.freq0) + 20 * MS && s.now - std::max(last_busy, last_cloud_exec) > sec(1.0 / c.freq0) + 20 * MS &&
          now - last_reconf > sec(1.0 / c.freq0) + 20 * MS)
        r.expect(!st.is_cloud_available, "P01", "status-cloud", [&] { return strf("newest cloud %.3f s old (timeout %.3f) but status reports it as available", (now - newest_stamp) * 1e-9, c.cloud_timeout); });
    }
  }
  void applyCfg(const std::map<std::string, double>& m)
  {
    for (auto& k : m)
    {
      if (k.first == "cloud_timeout")
        c.cloud_timeout = k.second;
      else if (k.first == "disable_timeout")
        c.disable_timeout = k.second;
      else if (k.first == "hold")
        c.hold = k.second;
      else if (k.first == "max_linear_vel")
        c.max_lin = k.second;
      else if (k.first == "max_angular_vel")
        c.max_ang = k.second;
      else if (k.first == "d_margin")
        c.d_margin = k.second;
      else if (k.first == "allow_empty_cloud")
        c.allow_empty = k.second != 0;
    }
  }
  // ------------------------------------------------------------ one evaluation of the clouds finished
  void evaluated(ns_t now)
  {
    ++n_eval;
    if (last_eval_real >= 0 && s.now - last_busy > sec(2.5 / c.freq0) + 30 * MS)
    {
      r.expect(s.now - last_eval_real < sec(2.0 / c.freq0) + 20 * MS, "P02", "evaluation-missed",
               [&] { return strf("clouds not evaluated for %.3f s (frequency %.1f)", (s.now - last_eval_real) * 1e-9, c.freq0); });
    }
    last_eval_real = s.now;
    const double ratio = st.limit_ratio;
    const bool invalid = batch_empty_only && !c.allow_empty;
    eval_invalid = invalid;
    eval_t = now;
    if (invalid)
      r.expect(ratio == 0.0, "P01", "empty-cloud-accepted", [&] { return strf("empty cloud evaluated, limit ratio %.3f", ratio); });
    double hi = 1.0;
    bool lo_one = false;
    if (invalid)
      hi = 0;
    else if (geometric)
      bounds(hi, lo_one, ratio);
    else
      lo_one = true;  // nothing near by construction of the workload
    if (r.failed)
      return;
    if (hi < 0.98)
    {
      limited_sure = true;
      limited_t = now;
    }
    if (!lo_one || hi < 1.0)
    {
      maybeLimited(now);
    }
    else if (!maybe_limited)
    {
      ++n_lo;
      r.expect(ratio > 1.0 - 1e-6, geometric ? "P02" : "P01", "limited-without-obstacle",
               [&] { return strf("limit ratio %.4f although no obstacle is near the predicted path, command %s at (%.3f %.3f %.3f)", ratio, in.str().c_str(), pose.x, pose.y, pose.th); });
      r.expect(ratio > 1.0 - 1e-6, "P03", "limited-without-obstacle",
               [&] { return strf("limit ratio %.4f although no obstacle is near the predicted path, command %s", ratio, in.str().c_str()); });
    }
    batch_clear = true;
    s.state(mix64(static_cast<uint64_t>(ratio * 20) * 64 + (invalid ? 1 : 0) + (c.clouds << 1) + (maybe_limited ? 8 : 0) + (limited_sure ? 16 : 0)));
  }
  // Bounds on the ratio from the true geometry: hi from a footprint shrunk by the accumulated inaccuracy, lo from a grown one.
  void bounds(double& hi, bool& lo_one, double ratio)
  {
    const double v = in.lin(), w = std::abs(in.w), dt = c.dt, tmax = c.tmax();
    std::vector<std::pair<double, double>> ph, pl;  // base frame
    const double reach = c.fp_r + v * (tmax + 2 * dt) + 1.0;
    const Pose2 ref = poseAt(batch_stamp);
    const Pose2 inv = ref.inv();
    bool any_in_z = false, any_maybe_z = false;
    for (auto& p : batch)
    {
      double x, y;
      inv.apply(p.x, p.y, x, y);
      const bool zi = p.z > c.zmin + c.grid + 1e-3 && p.z < c.zmax - c.grid - 1e-3;
      const bool zm = p.z > c.zmin - c.grid - 1e-3 && p.z < c.zmax + c.grid + 1e-3;
      any_in_z |= zi;
      any_maybe_z |= zm;
      if (std::hypot(x, y) > reach)
        continue;
      if (zi)
        ph.push_back({x, y});
      if (zm)
        pl.push_back({x, y});
    }
    if (!any_maybe_z && !c.allow_empty)
    {
      hi = 0;  // no point in the height range at all: treated as an invalid cloud
      r.expect(ratio == 0.0, "P01", "empty-cloud-accepted", [&] { return strf("no point within the height range evaluated, limit ratio %.3f", ratio); });
      return;
    }
    auto slack = [&](double t) {
      return 1.45 * c.grid + 0.5 * (v + w * c.fp_r) * dt + 0.55 * v * w * dt * t + pos_err + ang_err * (c.fp_r + v * t) + 0.005;
    };
    // time of first certain / possible contact
    double t_sure = -1, t_maybe = -1, t_exit_sure = -1;
    bool sure0 = false, maybe0 = false;
    double t_deep_last = -1;
    const double step = dt / 4;
    for (double t = 0; t < tmax + 2 * dt; t += step)
    {
      const Pose2 q = arc(in, t).inv();
      const double sl = slack(t);
      bool sure = false, maybe = false;
      for (auto& p : ph)
      {
        double x, y;
        q.apply(p.first, p.second, x, y);
        if (std::hypot(x, y) < c.fp_r && depth(c.fp, x, y) > sl)
        {
          sure = true;
          break;
        }
      }
      if (!sure)
        for (auto& p : pl)
        {
          double x, y;
          q.apply(p.first, p.second, x, y);
          if (std::hypot(x, y) < c.fp_r + sl + 0.01 && depth(c.fp, x, y) > -sl)
          {
            maybe = true;
            break;
          }
        }
      if (sure)
        maybe = true;
      if (t == 0)
      {
        sure0 = sure;
        maybe0 = maybe;
      }
      if (sure && t_sure < 0)
        t_sure = t;
      if (maybe && t_maybe < 0)
        t_maybe = t;
      if (sure && t < tmax - dt)
        t_deep_last = t;
      if (v == 0 && w == 0)
        break;
    }
    (void)t_exit_sure;
    lo_one = t_maybe < 0 && any_in_z;
    if (t_maybe < 0 && !any_in_z && !c.allow_empty)
      lo_one = false;
    if (c.allow_empty && t_maybe < 0)
      lo_one = true;
    if (sure0)
    {
      // already in collision: only escaping motion
      const bool must = (v > 0 && c.d_escape == 0) || (w > 0 && c.yaw_escape == 0) || (c.d_escape == 0 && c.yaw_escape == 0) ||
                        (t_deep_last >= 0 && (v * t_deep_last > c.d_escape + 1.5 * v * dt || w * t_deep_last > c.yaw_escape + 1.5 * w * dt));
      if (must && (v > 1e-3 || w > 1e-3))
      {
        hi = 0;
        ++n_hi;
        r.expect(ratio < 1e-3, "P02", "deepens-collision",
                 [&] { return strf("robot at (%.3f %.3f %.3f) is in collision and stays so along command %s, limit ratio %.4f", pose.x, pose.y, pose.th, in.str().c_str(), ratio); });
      }
      return;
    }
    // straight or on the spot: not slower than stopping in front of the first possible contact needs
    if (!maybe_limited && !maybe0 && t_maybe > 0 && any_in_z && (v < 1e-9) != (w < 1e-9))
    {
      const bool lin = w < 1e-9;
      const double sp = lin ? v : w, a = lin ? c.lin_acc : c.ang_acc, m = lin ? c.d_margin : c.yaw_margin;
      const double A = a * c.latency() * c.latency(), dd = sp * std::max(0.0, t_maybe - 1.5 * dt);
      const double lo = std::min(1.0, std::sqrt(2 * a * std::max(0.0, dd - m + A - std::sqrt(A * A + 2 * A * dd))) / sp);
      ++n_lo;
      r.expect(ratio > lo - 0.01, "P03", "limited-too-much", [&] {
        return strf("command %s from (%.3f %.3f %.3f) meets no obstacle before %.3f m / %.3f rad; limit ratio %.4f, %.4f is safe", in.str().c_str(), pose.x, pose.y, pose.th, v * t_maybe, w * t_maybe, ratio, lo);
      });
    }
    if (maybe0 || t_sure < 0 || t_sure > tmax - dt)
      return;
    const double d = std::max(0.0, v * t_sure - c.d_margin), yw = std::max(0.0, w * t_sure - c.yaw_margin);
    const double lat = c.latency();
    const double vl = ratio * v, wl = ratio * w;
    const double need_d = vl * lat + vl * vl / (2 * c.lin_acc), need_w = wl * lat + wl * wl / (2 * c.ang_acc);
    // largest admissible ratio
    auto lim = [&](double dd, double a, double sp) {
      if (sp < 1e-6)
        return 1.0;
      const double u = -a * lat + std::sqrt(a * a * lat * lat + 2 * a * dd);
      return u / sp;
    };
    hi = std::min(1.0, std::min(lim(d, c.lin_acc, v), lim(yw, c.ang_acc, w)));
    ++n_hi;
    r.nontrivial = true;
    const bool bad_d = v > 1e-3 && need_d > d + 0.003, bad_w = w > 1e-3 && need_w > yw + 0.003;
    r.expect(!bad_d && !bad_w, "P02", bad_d ? "stops-too-late" : "stops-too-late-turning", [&] {
      return strf("command %s from (%.3f %.3f %.3f) meets an obstacle after %.3f m / %.3f rad (margins %.3f / %.3f); ratio %.4f needs %.3f m / %.3f rad to stop, at most %.4f is safe", in.str().c_str(), pose.x, pose.y, pose.th,
                  v * t_sure, w * t_sure, c.d_margin, c.yaw_margin, ratio, need_d, need_w, hi);
    });
  }
  // ------------------------------------------------------------ sources
  void publishTf()
  {
    hist.push_back({s.now, pose});
    if (hist.size() > 400)
      hist.pop_front();
    tf.send(tfMsg("odom", "base_link", s.now, pose));
  }
  void publishCloud(int i, bool empty, ns_t stamp, bool subset = false, uint64_t salt = 0)
  {
    std::vector<P3> pts, tr;
    if (!empty)
    {
      const Pose2 to = (pose * sensor[i]).inv();
      size_t k = 0;
      for (auto& o : obs)
      {
        ++k;
        if (subset && (mix64(salt ^ k) & 1) == 0)
          continue;
        double x, y;
        to.apply(o.x, o.y, x, y);
        pts.push_back({x, y, o.z - sensor_z[i]});
        tr.push_back(o);
      }
    }
    const std::string f = "sensor" + std::to_string(i);
    if (!pts.empty())
      truth[{f, rosTime(stamp).toNSec()}] = tr;
    pub_cloud[i](cloudMsg(f, stamp, pts, 0));
  }
  void finish()
  {
    s.probe("safety.outputs", n_out);
    s.probe("safety.nonzero_outputs", n_nonzero);
    s.probe("safety.limited_outputs", n_limited);
    s.probe("safety.zero_forced_outputs", n_zero_forced);
    s.probe("safety.evaluations", n_eval);
    s.probe("safety.upper_bound_checks", n_hi);
    s.probe("safety.unlimited_checks", n_lo);
    s.probe("safety.bypassed_outputs", n_bypass);
  }
};

// Far obstacles only; every input source can be lost, late, duplicated, reordered; node stalls and restarts.
void stale(Run& r)
{
  World w(r);
  w.config();
  Rng g = r.rng("w");
  if (g.p(0.6))
    w.c.watchdog = g.uni(0.15, 0.8);
  w.start();
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  const ns_t chaos = T + sec(g.uni(6, 12));
  const ns_t end = chaos + sec(2 * std::max(1.5, w.c.holdEff()) + 8);
  w.pose = Pose2(g.uni(-5, 5), g.uni(-5, 5), g.uni(-3, 3));
  for (int i = 0; i < 5; ++i)
    w.obs.push_back({w.pose.x + 30 + g.uni(0, 3), w.pose.y + g.uni(-3, 3), (w.c.zmin + w.c.zmax) / 2});
  const double cp = g.pick({0.05, 0.1, 0.2}), tp = g.pick({0.02, 0.05, 0.1, 0.2}), fp = g.pick({0.02, 0.05}), wp = w.c.watchdog * g.uni(0.25, 0.45);
  const double skew = g.p(0.3) ? g.uni(std::max(-0.15, -(0.22 - cp)), 0.1) : 0;
  const double tf0 = g.p(0.3) ? g.uni(0, 2) : 0.0;
  r.note("cloud_period", cp);
  r.note("twist_period", tp);
  r.note("skew", skew);
  s.every(T + sec(tf0), sec(fp), [&w] { w.publishTf(); });
  // gaps are operations so that the minimiser can remove them
  std::vector<std::pair<ns_t, ns_t>> *gap_c = new std::vector<std::pair<ns_t, ns_t>>, *gap_w = new std::vector<std::pair<ns_t, ns_t>>, *gap_e = new std::vector<std::pair<ns_t, ns_t>>;
  auto inGap = [](const std::vector<std::pair<ns_t, ns_t>>* v, ns_t t) {
    for (auto& p : *v)
      if (t >= p.first && t < p.second)
        return true;
    return false;
  };
  const int ng = static_cast<int>(g.i(0, 4));
  for (int i = 0; i < ng; ++i)
  {
    const ns_t a = T + sec(g.uni(0.5, (chaos - T) * 1e-9)), b = std::min(chaos, a + sec(g.logu(0.05, 4.0)));
    r.op(T, strf("cloud source silent %.2f..%.2f", (a - T) * 1e-9, (b - T) * 1e-9), [=] { gap_c->push_back({a, b}); });
  }
  const int nw = w.c.watchdog > 0 ? static_cast<int>(g.i(0, 4)) : 0;
  for (int i = 0; i < nw; ++i)
  {
    const ns_t a = T + sec(g.uni(0.5, (chaos - T) * 1e-9)), b = std::min(chaos, a + sec(g.logu(0.1, 3.0)));
    r.op(T, strf("watchdog source silent %.2f..%.2f", (a - T) * 1e-9, (b - T) * 1e-9), [=] { gap_w->push_back({a, b}); });
  }
  const int ne = static_cast<int>(g.i(0, 3));
  for (int i = 0; i < ne; ++i)
  {
    const ns_t a = T + sec(g.uni(0.5, (chaos - T) * 1e-9)), b = std::min(chaos, a + sec(g.logu(0.1, 3.0)));
    r.op(T, strf("clouds empty %.2f..%.2f", (a - T) * 1e-9, (b - T) * 1e-9), [=] { gap_e->push_back({a, b}); });
  }
  for (int i = 0; i < w.c.clouds; ++i)
    s.every(T + sec(g.uni(0, cp)), sec(cp), [&w, i, gap_c, gap_e, inGap, skew, &s] {
      if (!inGap(gap_c, s.now))
        w.publishCloud(i, inGap(gap_e, s.now), s.now - 20 * MS + sec(skew));
    });
  if (w.c.watchdog > 0)
    s.every(T + sec(g.uni(0, wp)), sec(wp), [&w, gap_w, inGap, &s] {
      if (!inGap(gap_w, s.now))
        w.pub_wd(std_msgs::Empty());
    });
  Rng gc = r.rng("cmd");
  s.every(T + sec(g.uni(0, tp)), sec(tp), [&w, gc]() mutable {
    if (w.last_in.zero() || gc.p(0.1))
    {
      w.last_in.x = gc.p(0.15) ? 0 : gc.uni(-1, 1) * 1.5;
      w.last_in.y = gc.p(0.7) ? 0 : gc.uni(-1, 1) * 0.7;
      w.last_in.w = gc.p(0.3) ? 0 : gc.uni(-1, 1) * 1.5;
    }
    w.pub_cmd(tm(w.last_in));
  });
  // disable requests
  const int nd = static_cast<int>(g.i(0, 3));
  for (int i = 0; i < nd; ++i)
  {
    const ns_t a = T + sec(g.uni(0.2, (chaos - T) * 1e-9));
    const int k = static_cast<int>(g.i(1, 12));
    const bool v = g.p(0.8);
    r.op(a, strf("disable=%d x%d", v, k), [&w, &s, k, v] {
      for (int j = 0; j < k; ++j)
        s.after(sec(j * 0.07), [&w, v] { std_msgs::Bool b; b.data = v; w.pub_dis(b); });
    });
  }
  const int nr = static_cast<int>(g.i(0, 3));
  for (int i = 0; i < nr; ++i)
  {
    const ns_t a = T + sec(g.uni(0.5, (chaos - T) * 1e-9));
    std::map<std::string, std::string> m;
    std::map<std::string, double> d;
    auto put = [&](const char* k, double v) { m[k] = strf("%.17g", v); d[k] = v; };
    if (g.p(0.4)) put("cloud_timeout", g.uni(0.3, 1.5));
    if (g.p(0.4)) put("disable_timeout", g.uni(0.05, 0.6));
    if (g.p(0.4)) put("hold", g.uni(0, 1));
    if (g.p(0.4)) put("max_linear_vel", g.pick({0.0, 0.3, 1.0, 10.0}));
    if (g.p(0.4)) put("max_angular_vel", g.pick({0.0, 0.3, 1.0, 10.0}));
    r.op(a, "reconfigure", [&w, &s, m, d] {
      if (!w.n->fiber || w.n->reconf.empty())
        return;
      w.pend_cfg.push_back({"", d});
      s.reconfigure("/safety_limiter", m);
    });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/cloud", "cmd_vel_in", "watchdog_reset", "disable_safety", "/tf>", ">/safety_limiter"};
    mix.max_delay = 1.5;
    netFaults(r, mix, T, chaos - sec(1.6), 6);
    Rng sf = r.rng("stall");
    const int k = static_cast<int>(sf.i(0, 3));
    for (int i = 0; i < k; ++i)
    {
      const ns_t t = T + sec(sf.uni(0.5, (chaos - T) * 1e-9 - 1.5));
      const double d = sf.logu(0.005, 1.0);
      r.faultAt("stall", strf("safety_limiter %.3fs", d), t, [&w, &s, d] {
        s.stall(w.n, sec(d));
        w.last_busy = std::max(w.last_busy, s.now + sec(d));
      });
    }
    if (sf.p(0.3))
    {
      const ns_t t = T + sec(sf.uni(0.5, (chaos - T) * 1e-9 - 1.5));
      const double d = sf.uni(0.01, 1.0);
      r.faultAt("crash", strf("safety_limiter, restart after %.3fs", d), t, [&w, &s, d] {
        s.kill(w.n);
        w.resetModel();
        w.pend_cfg.clear();
        s.after(sec(d), [&w, &s] { s.restart(w.n); });
      });
    }
  }
  s.at(chaos, [&w, &s] { w.quiet_since = s.now; });
  // the watchdog emits a zero command by itself
  if (w.c.watchdog > 0)
    s.every(T + sec(1), 5 * MS, [&w, &s] {
      if (w.n->fiber && w.wd_ref >= 0 && s.now - w.last_busy > 60 * MS)
      {
        const double age = (s.now - w.wd_ref) * 1e-9;
        if (age > w.c.watchdog + 0.03 && age < w.c.watchdog + 0.04)
          w.r.expect(w.last_self_zero >= w.wd_ref + sec(w.c.watchdog) - 2 * MS, "P01", "watchdog-no-stop",
                     [&] { return strf("watchdog reset %.3f s ago (interval %.3f) but no zero command has been sent", age, w.c.watchdog); });
      }
    });
  s.run(end);
  w.finish();
  if (!r.failed)
    r.expect(w.n_nonzero > 0 || (w.c.max_lin == 0 || w.c.max_ang == 0), "P01", "never-moved", [&] { return std::string("no command was passed although the inputs were valid for seconds"); });
}

// Random layouts around a moving robot: every evaluation is compared with the true geometry.
void layout(Run& r)
{
  World w(r);
  w.config();
  Rng g = r.rng("w");
  w.geometric = true;
  w.start();
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  const ns_t end = T + sec(g.uni(8, 14));
  const bool moving = g.p(0.6);
  Tw mv;
  w.pose = Pose2(g.uni(-20, 20), g.uni(-20, 20), g.uni(-3, 3));
  mv.x = moving ? g.uni(-1, 1) * w.c.lin_vel : 0;
  mv.w = moving ? g.uni(-1, 1) * w.c.ang_vel : 0;
  const double fp = 0.01;
  w.pos_err = 0.004 + 0.016 * mv.lin();
  w.ang_err = 0.001 + 0.016 * std::abs(mv.w);
  const double cp = g.p(0.4) ? g.uni(1.0 / w.c.freq, w.c.cloud_timeout * 0.9) : g.pick({0.05, 0.1});
  r.note("cloud_period", cp);
  r.note("moving", mv.str());
  s.every(T, sec(fp), [&w, mv, fp] {
    w.pose = w.pose * arc(mv, fp);
    w.publishTf();
  });
  // layouts
  const int nl = static_cast<int>(g.i(3, 8));
  Rng go = r.rng("obs");
  for (int k = 0; k < nl; ++k)
  {
    const ns_t t = T + sec(0.2) + (end - T) * k / nl;
    const uint64_t salt = go.u64();
    r.op(t, strf("layout %d", k), [&w, salt] {
      Rng q(salt);
      w.obs.clear();
      const int np = static_cast<int>(q.i(1, 14));
      const double zmid = (w.c.zmin + w.c.zmax) / 2;
      const double far = q.logu(0.3, 4.0);
      auto add = [&](double d, double a, double z) {
        double x, y;
        w.pose.apply(d * std::cos(a), d * std::sin(a), x, y);
        w.obs.push_back({x, y, z});
      };
      for (int i = 0; i < np; ++i)
      {
        const int kind = static_cast<int>(q.i(0, 5));
        const double d = far + q.uni(0, 3), a = q.uni(-M_PI, M_PI);
        if (kind == 0)
          add(q.uni(0.0, 3.0), a, w.c.zmax + q.uni(0.15, 1.0));  // outside the height range
        else if (kind == 1)
          add(q.uni(0.0, 3.0), a, w.c.zmin - q.uni(0.15, 1.0));
        else if (kind == 2)
          for (int j = -6; j <= 6; ++j)  // wall
            add(std::hypot(d, j * 0.1), a + std::atan2(j * 0.1, d), zmid);
        else if (kind == 3 && q.p(0.3))
          add(q.uni(0, w.c.fp_r), a, zmid);
        else
          add(d, a, zmid + q.uni(-0.05, 0.05));
      }
      add(40, 0, zmid);
    });
  }
  for (int i = 0; i < w.c.clouds; ++i)
  {
    const bool subset = w.c.clouds > 1 && g.p(0.5);
    const uint64_t salt = g.u64();
    auto cnt = std::make_shared<uint64_t>(0);
    s.every(T + sec(0.25 + g.uni(0, cp)), sec(cp), [&w, i, subset, salt, cnt, &s] {
      const Pose2 keep = w.pose;
      w.publishCloud(i, w.obs.empty(), s.now, subset, salt + (*cnt)++ / 7);
      w.pose = keep;
    });
  }
  Rng gc = r.rng("cmd");
  const double tp = g.pick({0.03, 0.05, 0.1});
  auto left = std::make_shared<int>(0);
  s.every(T + sec(g.uni(0, tp)), sec(tp), [&w, gc, left]() mutable {
    if (--*left <= 0)
    {
      *left = static_cast<int>(gc.i(5, 40));
      w.last_in.x = gc.p(0.15) ? 0 : gc.uni(-1, 1) * w.c.lin_vel;
      w.last_in.y = gc.p(0.75) ? 0 : gc.uni(-1, 1) * w.c.lin_vel * 0.5;
      w.last_in.w = gc.p(0.35) ? 0 : gc.uni(-1, 1) * w.c.ang_vel;
    }
    w.pub_cmd(tm(w.last_in));
  });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/cloud", "cmd_vel_in"};
    mix.delay = mix.reorder = mix.dup = 0.3;
    mix.max_delay = 0.2;
    netFaults(r, mix, T, end, 4);
  }
  s.run(end);
  w.finish();
}

// Closed loop: a robot that obeys the output among static obstacles never touches them.
void loop(Run& r)
{
  World w(r);
  w.config();
  Rng g = r.rng("w");
  w.geometric = true;
  w.c.max_lin = w.c.max_ang = 10;
  // the margins cover the motion within the age a cloud may have
  w.c.lin_vel = std::min(w.c.lin_vel, 0.9);
  w.c.ang_vel = std::min(w.c.ang_vel, 1.2);
  w.c.freq0 = w.c.freq = std::max(w.c.freq, 6.0);
  w.c.cloud_timeout = g.uni(std::max(0.25, 2.2 / w.c.freq), 0.7);
  w.c.d_margin = std::min(1.0, w.c.lin_vel * (w.c.cloud_timeout + 0.03) + 0.02);
  w.c.yaw_margin = std::min(1.57, w.c.ang_vel * (w.c.cloud_timeout + 0.03) + 0.02);
  w.start();
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  const ns_t end = T + sec(g.uni(15, 25));
  w.pose = Pose2(g.uni(-20, 20), g.uni(-20, 20), g.uni(-3, 3));
  w.pos_err = 0.004 + 0.02 * w.c.lin_vel;
  w.ang_err = 0.001 + 0.02 * w.c.ang_vel;
  const double zmid = (w.c.zmin + w.c.zmax) / 2;
  // obstacle field
  Rng go = r.rng("obs");
  const int no = static_cast<int>(go.i(5, 40));
  for (int i = 0; i < no; ++i)
  {
    const double d = w.c.fp_r + 0.3 + go.uni(0, 3.5), a = go.uni(-M_PI, M_PI);
    w.obs.push_back({w.pose.x + d * std::cos(a), w.pose.y + d * std::sin(a), zmid});
  }
  w.obs.push_back({w.pose.x + 60, w.pose.y, zmid});
  const double cp = g.p(0.4) ? g.uni(1.0 / w.c.freq, w.c.cloud_timeout * 0.9) : g.pick({0.05, 0.1});
  r.note("cloud_period", cp);
  Tw act;  // actual velocity
  const double step = 0.01;
  struct St { Tw dir; double k = 0; bool touched = false; };
  auto st = std::make_shared<St>();
  auto sure_depth = [&w](const Pose2& p) {
    double best = -1e9;
    const Pose2 inv = p.inv();
    for (auto& o : w.obs)
    {
      double x, y;
      inv.apply(o.x, o.y, x, y);
      best = std::max(best, depth(w.c.fp, x, y));
    }
    return best;
  };
  s.every(T, sec(step), [&w, st, step, sure_depth, &s] {
    // the robot follows the output; speed changes along the commanded curve are limited by its acceleration
    const Tw o = w.out;
    if (!o.zero())
    {
      if (st->k < 1e-9 || std::abs(st->dir.x * o.w - st->dir.w * o.x) + std::abs(st->dir.x * o.y - st->dir.y * o.x) > 1e-6)
      {
        st->dir = o;
        if (st->k > 1e-9)
          st->k = 0;
      }
    }
    // scale of dir
    const double dl = st->dir.lin(), dw = std::abs(st->dir.w);
    const double rate = 1.0 / std::max(1e-6, std::max(dl / w.c.lin_acc, dw / w.c.ang_acc));
    double target = 0;
    if (!o.zero())
      target = dl > dw ? o.lin() / dl : std::abs(o.w) / dw;
    if (target > st->k)
      st->k = std::min(target, st->k + rate * step);
    else
      st->k = std::max(target, st->k - rate * step);
    Tw a;
    a.x = st->dir.x * st->k;
    a.y = st->dir.y * st->k;
    a.w = st->dir.w * st->k;
    w.pose = w.pose * arc(a, step);
    const double d = sure_depth(w.pose);
    // grazing contacts smaller than the prediction step and the downsampling grid can resolve are not counted
    const double tol = 0.01 + 1.45 * w.c.grid + 0.5 * (dl + dw * w.c.fp_r) * w.c.dt + 0.3 * dl * dw * w.c.dt;
    if (d > tol)
      w.r.expect(false, "P02", "robot-collided", [&] { return strf("robot at (%.3f %.3f %.3f) velocity %s is %.3f m inside an observed obstacle; command %s limit ratio %.3f", w.pose.x, w.pose.y, w.pose.th, a.str().c_str(), d, w.in.str().c_str(), w.L); });
    w.publishTf();
  });
  for (int i = 0; i < w.c.clouds; ++i)
    s.every(T + sec(0.02 + g.uni(0, 0.02)), sec(cp), [&w, i, &s] { w.publishCloud(i, false, s.now); });
  // command source: constant commands separated by stops; a new command is only started with some free path ahead
  Rng gc = r.rng("cmd");
  const double tp = 0.05;
  auto left = std::make_shared<double>(1.0);
  auto stop = std::make_shared<bool>(true);
  auto free_ok = [&w, sure_depth](const Tw& u) {
    const double a = w.c.lin_acc, aw = w.c.ang_acc, v = u.lin(), om = std::abs(u.w);
    // blind travel until the first evaluation plus braking, generously
    const double T0 = 1.5 / w.c.freq0 + w.c.dt + 0.15;
    const double bl = std::min(v, a * T0) * (T0 + 0.1) + v * v / (2 * a) * 0.3 + w.c.d_margin * 0.5;
    const double bw = std::min(om, aw * T0) * (T0 + 0.1) + om * om / (2 * aw) * 0.3 + w.c.yaw_margin * 0.5;
    double t = 0;
    if (v > 0)
      t = std::max(t, bl / v);
    if (om > 0)
      t = std::max(t, bw / om);
    const double sl = 0.03 + 1.5 * w.c.grid;
    if (t > 60)
      return false;
    for (double q = 0; q <= t; q += 0.02)
      if (sure_depth(w.pose * arc(u, q)) > -sl)
        return false;
    return true;
  };
  s.every(T + sec(g.uni(0, tp)), sec(tp), [&w, gc, left, stop, tp, free_ok, st, &s]() mutable {
    *left -= tp;
    if (*left <= 0)
    {
      if (!*stop)
      {
        *stop = true;
        w.last_in = Tw();
        *left = 0.8 + 3.0 / w.c.freq0 + w.c.holdEff() + w.c.cloud_timeout;
      }
      else
      {
        for (int k = 0; k < 30; ++k)
        {
          Tw u;
          u.x = gc.uni(-1, 1) * w.c.lin_vel;
          u.y = gc.p(0.75) ? 0 : gc.uni(-1, 1) * w.c.lin_vel * 0.4;
          u.w = gc.p(0.35) ? 0 : gc.uni(-1, 1) * w.c.ang_vel;
          if (gc.p(0.2))
            u.x = u.y = 0;
          if (u.lin() > w.c.lin_vel)
            continue;
          if (!free_ok(u))
            continue;
          w.last_in = u;
          *stop = false;
          *left = gc.uni(2, 6);
          break;
        }
        if (*stop)
          *left = 0.5;
      }
    }
    w.pub_cmd(tm(w.last_in));
  });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/cloud"};
    mix.delay = mix.reorder = mix.latency = 0;
    mix.max_delay = 0.2;
    netFaults(r, mix, T, end, 4);
  }
  s.run(end);
  w.finish();
}
struct Init
{
  Init()
  {
    harness().real = "safety_limiter node (safety_limiter.cpp, compatibility.h)";
    harness().stub = "roscpp, tf2, dynamic_reconfigure, diagnostic_updater, PCL (voxel grid, kd-tree, conversions) replaced by simros; robot, sensors and command source simulated";
  }
} init_;
Register r1("stale", {{"P01", 1.0}, {"P03", 0.7}}, stale);
Register r2("layout", {{"P02", 0.5}, {"P03", 0.3}, {"P01", 0.1}}, layout);
Register r3("loop", {{"P02", 0.5}, {"P03", 0.1}}, loop);
}  // namespace
