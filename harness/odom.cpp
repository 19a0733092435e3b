// track_odometry (P20) against an independent step-by-step reference; tf_projection (P21).
#include <world.h>
#include <tfref.h>
#include <Eigen/Geometry>
#include <message_filters/sync_policies/approximate_time.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/Twist.h>
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/Imu.h>
#include <std_msgs/Float32.h>
#include <tf2/utils.h>
using namespace sim;
using namespace world;
int track_odometry_main(int, char**);
int tf_projection_main(int, char**);
int dummy_robot_main(int, char**);
namespace
{
typedef Eigen::Quaterniond Q;
typedef Eigen::Vector3d V;
Q toQ(const geometry_msgs::Quaternion& q) { return Q(q.w, q.x, q.y, q.z); }
V toV(const geometry_msgs::Vector3& v) { return V(v.x, v.y, v.z); }
V toV(const geometry_msgs::Point& v) { return V(v.x, v.y, v.z); }
template <class A>
A fromQ(const Q& q)
{
  A o;
  o.x = q.x();
  o.y = q.y();
  o.z = q.z();
  o.w = q.w();
  return o;
}
double qdist(const Q& a, const Q& b)
{
  const double d = std::sqrt((a.coeffs() - b.coeffs()).squaredNorm()), e = std::sqrt((a.coeffs() + b.coeffs()).squaredNorm());
  return std::min(d, e);
}
Q rndQ(Rng& g, double max_tilt)
{
  return Q(Eigen::AngleAxisd(g.uni(-M_PI, M_PI), V::UnitZ()) * Eigen::AngleAxisd(g.uni(-max_tilt, max_tilt), V::UnitY()) * Eigen::AngleAxisd(g.uni(-max_tilt, max_tilt), V::UnitX()));
}
geometry_msgs::TransformStamped tf3(const std::string& parent, const std::string& child, ns_t t, const V& p, const Q& q)
{
  geometry_msgs::TransformStamped m;
  m.header.frame_id = parent;
  m.child_frame_id = child;
  m.header.stamp = rosTime(t);
  m.transform.translation.x = p.x();
  m.transform.translation.y = p.y();
  m.transform.translation.z = p.z();
  m.transform.rotation = fromQ<geometry_msgs::Quaternion>(q);
  return m;
}
// ---------------------------------------------------------------------------------------------
struct Odo
{
  Run& r;
  Sim& s;
  Node* node = nullptr;
  TfRef tf;
  // configuration
  bool without = false, publish_tf = true, use_kf = true, neg = false;
  double tol = 0.01, zt = -1, sig_o = 0.005, sig_p = 0.5, tc = 1.0;
  std::string base, overwrite, odom_id = "odom";
  int window = 50;
  // the reference
  typedef message_filters::sync_policies::ApproximateTime<nav_msgs::Odometry, sensor_msgs::Imu> Sync;
  std::unique_ptr<Sync> sync;
  typedef boost::shared_ptr<nav_msgs::Odometry const> OP;
  typedef boost::shared_ptr<sensor_msgs::Imu const> IP;
  struct Pair
  {
    OP o;
    IP i;
    bool can;  // the transform of the IMU was there when the callback began
  };
  std::deque<Pair> q;
  bool has_odom = false, has_imu = false;
  nav_msgs::Odometry raw_prev;
  V pos = V::Zero();
  double kx = 0, ks = 0.1;
  Q att = Q::Identity();
  V gyro = V::Zero();
  ns_t t_prev = 0;     // without_odom: stamp of the timer tick before
  bool ticked = false, early_reset = false;
  ns_t boot_t = 0;
  sensor_msgs::Imu last_imu;
  bool imu_known = false;  // without_odom: whether the last IMU message could be transformed is known
  uint64_t n_pub = 0, n_pair = 0, n_reset = 0, n_turn = 0, n_back = 0, n_gap = 0;
  int n_tf_due = 0;
  nav_msgs::Odometry last_pub;
  ns_t busy_until = 0, last_pub_t = 0, good_since = -1;
  Odo(Run& rr, const std::string& name) : r(rr), s(rr.sim), tf(rr.sim, name) {}
  void boot()
  {
    sync.reset(new Sync(static_cast<uint32_t>(window)));
    q.clear();
    has_odom = has_imu = ticked = imu_known = early_reset = false;
    pos = V::Zero();
    kx = 0;
    ks = 0.1;
    boot_t = s.now;
    base = without && overwrite.empty() ? "base_link" : overwrite;
    n_tf_due = 0;
    good_since = -1;
    tf.reset();
  }
  auto emit()
  {
    return [this](const OP& o, const IP& i) {
      ++n_pair;
      q.push_back(Pair{o, i, base.empty() ? false : tf.can(base, i->header.frame_id)});
    };
  }
  bool imu(const sensor_msgs::Imu& m)
  {
    tf2::Stamped<tf2::Transform> t;
    if (base.empty() || !tf.get(base, m.header.frame_id, ros::Time(0), t))
      return false;
    const Q rot(t.getRotation().w(), t.getRotation().x(), t.getRotation().y(), t.getRotation().z());
    att = rot * toQ(m.orientation) * rot.conjugate();
    gyro = rot * toV(m.angular_velocity);
    return true;
  }
  // what does not lead to a publication: the first odometry, and the one which tells the frame
  bool silent(const Pair& p)
  {
    if (!has_odom)
    {
      if (p.can && imu(*p.i))
        has_imu = true;
      raw_prev = *p.o;
      pos = toV(p.o->pose.pose.position);
      has_odom = true;
      return true;
    }
    if (base.empty())
    {
      base = p.o->child_frame_id;
      return true;
    }
    return false;
  }
  // nothing more may come of the pairs before
  void flush()
  {
    while (!q.empty())
    {
      const Pair p = q.front();
      q.pop_front();
      if (silent(p))
        continue;
      if (overwrite.empty())
        base = p.o->child_frame_id;
      r.expect(!p.can || s.now < busy_until, "P20", "not-published", [&] { return strf("pair of odometry %.6f and IMU %.6f was not published", p.o->header.stamp.toSec(), p.i->header.stamp.toSec()); });
      has_imu = false;
    }
    r.expect(n_tf_due == 0 || s.now < busy_until, "P20", "tf-missing", [&] { return std::string("odometry published without its transform"); });
    n_tf_due = 0;
  }
  void onOdom(const nav_msgs::Odometry& m)
  {
    flush();
    sync->add0(OP(new nav_msgs::Odometry(m)), emit());
  }
  void onImu(const sensor_msgs::Imu& m)
  {
    flush();
    if (without)
    {
      imu_known = tf.can(base, m.header.frame_id);
      last_imu = m;
      has_imu = imu_known && imu(m);
      return;
    }
    sync->add1(IP(new sensor_msgs::Imu(m)), emit());
  }
  void step(const nav_msgs::Odometry& m, double dt, V& v)
  {
    double wi = gyro.z();
    const double wo = m.twist.twist.angular.z;
    if (wi * wo < 0 && !neg)
      wi = wo;
    const double fwd = std::max(0.0, dt);
    kx -= kx * std::min(1.0, fwd * tc);
    ks += fwd * sig_p;
    const double ratio = std::abs(wo) > sig_o * 3 ? wi / wo : 1.0;
    if (std::abs(wo) > sig_o)
    {
      const double in = (wo - wi) / (wo * std::abs(wo));
      const double sin = sig_o * std::abs(2.0 * wo * sig_o / std::pow(wo * wo - sig_o * sig_o, 2));
      if (std::isfinite(sin) && ks + sin > 0)
      {
        const double kt = ks * ks / (ks * ks + sin * sin);
        kx += kt * (in - kx);
        ks *= 1.0 - kt;
      }
    }
    n_turn += std::abs(kx) > 1e-3;
    v = att * toQ(m.pose.pose.orientation).inverse() * (toV(m.pose.pose.position) - toV(raw_prev.pose.pose.position)) * (use_kf ? 1.0 - kx : ratio);
  }
  static bool finite(const nav_msgs::Odometry& m)
  {
    const auto& p = m.pose.pose;
    const auto& t = m.twist.twist;
    for (double d : {p.position.x, p.position.y, p.position.z, p.orientation.x, p.orientation.y, p.orientation.z, p.orientation.w, t.linear.x, t.linear.y, t.linear.z, t.angular.x, t.angular.y, t.angular.z})
      if (!std::isfinite(d))
        return false;
    return true;
  }
  void published(const nav_msgs::Odometry& m)
  {
    ++n_pub;
    r.nontrivial = true;
    if (n_tf_due)
      r.expect(false, "P20", "tf-missing", [&] { return std::string("odometry published without its transform"); });
    n_tf_due = publish_tf;
    last_pub = m;
    last_pub_t = s.now;
    r.expect(finite(m), "P20", "not-finite", [&] { return strf("position %f %f %f twist %f %f", m.pose.pose.position.x, m.pose.pose.position.y, m.pose.pose.position.z, m.twist.twist.linear.x, m.twist.twist.angular.z); });
    if (r.failed)
      return;
    nav_msgs::Odometry in;
    double dt = 0;
    bool first = false;
    V v = V::Zero();
    if (without)
    {
      in.header.frame_id = odom_id;
      // a transform which came within the wait
      if (!imu_known)
      {
        imu_known = true;
        has_imu = imu(last_imu);
      }
      r.expect(has_imu, "P20", "no-imu", [&] { return std::string("published without the attitude"); });
      const ns_t t = static_cast<ns_t>(m.header.stamp.toNSec()) - sec(tol);
      const double age = (s.now + node->clock_off - t) * 1e-9;
      r.expect(age > -0.001 && age < 0.05, "P20", "stamp", [&] { return strf("stamped %.4f s ago", age); });
      in.header.stamp = m.header.stamp - ros::Duration(tol);
      dt = (t - t_prev) * 1e-9;
      first = !ticked;  // the first tick since the start was not seen
      if (first)
        dt = (s.now - boot_t) * 1e-9;
      ticked = true;
      t_prev = t;
      in.pose.pose.orientation.w = 1;
      raw_prev = in;
    }
    else
    {
      // the pair it is made of
      bool found = false;
      while (!q.empty() && !found)
      {
        const Pair p = q.front();
        if (!silent(p))
        {
          const bool match = std::abs((p.o->header.stamp + ros::Duration(tol) - m.header.stamp).toSec()) < 1e-6;
          if (match && imu(*p.i))
          {
            found = true;
            has_imu = true;
            in = *p.o;
            if (overwrite.empty())
              base = in.child_frame_id;
          }
          else
          {
            r.expect(!p.can, "P20", match ? "no-transform" : "not-published", [&] { return strf("pair of odometry %.6f and IMU %.6f is due, the one published is stamped %.6f", p.o->header.stamp.toSec(), p.i->header.stamp.toSec(), m.header.stamp.toSec()); });
            if (overwrite.empty())
              base = p.o->child_frame_id;
            has_imu = false;
          }
        }
        q.pop_front();
      }
      r.expect(found, "P20", "unexpected", [&] { return strf("odometry stamped %.6f comes of no pair of odometry and IMU", m.header.stamp.toSec()); });
      if (r.failed || !found)
        return;
      dt = (in.header.stamp - raw_prev.header.stamp).toSec();
      n_back += dt < 0;
      n_gap += dt > 1;
      step(in, dt, v);
    }
    if (first && early_reset && std::abs(m.pose.pose.position.z) < 1e-12)
      pos.z() = 0;
    V e = pos + v;
    const double z0 = e.z();
    if (zt > 0)
      e.z() *= 1 - std::min(1.0, std::max(0.0, dt / zt));
    const V got = toV(m.pose.pose.position);
    if (first && std::abs(got.z()) >= std::abs(e.z()) - 1e-9 && std::abs(got.z()) <= std::abs(z0) + 1e-9 && got.z() * z0 >= 0)
      e.z() = got.z();
    const double err = (got - e).norm();
    const double lim = 1e-6 * (1 + e.norm() + v.norm()) + (without && zt > 0 ? std::abs(z0) * 0.05 / zt : 0);
    r.expect(err < lim, "P20", "position", [&] { return strf("position %.6f %.6f %.6f expected %.6f %.6f %.6f (raw displacement %.6f, dt %.4f, slip %.6f)", got.x(), got.y(), got.z(), e.x(), e.y(), e.z(), without ? 0 : (toV(in.pose.pose.position) - toV(raw_prev.pose.pose.position)).norm(), dt, kx); });
    if (zt > 0)
      r.expect(std::abs(got.z()) <= std::abs(z0) + 1e-9 && got.z() * z0 >= -1e-9, "P20", "height", [&] { return strf("the height filter made %.6f of %.6f", got.z(), z0); });
    const Q gq = toQ(m.pose.pose.orientation);
    r.expect(qdist(gq, att) < 1e-6, "P20", "attitude", [&] { return strf("orientation %.6f %.6f %.6f %.6f, the IMU in the base frame is %.6f %.6f %.6f %.6f", gq.x(), gq.y(), gq.z(), gq.w(), att.x(), att.y(), att.z(), att.w()); });
    r.expect((toV(m.twist.twist.angular) - gyro).norm() < 1e-6 * (1 + gyro.norm()), "P20", "gyro", [&] { return strf("angular velocity %.5f, gyro says %.5f", m.twist.twist.angular.z, gyro.z()); });
    r.expect((toV(m.twist.twist.linear) - toV(in.twist.twist.linear)).norm() < 1e-9, "P20", "speed", [&] { return strf("linear velocity %.5f, raw is %.5f", m.twist.twist.linear.x, in.twist.twist.linear.x); });
    r.expect(m.header.frame_id == in.header.frame_id, "P20", "frame", [&] { return "frame " + m.header.frame_id; });
    r.expect(m.child_frame_id == base, "P20", "frame", [&] { return "child frame " + m.child_frame_id + " expected " + base; });
    if (without)
      pos = got;
    else
    {
      pos = got;
      raw_prev = in;
    }
  }
  void tfOut(const geometry_msgs::TransformStamped& t)
  {
    r.expect(n_tf_due == 1, "P20", "tf-extra", [&] { return std::string("transform published without odometry"); });
    n_tf_due = 0;
    const auto& o = last_pub;
    const bool ok = t.header.frame_id == o.header.frame_id && t.header.stamp == o.header.stamp && t.child_frame_id == o.child_frame_id &&
                    (toV(t.transform.translation) - toV(o.pose.pose.position)).norm() < 1e-9 && qdist(toQ(t.transform.rotation), toQ(o.pose.pose.orientation)) < 1e-9;
    r.expect(ok, "P20", "tf-differs", [&] { return strf("transform %s -> %s at %.6f differs from the odometry published with it", t.header.frame_id.c_str(), t.child_frame_id.c_str(), t.header.stamp.toSec()); });
  }
};
void odo(Run& r)
{
  const std::string name = "/track_odometry";
  auto* k = new Odo(r, name);
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const std::string pn = name + "/";
  const bool compat = g.p(0.3);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  if (g.p(0.2))
    s.setParam(pn + "without_odom", k->without = true);
  if (g.p(0.5))
    s.setParam(pn + "base_link_id", k->overwrite = k->without ? "robot" : "base_link");
  if (k->without && g.p(0.5))
    s.setParam(pn + "odom_id", k->odom_id = "world");
  if (g.p(0.3))
    s.setParam(pn + "sync_window", k->window = static_cast<int>(g.i(2, 20)));
  if (g.p(0.3))
    s.setParam(pn + "publish_tf", k->publish_tf = false);
  if (g.p(0.4))
    s.setParam(pn + "use_kf", k->use_kf = false);
  if (g.p(0.4))
    s.setParam(pn + "enable_negative_slip", k->neg = true);
  if (g.p(0.5))
    s.setParam(pn + "tf_tolerance", k->tol = g.pick({0.0, 0.05, 0.2}));
  if (g.p(0.2))
  {
    const double z = g.pick({0.99, 0.9, 0.0, 1.0, 0.5});
    s.setParam(pn + "z_filter", z);
    k->zt = z > 0 && z < 1 ? 0.01 / (1 - z) : -1;
  }
  else if (g.p(0.5))
    s.setParam(pn + "z_filter_timeconst", k->zt = g.p(0.1) ? 0.0 : g.logu(0.02, 20));
  if (g.p(0.5))
    s.setParam(pn + "sigma_odom", k->sig_o = g.p(0.25) ? 0.0 : g.logu(0.001, 0.2));
  if (g.p(0.5))
    s.setParam(pn + "sigma_predict", k->sig_p = g.p(0.2) ? 0.0 : g.logu(0.05, 3));
  if (g.p(0.5))
    s.setParam(pn + "predict_filter_tc", k->tc = g.p(0.1) ? 0.0 : g.logu(0.1, 5));
  r.note("without_odom", k->without);
  r.note("use_kf", k->use_kf);
  r.note("z", k->zt);
  r.note("sigma_odom", k->sig_o);
  r.note("tc", k->tc);
  k->boot();
  const std::string imu_topic = k->without ? (compat ? "/imu" : "/imu/data") : (compat ? "/imu" : "/imu/data");
  const std::string reset_topic = compat ? pn + "reset_z" : "/reset_odometry_z";
  s.tap<nav_msgs::Odometry>("/odom", [k](const nav_msgs::Odometry& m, Node* n) {
    if (n == k->node)
      k->published(m);
  });
  s.tap<tf2_msgs::TFMessage>("/tf", [k](const tf2_msgs::TFMessage& m, Node* n) {
    if (n == k->node)
      for (auto& t : m.transforms)
        k->tfOut(t);
  });
  s.onExec<nav_msgs::Odometry>(name, "/odom_raw", [k](const nav_msgs::Odometry& m, Node*) { k->onOdom(m); });
  s.onExec<sensor_msgs::Imu>(name, imu_topic, [k](const sensor_msgs::Imu& m, Node*) { k->onImu(m); });
  s.onExec<std_msgs::Float32>(name, reset_topic, [k](const std_msgs::Float32& m, Node*) {
    k->flush();
    if (k->without && !k->ticked)
      k->early_reset = true;  // the first tick, which is not seen, may come later and start anew
    k->pos.z() = m.data;
    ++k->n_reset;
  });
  k->node = s.spawn(name, track_odometry_main);
  keepServing(r, k->node);
  // the world: raw odometry and IMU streams
  const ns_t T = s.t_start;
  struct W
  {
    Pose2 p;
    double z = 0, v = 0, w = 0, vz = 0, slip = 0;
    Q imu = Q::Identity();
    V wi = V::Zero();
    double roll = 0, pitch = 0, yaw = 0;
    bool odom_on = true, imu_on = true;
  };
  auto* w = new W;
  w->p = Pose2(g.uni(-100, 100), g.uni(-100, 100), g.uni(-3, 3));
  w->yaw = w->p.th;
  const bool agree = g.p(0.2), tilt = !agree && g.p(0.6);
  if (!agree)
    w->yaw += g.uni(-3, 3);
  const std::string base = k->without && !k->overwrite.empty() ? k->overwrite : "base_link";
  const bool mounted = g.p(0.7);
  const std::string imu_frame = mounted ? "imu_link" : base;
  const Q mount = mounted ? (g.p(0.3) ? Q(Eigen::AngleAxisd(g.pick({0.5, 1.0, -0.5}) * M_PI, V::UnitZ())) : rndQ(g, 1.5)) : Q::Identity();
  r.note("agree", agree);
  r.note("mounted", mounted);
  const double op = g.pick({0.01, 0.02, 0.05, 0.1}), ip = g.pick({0.005, 0.01, 0.02, 0.05});
  const double oj = g.p(0.5) ? 0 : g.uni(0, 0.02), ij = g.p(0.5) ? 0 : g.uni(0, 0.01);
  Rng jr = r.rng("jitter");
  s.every(T, 5 * MS, [=] {
    w->p = w->p * Pose2(w->v * 0.005, 0, w->w * 0.005);
    w->z += w->vz * 0.005;
    w->yaw += w->w * (1 - w->slip) * 0.005;
    if (tilt)
    {
      w->roll = 0.4 * std::sin(w->p.x);
      w->pitch = 0.5 * std::sin(0.7 * w->p.y + 1);
    }
    w->imu = Q(Eigen::AngleAxisd(agree ? w->p.th : w->yaw, V::UnitZ()) * Eigen::AngleAxisd(w->pitch, V::UnitY()) * Eigen::AngleAxisd(w->roll, V::UnitX()));
    w->wi = V(0, 0, agree ? w->w : w->w * (1 - w->slip));
  });
  auto po = s.pub<nav_msgs::Odometry>("/odom_raw");
  auto pi = s.pub<sensor_msgs::Imu>(imu_topic);
  auto pz = s.pub<std_msgs::Float32>(reset_topic);
  auto* jg = new Rng(jr);
  auto seq = std::make_shared<uint32_t>(0);
  if (!k->without)
    s.every(T + sec(g.uni(0, op)), sec(op), [=, &s] {
      if (!w->odom_on)
        return;
      nav_msgs::Odometry m;
      m.header.stamp = rosTime(s.now);
      m.header.frame_id = "odom";
      m.child_frame_id = "base_link";
      m.pose.pose.position.x = w->p.x;
      m.pose.pose.position.y = w->p.y;
      m.pose.pose.position.z = w->z;
      m.pose.pose.orientation = quatYaw(w->p.th);
      m.twist.twist.linear.x = w->v;
      m.twist.twist.angular.z = w->w;
      if (oj > 0)
        s.after(sec(jg->uni(0, oj)), [=] { po(m); });
      else
        po(m);
    });
  s.every(T + (g.p(0.3) ? 0 : sec(g.uni(0, ip))), sec(ip), [=, &s] {
    if (!w->imu_on)
      return;
    sensor_msgs::Imu m;
    m.header.stamp = rosTime(s.now);
    m.header.frame_id = imu_frame;
    // the sensor turned by the mounting
    m.orientation = fromQ<geometry_msgs::Quaternion>(mount.conjugate() * w->imu * mount);
    const V wv = mount.conjugate() * w->wi;
    m.angular_velocity.x = wv.x();
    m.angular_velocity.y = wv.y();
    m.angular_velocity.z = wv.z();
    m.linear_acceleration.z = 9.8;
    if (ij > 0)
      s.after(sec(jg->uni(0, ij)), [=] { pi(m); });
    else
      pi(m);
  });
  auto* tp = new TfPub(s);
  if (mounted)
  {
    const ns_t late = g.p(0.3) ? sec(g.uni(0, 3)) : 0;
    s.at(T + late, [=, &s] { tp->sendStatic(tf3(base, imu_frame, s.now, V(0.1, 0, 0.3), mount)); });
  }
  Rng o = r.rng("ops");
  const ns_t end = T + sec(o.uni(4, 25));
  const double span = (end - T) * 1e-9;
  const int n = static_cast<int>(o.i(2, 10));
  for (int i = 0; i < n; ++i)
  {
    const double v = o.p(0.2) ? 0 : o.uni(-1, 2), wz = o.p(0.3) ? 0 : o.p(0.2) ? o.uni(-0.02, 0.02) : o.uni(-2, 2), vz = o.p(0.4) ? o.uni(-0.5, 0.5) : 0;
    const double slip = o.p(0.2) ? 0 : o.p(0.15) ? o.uni(1, 1.5) : o.uni(-0.3, 0.6);
    r.op(i == 0 ? T : T + sec(o.uni(0, span)), strf("motion %.2f m/s %.2f rad/s %.2f m/s up, slip %.2f", v, wz, vz, slip), [=] {
      w->v = v;
      w->w = wz;
      w->vz = vz;
      w->slip = slip;
    });
  }
  const int nr = static_cast<int>(o.i(0, 4));
  for (int i = 0; i < nr; ++i)
  {
    const double z = o.uni(-5, 5);
    r.op(T + sec(o.uni(0, span)), strf("reset z %.2f", z), [=] {
      std_msgs::Float32 m;
      m.data = static_cast<float>(z);
      pz(m);
    });
  }
  const int ng = static_cast<int>(o.i(0, 2));
  for (int i = 0; i < ng; ++i)
  {
    const bool od = o.p(0.5);
    const double d = o.logu(0.2, 12);
    r.op(T + sec(o.uni(0, span)), strf("%s pauses for %.2f s", od ? "odometry" : "IMU", d), [=, &s] {
      (od ? w->odom_on : w->imu_on) = false;
      s.after(sec(d), [=] { (od ? w->odom_on : w->imu_on) = true; });
    });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/odom_raw->", imu_topic + "->", "/tf_static", "->"};
    mix.max_delay = 0.5;
    mix.max_partition = 4;
    netFaults(r, mix, T, end, 6);
    Rng f = r.rng("extra");
    const int nst = static_cast<int>(f.i(0, 2));
    for (int i = 0; i < nst; ++i)
    {
      const double d = f.logu(0.01, 3);
      r.faultAt("stall", strf("%.3f s", d), T + sec(f.uni(0.2, span)), [=, &s] { s.stall(k->node, sec(d)); k->busy_until = std::max(k->busy_until, s.now + sec(d) + 200 * MS); });
    }
    if (f.p(0.25))
      r.faultAt("crash", name, T + sec(f.uni(0.5, span)), [=, &s] {
        s.kill(k->node);
        s.after(sec(0.3), [=, &s] {
          k->boot();
          s.restart(k->node);
        });
      });
  }
  // the timer of the mode without odometry publishes at its rate
  if (k->without)
    s.every(T + 20 * MS, 20 * MS, [k, &r, &s] {
      if (!k->node->fiber || k->node->done || s.now < k->busy_until || !k->has_imu || !k->imu_known)
        k->good_since = -1;
      else if (k->good_since < 0)
        k->good_since = s.now;
      if (k->good_since >= 0)
        r.expect(s.now - std::max(k->good_since, k->last_pub_t) < 300 * MS, "P20", "not-published", [&] { return strf("nothing published for %.3f s although the attitude is known", (s.now - std::max(k->good_since, k->last_pub_t)) * 1e-9); });
    });
  s.run(end);
  if (k->node->fiber && !k->node->done && s.now > k->busy_until + SEC)
  {
    s.run(end + 500 * MS);
  }
  s.probe("odo.published", k->n_pub);
  s.probe("odo.pairs", k->n_pair);
  s.probe("odo.resets", k->n_reset);
  s.probe("odo.slip", k->n_turn);
  s.probe("odo.stamp_back", k->n_back);
  s.probe("odo.gap", k->n_gap);
  s.state(mix64(k->n_pub * 1000 + k->n_reset * 100 + k->n_turn * 10 + k->n_back));
}
// ---------------------------------------------------------------------------------------------
// P21
struct Proj
{
  Run& r;
  Sim& s;
  Node* node = nullptr;
  TfRef tf;
  std::string source = "base_link", surface = "map", parent = "map", out = "base_link_projected";
  double hz = 10, tol = 0.1;
  bool flat = false, posture = false, align = false;
  struct L
  {
    ns_t from;
    ros::Time t;
  };
  std::deque<L> latest;  // latest common times of surface <- source and since when they were
  ns_t busy_until = 0, good_since = -1, last_pub = 0;
  uint64_t n_dyn = 0, n_stat = 0;
  Proj(Run& rr, const std::string& n) : r(rr), s(rr.sim), tf(rr.sim, n)
  {
    tf.changed = [this] { upd(); };
  }
  void upd()
  {
    tf2::Stamped<tf2::Transform> t;
    if (tf.get(surface, source, ros::Time(0), t) && (latest.empty() || latest.back().t != t.stamp_))
      latest.push_back(L{s.now, t.stamp_});
    while (latest.size() > 2 && latest[1].from < s.now - 5 * SEC)
      latest.pop_front();
  }
  static tf2::Quaternion yawQ(double y) { return tf2::Quaternion(0, 0, std::sin(y / 2), std::cos(y / 2)); }
  static double yawT(const tf2::Quaternion& q) { return std::atan2(2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z())); }
  bool expected(ros::Time t, V& p, Q& q) const
  {
    tf2::Stamped<tf2::Transform> a, b;
    if (!tf.get(surface, source, t, a) || !tf.get(parent, surface, t, b))
      return false;
    tf2::Quaternion rot = a.getRotation();
    tf2::Vector3 tr = a.getOrigin();
    if (posture)
    {
      const tf2::Quaternion yaw = yawQ(yawT(rot));
      if (align)
        tr = tf2::Transform(yaw * rot.inverse()) * tr;
      rot = yaw;
    }
    tr.setZ(0);
    const tf2::Vector3 pp = b * tr;
    tf2::Quaternion qq = b.getRotation() * rot;
    if (flat)
      qq = yawQ(yawT(qq));
    p = V(pp.x(), pp.y(), pp.z());
    q = Q(qq.w(), qq.x(), qq.y(), qq.z());
    return true;
  }
  void published(const geometry_msgs::TransformStamped& m, bool st)
  {
    ++(st ? n_stat : n_dyn);
    last_pub = s.now;
    r.nontrivial = true;
    r.expect(m.header.frame_id == parent && m.child_frame_id == out, "P21", "frames", [&] { return "published " + m.header.frame_id + " -> " + m.child_frame_id; });
    const ros::Time t = st ? ros::Time(0) : m.header.stamp - ros::Duration(tol);
    if (st)
      r.expect(m.header.stamp.isZero(), "P21", "stamp", [&] { return strf("static transform stamped %.6f", m.header.stamp.toSec()); });
    bool known = false, fresh = false;
    ros::Time tt = t;
    for (size_t i = 0; i < latest.size(); ++i)
      if (std::abs((latest[i].t - t).toSec()) < 1e-8 && latest[i].t.isZero() == st)
      {
        known = true;
        tt = latest[i].t;
        fresh = fresh || i + 1 >= latest.size() || latest[i + 1].from >= s.now - 400 * MS || s.now < busy_until;
      }
    r.expect(known, "P21", "stamp", [&] { return strf("stamped %.6f: no time of the source (latest %.6f) plus the tolerance", m.header.stamp.toSec(), latest.empty() ? 0.0 : latest.back().t.toSec()); });
    r.expect(fresh || !known, "P21", "stale", [&] { return strf("stamped %.6f although %.6f came long ago", m.header.stamp.toSec(), latest.back().t.toSec()); });
    if (r.failed)
      return;
    V p;
    Q q;
    const bool ok = expected(tt, p, q);
    r.expect(ok, "P21", "unavailable", [&] { return strf("published for %.6f at which the transforms are not available", tt.toSec()); });
    if (!ok || r.failed)
      return;
    const V gp = toV(m.transform.translation);
    const Q gq = toQ(m.transform.rotation);
    r.expect((gp - p).norm() < 1e-5 * (1 + p.norm()), "P21", "position", [&] { return strf("position %.6f %.6f %.6f expected %.6f %.6f %.6f", gp.x(), gp.y(), gp.z(), p.x(), p.y(), p.z()); });
    r.expect(qdist(gq, q) < 1e-5, "P21", "posture", [&] { return strf("orientation %.6f %.6f %.6f %.6f expected %.6f %.6f %.6f %.6f", gq.x(), gq.y(), gq.z(), gq.w(), q.x(), q.y(), q.z(), q.w()); });
  }
  double wait = 0.09;
  void tick()
  {
    tf2::Stamped<tf2::Transform> a;
    bool good = node->fiber && !node->done && s.now >= busy_until && tf.get(surface, source, ros::Time(0), a);
    if (good && !a.stamp_.isZero())
    {
      // parent <- surface at the time of the source comes within the wait
      tf2::Stamped<tf2::Transform> b;
      good = tf.get(parent, surface, ros::Time(0), b) && (b.stamp_.isZero() || parent == surface || tf.can(parent, surface, a.stamp_) || (prompt && b.stamp_ < a.stamp_ && (b.stamp_ - a.stamp_).toSec() > -0.05 && (rosTime(s.now) - b.stamp_).toSec() < 0.08));
    }
    else if (good)
      good = tf.can(parent, surface);
    if (!good)
      good_since = -1;
    else if (good_since < 0)
      good_since = s.now;
    if (good_since >= 0)
      r.expect(s.now - std::max(good_since, last_pub) < sec(1.5 / hz + 0.25), "P21", "not-published", [&] { return strf("both transforms are available but nothing was published for %.3f s (rate %.1f Hz)", (s.now - std::max(good_since, last_pub)) * 1e-9, hz); });
  }
  bool prompt = false;
};
void proj(Run& r)
{
  const std::string name = "/tf_projection";
  auto* k = new Proj(r, name);
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const std::string pn = name + "/";
  const ns_t T = s.t_start;
  // topology of the frames
  const int top = static_cast<int>(g.i(0, 5));
  struct E
  {
    std::string parent, child;
    bool st;
    double period, future;
    V p, v;
    Q q;
    V w;  // rotation vector speed in the child frame
    bool on = true;
  };
  auto* es = new std::vector<E>;
  auto add = [&](const std::string& a, const std::string& b, bool st, double tilt, bool flat) {
    E e;
    e.parent = a;
    e.child = b;
    e.st = st;
    e.period = g.pick({0.01, 0.02, 0.033, 0.05, 0.1});
    e.future = 0;
    e.p = V(g.uni(-5, 5), g.uni(-5, 5), flat ? 0 : g.uni(-3, 3));
    e.v = st ? V(0, 0, 0) : V(g.uni(-1, 1), g.uni(-1, 1), flat ? 0 : g.uni(-0.3, 0.3));
    e.q = rndQ(g, tilt);
    e.w = st ? V(0, 0, 0) : V(tilt > 0 ? g.uni(-0.05, 0.05) : 0, tilt > 0 ? g.uni(-0.05, 0.05) : 0, g.uni(-1, 1));
    es->push_back(e);
  };
  switch (top)
  {
    case 0:  // robot over odom, projected on odom, published in map
      k->surface = "odom";
      add("map", "odom", g.p(0.3), g.p(0.5) ? 0 : 0.3, g.p(0.5));
      add("odom", "base_link", false, 0.5, false);
      break;
    case 1:
      add("map", "odom", g.p(0.5), g.p(0.5) ? 0 : 0.3, false);
      add("odom", "base_link", false, 0.5, false);
      break;
    case 2:  // a tilted floor
      k->surface = "floor";
      add("map", "floor", true, 0.6, false);
      add("map", "base_link", false, 0.5, false);
      break;
    case 3:  // nothing moves
      add("map", "base_link", true, 0.6, false);
      if (g.p(0.5))
      {
        k->surface = "floor";
        add("map", "floor", true, 0.5, false);
      }
      break;
    case 4:  // a sensor
      k->source = "sensor";
      add("map", "odom", false, 0, true);
      add("odom", "base_link", false, 0.4, false);
      add("base_link", "sensor", true, 0.5, false);
      break;
    default:  // surface moving: a carrying vehicle
      k->surface = "deck";
      add("map", "deck", false, 0.3, false);
      add("deck", "base_link", false, 0.5, false);
      break;
  }
  for (auto& e : *es)
    if (!e.st && g.p(0.25) && e.parent == "map" && e.child != "base_link")
      e.future = g.uni(0.05, 0.3);
  if (g.p(0.5))
    k->out = "projected";
  const bool old = g.p(0.3);
  if (old || k->source != "base_link" || g.p(0.5))
    s.setParam(pn + (old ? "base_link_frame" : "source_frame"), k->source);
  if (k->surface != "map" || g.p(0.3))
    s.setParam(pn + (old ? "projection_frame" : "projection_surface_frame"), k->surface);
  if (g.p(0.3))
    s.setParam(pn + (old ? "target_frame" : "parent_frame"), k->parent);
  if (k->out != "base_link_projected")
    s.setParam(pn + (old ? "frame" : "projected_frame"), k->out);
  if (g.p(0.6))
    s.setParam(pn + "hz", k->hz = g.pick({1.0, 5.0, 20.0, 50.0}));
  if (g.p(0.6))
    s.setParam(pn + "tf_tolerance", k->tol = g.pick({0.0, 0.02, 0.5}));
  if (g.p(0.4))
    s.setParam(pn + "flat", k->flat = true);
  if (g.p(0.6))
  {
    s.setParam(pn + "project_posture", k->posture = true);
    if (g.p(0.5))
      s.setParam(pn + "align_all_posture_to_source", k->align = true);
  }
  else if (g.p(0.2))
    s.setParam(pn + "align_all_posture_to_source", true);  // without effect
  r.note("topology", top);
  r.note("flat", k->flat);
  r.note("posture", k->posture);
  r.note("align", k->align);
  r.note("hz", k->hz);
  k->prompt = !r.faults;
  s.tap<tf2_msgs::TFMessage>("/tf", [k](const tf2_msgs::TFMessage& m, Node* n) {
    if (n == k->node)
      for (auto& t : m.transforms)
        k->published(t, false);
  });
  s.tap<tf2_msgs::TFMessage>("/tf_static", [k](const tf2_msgs::TFMessage& m, Node* n) {
    if (n == k->node)
      for (auto& t : m.transforms)
        k->published(t, true);
  });
  k->node = s.spawn(name, tf_projection_main);
  keepServing(r, k->node);
  auto* tp = new TfPub(s);
  s.every(T, 5 * MS, [es] {
    for (auto& e : *es)
    {
      e.p += e.v * 0.005;
      const double a = e.w.norm() * 0.005;
      if (a > 0)
        e.q = (e.q * Q(Eigen::AngleAxisd(a, e.w.normalized()))).normalized();
    }
  });
  for (size_t i = 0; i < es->size(); ++i)
  {
    const E& e = (*es)[i];
    if (e.st)
      s.at(T + (g.p(0.3) ? sec(g.uni(0, 2)) : 0), [=, &s] { tp->sendStatic(tf3((*es)[i].parent, (*es)[i].child, s.now, (*es)[i].p, (*es)[i].q)); });
    else
    {
      const ns_t lag = g.p(0.2) ? sec(g.uni(0, 0.03)) : 0;
      s.every(T + sec(g.uni(0, e.period)), sec(e.period), [=, &s] {
        const E& x = (*es)[i];
        if (!x.on)
          return;
        const auto m = tf3(x.parent, x.child, s.now + sec(x.future), x.p, x.q);
        s.after(lag, [=] { tp->send(m); });
      });
    }
  }
  Rng o = r.rng("ops");
  const ns_t end = T + sec(o.uni(4, 15));
  const double span = (end - T) * 1e-9;
  const int n = static_cast<int>(o.i(0, 6));
  for (int i = 0; i < n; ++i)
  {
    const size_t j = static_cast<size_t>(o.i(0, static_cast<int>(es->size()) - 1));
    const V v(o.uni(-2, 2), o.uni(-2, 2), o.uni(-0.5, 0.5));
    const double wz = o.uni(-2, 2);
    if (!(*es)[j].st)
      r.op(T + sec(o.uni(0, span)), "motion", [=] {
        (*es)[j].v = v;
        (*es)[j].w.z() = wz;
      });
  }
  const int no = static_cast<int>(o.i(0, 3));
  for (int i = 0; i < no; ++i)
  {
    const size_t j = static_cast<size_t>(o.i(0, static_cast<int>(es->size()) - 1));
    const double d = o.logu(0.1, 4);
    if (!(*es)[j].st)
      r.op(T + sec(o.uni(0, span)), strf("%s is not published for %.2f s", (*es)[j].child.c_str(), d), [=, &s] {
        (*es)[j].on = false;
        s.after(sec(d), [=] { (*es)[j].on = true; });
      });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/tf->", "/tf", "/tf_static"};
    mix.max_delay = 0.4;
    mix.max_partition = 3;
    netFaults(r, mix, T, end, 6);
    Rng f = r.rng("extra");
    const int nst = static_cast<int>(f.i(0, 2));
    for (int i = 0; i < nst; ++i)
    {
      const double d = f.logu(0.01, 2);
      r.faultAt("stall", strf("%.3f s", d), T + sec(f.uni(0.2, span)), [=, &s] {
        s.stall(k->node, sec(d));
        k->busy_until = std::max(k->busy_until, s.now + sec(d) + 500 * MS);
      });
    }
    if (f.p(0.25))
      r.faultAt("crash", name, T + sec(f.uni(0.5, span)), [=, &s] {
        s.kill(k->node);
        k->busy_until = s.now + SEC;
        s.after(300 * MS, [=, &s] {
          k->tf.reset();
          k->latest.clear();
          k->good_since = -1;
          s.restart(k->node);
        });
      });
  }
  s.every(T + 20 * MS, 20 * MS, [k] { k->tick(); });
  s.run(end);
  s.probe("proj.dynamic", k->n_dyn);
  s.probe("proj.static", k->n_stat);
  s.state(mix64(k->n_dyn * 100 + k->n_stat * 10 + static_cast<uint64_t>(top)));
}
// ---------------------------------------------------------------------------------------------
// dummy_robot (P31)
struct Dummy
{
  Run& r;
  Sim& s;
  Node* node = nullptr;
  TfRef tf;
  struct St
  {
    double x = 0, y = 0, yaw = 0, v = 0, w = 0;
  };
  St init;
  struct Ev
  {
    bool pose;
    ns_t t;
    geometry_msgs::PoseStamped p;
    bool avail;  // the transform was there when the message was processed, or came soon enough
    double v, w;
    bool can = false;  // it is or was available
    ns_t can_t = 0;
    std::vector<St> set;
  };
  std::vector<Ev> evs;      // processed since the last publication
  std::vector<St> cand;     // states the robot may have
  bool has_odom = false;
  nav_msgs::Odometry pend;  // transform published, odometry to follow
  geometry_msgs::TransformStamped last_tf;
  bool has_tf = false;
  ns_t last_pub = 0, busy_until = 0;
  double last_stamp = -1;
  int n_pub = 0, n_set = 0, n_refused = 0, n_twist = 0;
  Dummy(Run& rr, const std::string& n) : r(rr), s(rr.sim), tf(rr.sim, n)
  {
    tf.changed = [this] { upd(); };
  }
  void upd()
  {
    for (auto& e : evs)
    {
      tf2::Stamped<tf2::Transform> t;
      // the node may have waited for it and look for it each 10 ms: what came meanwhile may be newer
      if (!e.pose || (e.can && (e.can_t == e.t || s.now - e.can_t > 20 * MS)) || !tf.get("odom", e.p.header.frame_id, e.p.header.stamp, t))
        continue;
      if (!e.can)
      {
        e.can = true;
        e.can_t = s.now;
        e.avail = s.now - e.t < 900 * MS;
      }
      St n;
      tf2::Transform in;
      tf2::fromMsg(e.p.pose, in);
      const tf2::Transform o = t * in;
      n.x = o.getOrigin().x();
      n.y = o.getOrigin().y();
      n.yaw = tf2::getYaw(o.getRotation());
      e.set.push_back(n);
    }
  }
  void restart()
  {
    evs.clear();
    cand = {init};
    has_tf = false;
    last_stamp = -1;
  }
  void onTwist(const geometry_msgs::Twist& m) { evs.push_back(Ev{false, s.now, {}, false, m.linear.x, m.angular.z}); }
  void onInit(const geometry_msgs::PoseWithCovarianceStamped& m)
  {
    Ev e{true, s.now, {}, false, 0, 0};
    e.p.header = m.header;
    e.p.pose = m.pose.pose;
    busy_until = std::max(busy_until, s.now + 1200 * MS);
    evs.push_back(e);
    upd();
  }
  static double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }
  void onTf(const geometry_msgs::TransformStamped& m)
  {
    r.expect(m.header.frame_id == "odom" && m.child_frame_id == "base_link", "P31", "frames", [&] { return "transform " + m.header.frame_id + " -> " + m.child_frame_id; });
    r.expect(!has_tf, "P31", "tf-without-odom", [&] { return std::string("a second transform came before the odometry of the first one"); });
    last_tf = m;
    has_tf = true;
  }
  void onOdom(const nav_msgs::Odometry& m)
  {
    const double yaw = tf2::getYaw(m.pose.pose.orientation);
    const auto& p = m.pose.pose.position;
    ++n_pub;
    r.expect(m.header.frame_id == "odom" && m.child_frame_id == "base_link", "P31", "frames", [&] { return "odometry " + m.header.frame_id + " -> " + m.child_frame_id; });
    r.expect(has_tf && last_tf.header.stamp == m.header.stamp && last_tf.transform.translation.x == p.x && last_tf.transform.translation.y == p.y && qdist(toQ(last_tf.transform.rotation), toQ(m.pose.pose.orientation)) < 1e-9, "P31", "tf-differs",
             [&] { return has_tf ? strf("transform (%.6f %.6f) at %.6f, odometry (%.6f %.6f) at %.6f", last_tf.transform.translation.x, last_tf.transform.translation.y, last_tf.header.stamp.toSec(), p.x, p.y, m.header.stamp.toSec()) : std::string("odometry without transform"); });
    has_tf = false;
    const double now = (s.now + node->clock_off) * 1e-9;
    r.expect(std::abs(now - m.header.stamp.toSec()) < 0.02 || s.now < busy_until, "P31", "stamp", [&] { return strf("stamped %.6f at %.6f", m.header.stamp.toSec(), now); });
    r.expect(m.header.stamp.toSec() > last_stamp, "P31", "stamp-order", [&] { return strf("stamped %.6f after %.6f", m.header.stamp.toSec(), last_stamp); });
    last_stamp = m.header.stamp.toSec();
    r.expect(p.z == 0, "P31", "position", [&] { return strf("height %.6f", p.z); });
    last_pub = s.now;
    // apply what was processed
    for (auto& e : evs)
    {
      std::vector<St> n;
      for (auto c : cand)
      {
        if (!e.pose)
        {
          c.v = e.v;
          c.w = e.w;
          n.push_back(c);
          continue;
        }
        r.nontrivial = true;
        if (e.can)
        {
          n.insert(n.end(), e.set.begin(), e.set.end());
          ++n_set;
        }
        else
        {
          ++n_refused;
          r.expect(s.now - e.t > 900 * MS, "P31", "refused-early", [&] { return strf("initial pose in %s given up after %.3f s", e.p.header.frame_id.c_str(), (s.now - e.t) * 1e-9); });
        }
        if (!e.avail)
          n.push_back(c);
      }
      cand = n;
    }
    evs.clear();
    std::vector<St> n;
    std::string why;
    for (auto c : cand)
    {
      c.yaw += c.w * 0.01;
      c.x += std::cos(c.yaw) * c.v * 0.01;
      c.y += std::sin(c.yaw) * c.v * 0.01;
      const double e = std::hypot(c.x - p.x, c.y - p.y), a = std::abs(wrap(c.yaw - yaw));
      const double tol = 1e-6 * (1 + std::hypot(c.x, c.y) + std::abs(c.v) + std::abs(c.yaw) * 0.01);
      if (e < tol && a < 1e-6 * (1 + std::abs(c.yaw) + std::abs(c.w)) && std::abs(m.twist.twist.linear.x - c.v) < 1e-6 * (1 + std::abs(c.v)) && std::abs(m.twist.twist.angular.z - c.w) < 1e-6 * (1 + std::abs(c.w)))
      {
        c.x = p.x;
        c.y = p.y;
        c.yaw = yaw;
        n.push_back(c);
      }
      else
        why += strf(" (%.6f %.6f %.6f) with velocity %.4f %.4f", c.x, c.y, wrap(c.yaw), c.v, c.w);
    }
    r.expect(!n.empty(), "P31", "motion", [&] { return strf("published (%.6f %.6f %.6f) with velocity %.4f %.4f, expected", p.x, p.y, yaw, m.twist.twist.linear.x, m.twist.twist.angular.z) + why; });
    if (n.empty())  // go on from what was published
    {
      St c;
      c.x = p.x;
      c.y = p.y;
      c.yaw = yaw;
      c.v = m.twist.twist.linear.x;
      c.w = m.twist.twist.angular.z;
      n = {c};
    }
    if (n.size() > 8)
      n.resize(8);
    cand = n;
    s.state(mix64(static_cast<uint64_t>(std::llround(cand[0].v * 4)) * 1000 + static_cast<uint64_t>(std::llround(cand[0].w * 4)) * 10 + static_cast<uint64_t>(n_set)));
  }
};
void dummy(Run& r)
{
  const std::string name = "/dummy_robot";
  auto* k = new Dummy(r, name);
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const ns_t T = s.t_start;
  if (g.p(0.7))
  {
    s.setParam(name + "/initial_x", k->init.x = g.uni(-20, 20));
    s.setParam(name + "/initial_y", k->init.y = g.uni(-20, 20));
    s.setParam(name + "/initial_yaw", k->init.yaw = g.uni(-4, 4));
  }
  k->cand = {k->init};
  r.note("x", k->init.x);
  r.note("yaw", k->init.yaw);
  const int level = static_cast<int>(g.i(0, 1));
  s.setParam("/neonavigation_compatible", level);
  s.onExec<geometry_msgs::Twist>(name, "/cmd_vel", [k](const geometry_msgs::Twist& m, Node*) { k->onTwist(m); });
  s.onExec<geometry_msgs::PoseWithCovarianceStamped>(name, "/initialpose", [k](const geometry_msgs::PoseWithCovarianceStamped& m, Node*) { k->onInit(m); });
  s.tap<tf2_msgs::TFMessage>("/tf", [k](const tf2_msgs::TFMessage& m, Node* n) {
    if (n == k->node)
      for (auto& t : m.transforms)
        k->onTf(t);
  });
  s.tap<nav_msgs::Odometry>("/odom", [k](const nav_msgs::Odometry& m, Node* n) {
    if (n == k->node)
      k->onOdom(m);
  });
  k->node = s.spawn(name, dummy_robot_main);
  keepServing(r, k->node);
  // localization: map -> odom
  auto* tp = new TfPub(s);
  Rng o = r.rng("ops");
  const bool st = g.p(0.3);
  const V mp(g.uni(-10, 10), g.uni(-10, 10), 0);
  const Q mq = rndQ(g, 0);
  struct Loc
  {
    V p;
    double yaw = 0, vx = 0, w = 0;
    bool on = true;
  };
  auto* loc = new Loc;
  loc->p = mp;
  loc->vx = g.uni(-0.3, 0.3);
  loc->w = g.uni(-0.2, 0.2);
  if (st)
    s.at(T + (g.p(0.3) ? sec(g.uni(0, 3)) : 0), [=, &s] { tp->sendStatic(tf3("map", "odom", s.now, mp, mq)); });
  else
  {
    const double period = g.pick({0.02, 0.05, 0.1, 0.5});
    s.every(T + sec(g.uni(0, period)), sec(period), [=, &s] {
      loc->p.x() += loc->vx * period;
      loc->yaw += loc->w * period;
      if (loc->on)
        tp->send(tf3("map", "odom", s.now, loc->p, Q(Eigen::AngleAxisd(loc->yaw, V::UnitZ())) * mq));
    });
  }
  const ns_t end = T + sec(o.uni(3, 12));
  const double span = (end - T) * 1e-9;
  auto cmd = s.pub<geometry_msgs::Twist>("/cmd_vel");
  auto ini = s.pub<geometry_msgs::PoseWithCovarianceStamped>("/initialpose");
  const int nc = static_cast<int>(o.i(1, 15));
  for (int i = 0; i < nc; ++i)
  {
    geometry_msgs::Twist m;
    m.linear.x = o.p(0.15) ? 0 : o.uni(-1.5, 1.5);
    m.angular.z = o.p(0.2) ? 0 : o.uni(-3, 3);
    if (o.p(0.2))
      m.linear.y = o.uni(-1, 1);  // cannot move sideways
    const int burst = o.p(0.2) ? 3 : 1;
    r.op(T + sec(o.uni(0, span)), strf("command %.3f %.3f", m.linear.x, m.angular.z), [=] {
      for (int j = 0; j < burst; ++j)
      {
        auto mm = m;
        mm.linear.x *= 1 + 0.1 * j;
        cmd(mm);
      }
      ++k->n_twist;
    });
  }
  const int ni = static_cast<int>(o.i(0, 4));
  for (int i = 0; i < ni; ++i)
  {
    geometry_msgs::PoseWithCovarianceStamped m;
    m.header.frame_id = o.pick(std::vector<std::string>{"map", "map", "odom", "base_link", "nowhere"});
    m.pose.pose.position.x = o.uni(-10, 10);
    m.pose.pose.position.y = o.uni(-10, 10);
    m.pose.pose.orientation = fromQ<geometry_msgs::Quaternion>(rndQ(o, 0));
    const int when = static_cast<int>(o.i(0, 3));
    const double off = o.uni(0.05, 1.6);
    const bool drive = o.p(0.3);
    r.op(T + sec(o.uni(0, span)), strf("initial pose in %s, stamp %s", m.header.frame_id.c_str(), when == 0 ? "zero" : when == 1 ? "past" : when == 2 ? "future" : "now"), [=, &s] {
      auto mm = m;
      if (when)
        mm.header.stamp = rosTime(s.now + (when == 1 ? -sec(off) : when == 2 ? sec(off) : 0));
      ini(mm);
      if (drive)
      {
        geometry_msgs::Twist t;
        t.linear.x = 0.5;
        cmd(t);
      }
    });
  }
  if (o.p(0.4) && !st)
  {
    const double d = o.logu(0.1, 4);
    r.op(T + sec(o.uni(0, span)), strf("no localization for %.2f s", d), [=, &s] {
      loc->on = false;
      s.after(sec(d), [=] { loc->on = true; });
    });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/tf->", "/tf", "/cmd_vel", "/initialpose"};
    mix.max_delay = 0.4;
    netFaults(r, mix, T, end, 6);
    Rng f = r.rng("extra");
    const int nst = static_cast<int>(f.i(0, 2));
    for (int i = 0; i < nst; ++i)
    {
      const double d = f.logu(0.01, 2);
      r.faultAt("stall", strf("%.3f s", d), T + sec(f.uni(0.2, span)), [=, &s] {
        s.stall(k->node, sec(d));
        k->busy_until = std::max(k->busy_until, s.now + sec(d) + 200 * MS);
      });
    }
    if (f.p(0.25))
      r.faultAt("crash", name, T + sec(f.uni(0.5, span)), [=, &s] {
        s.kill(k->node);
        k->busy_until = std::max(k->busy_until, s.now + SEC);
        s.after(300 * MS, [=, &s] {
          k->tf.reset();
          k->restart();
          s.restart(k->node);
        });
      });
  }
  s.every(T + 20 * MS, 20 * MS, [k, &r, &s] {
    if (s.now < k->busy_until || k->node->done || !k->node->fiber)
      return;
    const ns_t from = std::max({k->last_pub, k->busy_until, s.t_start});
    r.expect(s.now - from < 100 * MS, "P31", "not-published", [&] { return strf("no odometry for %.3f s", (s.now - from) * 1e-9); });
  });
  // the period is kept over time: 100 Hz
  auto* n0 = new std::pair<ns_t, int>(0, 0);
  s.every(T + 100 * MS, 500 * MS, [k, n0, &r, &s] {
    if (n0->first && k->busy_until < n0->first && !r.failed)
    {
      const double n = k->n_pub - n0->second, want = (s.now - n0->first) * 1e-9 * 100;
      r.expect(std::abs(n - want) <= 3, "P31", "rate", [&] { return strf("%.0f cycles in %.2f s, the motion is computed for 100 Hz", n, want * 0.01); });
    }
    n0->first = s.now;
    n0->second = k->n_pub;
  });
  s.run(end);
  s.probe("dummy.published", static_cast<uint64_t>(k->n_pub));
  s.probe("dummy.initial_poses_set", static_cast<uint64_t>(k->n_set));
  s.probe("dummy.initial_poses_refused", static_cast<uint64_t>(k->n_refused));
  s.probe("dummy.commands", static_cast<uint64_t>(k->n_twist));
}
struct Init
{
  Init()
  {
    harness().real = "track_odometry, tf_projection and dummy_robot nodes";
    harness().stub = "roscpp, tf2, message_filters replaced by simros; odometry, IMU and localization streams simulated";
  }
} init_;
Register r1("odo", {{"P20", 1.0}}, odo);
Register r3("dummy", {{"P31", 1.0}}, dummy);
Register r2("proj", {{"P21", 1.0}}, proj);
}  // namespace
