// planner_2dof_serial_joints (P19): simulated two-link arms which follow the trajectories, are pushed, and get good and bad requests.
#include <world.h>
#include <planner_cspace_msgs/PlannerStatus.h>
#include <sensor_msgs/JointState.h>
#include <trajectory_msgs/JointTrajectory.h>
using namespace sim;
using namespace world;
int planner_2dof_main(int, char**);
namespace
{
typedef trajectory_msgs::JointTrajectory Traj;
typedef planner_cspace_msgs::PlannerStatus PS;
const char* const PN = "/arm_planner";
struct Link
{
  std::string name;
  double rj, re, len, x, y, th, gain, vmax;
};
struct Group
{
  std::string name;
  Link l[2];
  int res = 32;
  // the arm
  double q[2] = {0, 0};
  double from[2] = {0, 0};
  Traj follow;
  ns_t t_follow = 0;
  bool following = false;
  // what the planner knows
  bool has_joint = false, has_req = false;
  double m[2] = {0, 0};    // measured
  double req[2] = {0, 0};  // requested
  double req_t = 0;
  // of the running callback
  int n_traj = 0, n_status = 0;
  bool must = false, hold = false, at_goal = false;
  Traj last;
  ns_t t_begin = 0;
  int served = 0;
  std::vector<char> free_map;
  double clearance(double a, double b) const
  {
    const double a0 = l[0].th + a * l[0].gain, a1 = l[1].th + b * l[1].gain;
    const double ex = l[0].x + std::cos(a0) * l[0].len, ey = l[0].y + std::sin(a0) * l[0].len;
    const double fx = l[1].x + std::cos(a1) * l[1].len, fy = l[1].y + std::sin(a1) * l[1].len;
    return std::min({std::hypot(ex - fx, ey - fy) - l[0].re - l[1].re, std::hypot(ex - l[1].x, ey - l[1].y) - l[0].re - l[1].rj, std::hypot(fx - l[0].x, fy - l[0].y) - l[1].re - l[0].rj});
  }
  double cell() const { return 2 * M_PI / res; }
  /// Clearance which can be lost by moving every joint by one cell.
  double perCell() const { return cell() * (l[0].len * std::abs(l[0].gain) + l[1].len * std::abs(l[1].gain)); }
  int idx(double v) const { return static_cast<int>(((std::lround(v / cell()) % (2 * res)) + 2 * res) % (2 * res)); }
  /// Whether the goal is reachable with a margin on the window of two turns in which the planner searches.
  bool reachable(const double* s, const double* e)
  {
    const int n = 2 * res;
    if (free_map.empty())
    {
      free_map.resize(static_cast<size_t>(n) * n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          free_map[static_cast<size_t>(i) * n + j] = clearance(i * cell(), j * cell()) > 1.0 * perCell();
    }
    const int a = idx(s[0]) * n + idx(s[1]), b = idx(e[0]) * n + idx(e[1]);
    if (!free_map[a] || !free_map[b])
      return false;
    std::vector<char> seen(free_map.size());
    std::vector<int> st{a};
    seen[a] = 1;
    while (!st.empty())
    {
      const int c = st.back();
      st.pop_back();
      if (c == b)
        return true;
      for (int k = 0; k < 4; ++k)
      {
        const int i = (c / n + (k == 0) - (k == 1) + n) % n, j = (c % n + (k == 2) - (k == 3) + n) % n, d = i * n + j;
        if (!seen[d] && free_map[d])
          seen[d] = 1, st.push_back(d);
      }
    }
    return false;
  }
  void move(ns_t now)
  {
    if (!following)
      return;
    const double t = (now - t_follow) * 1e-9;
    double pt = 0, p[2] = {from[0], from[1]};
    for (auto& x : follow.points)
    {
      const double xt = x.time_from_start.toSec();
      if (t < xt)
      {
        for (int i = 0; i < 2; ++i)
          q[i] = p[i] + (x.positions[i] - p[i]) * (t - pt) / (xt - pt);
        return;
      }
      pt = xt;
      p[0] = x.positions[0];
      p[1] = x.positions[1];
    }
    q[0] = p[0];
    q[1] = p[1];
    following = false;
  }
};
struct Arm
{
  Run& r;
  Sim& s;
  Node* n = nullptr;
  std::vector<Group> g;
  double replan = 0.2;
  bool compat = false;
  int n_traj = 0, n_hold = 0, n_bad = 0, n_long = 0, n_turn = 0;
  std::string t_joint, t_in, t_out;
  explicit Arm(Run& rr) : r(rr), s(rr.sim) {}
  Group* ofSub()
  {
    size_t i = 0;
    for (auto& u : n->subs)
      if (u->alive && u->topic == s.cur_sub->topic)
      {
        if (&*u == s.cur_sub)
          return i < g.size() ? &g[i] : nullptr;
        ++i;
      }
    return nullptr;
  }
  void begin()
  {
    for (auto& x : g)
    {
      x.n_traj = x.n_status = 0;
      x.must = false;
      x.t_begin = s.now;
    }
  }
  static bool find(const std::vector<std::string>& names, const Group& k, int* id)
  {
    id[0] = id[1] = -1;
    for (size_t i = 0; i < names.size(); ++i)
      for (int j = 0; j < 2; ++j)
        if (names[i] == k.l[j].name)
          id[j] = static_cast<int>(i);
    return id[0] >= 0 && id[1] >= 0;
  }
  void onJoint(const sensor_msgs::JointState& m)
  {
    Group* k = ofSub();
    int id[2];
    if (!k || !find(m.name, *k, id))
      return;
    for (int j = 0; j < 2; ++j)
      if (id[j] >= static_cast<int>(m.position.size()) || !std::isfinite(m.position[id[j]]))
        return;
    for (int j = 0; j < 2; ++j)
      k->m[j] = static_cast<float>(m.position[id[j]]);
    k->has_joint = true;
  }
  void onReq(const Traj& m)
  {
    Group* k = ofSub();
    int id[2];
    if (!k || !find(m.joint_names, *k, id) || m.points.size() != 1)
      return;
    const auto& p = m.points[0];
    for (int j = 0; j < 2; ++j)
      if (id[j] >= static_cast<int>(p.positions.size()) || !std::isfinite(p.positions[id[j]]))
        return;
    const double a = static_cast<float>(p.positions[id[0]]), b = static_cast<float>(p.positions[id[1]]), t = p.time_from_start.toSec();
    if (k->has_req && k->req[0] == a && k->req[1] == b && k->req_t == t)
      return;  // the same request again
    k->req[0] = a;
    k->req[1] = b;
    k->req_t = t;
    k->has_req = true;
    k->must = k->has_joint;
  }
  std::string show(const Group& k, const Traj& m) const
  {
    std::string o = strf("%s measured (%.4f %.4f), requested (%.4f %.4f) in %.3f s, resolution %d:", k.name.c_str(), k.m[0], k.m[1], k.req[0], k.req[1], k.req_t, k.res);
    size_t i = 0;
    for (auto& p : m.points)
    {
      if (++i > 4 && i + 2 < m.points.size())
        continue;
      o += strf(" %.3fs(", p.time_from_start.toSec());
      for (double v : p.positions)
        o += strf("%.4f ", v);
      o += ")";
    }
    return o;
  }
  void onTraj(const Traj& m)
  {
    Group* k = nullptr;
    int id[2];
    for (auto& x : g)
      if (!k && m.joint_names.size() == 2 && find(m.joint_names, x, id))
        k = &x;
    r.expect(k != nullptr, "P19", "other-joints", [&] { return strf("trajectory for %zu joints which are not those of one group", m.joint_names.size()); });
    if (!k || r.failed)
      return;
    ++n_traj;
    ++k->n_traj;
    r.expect(k->has_req && k->has_joint, "P19", "unasked", [&] { return "no valid request and joint state came before: " + show(*k, m); });
    bool ok = !m.points.empty();
    for (auto& p : m.points)
    {
      ok = ok && p.positions.size() == 2 && (p.velocities.empty() || p.velocities.size() == 2);
      for (double v : p.positions)
        ok = ok && std::isfinite(v);
      for (double v : p.velocities)
        ok = ok && std::isfinite(v);
    }
    r.expect(ok, "P19", "malformed", [&] { return show(*k, m); });
    if (r.failed || !ok)
      return;
    k->last = m;
    k->hold = true;
    for (auto& p : m.points)
      for (int j = 0; j < 2; ++j)
        k->hold = k->hold && std::abs(p.positions[id[j]] - k->m[j]) < 1e-4;
    double miss = 0;
    for (int j = 0; j < 2; ++j)
      miss = std::max(miss, std::abs(std::remainder(m.points.back().positions[id[j]] - k->req[j], 2 * M_PI)));
    k->at_goal = miss < 1e-4;
    r.expect(k->hold || k->at_goal, "P19", "other-end", [&] { return strf("does not end at the request (%.4f rad off): ", miss) + show(*k, m); });
    double prev[2] = {k->m[0], k->m[1]}, pt = 0;
    size_t i = 0;
    for (auto& p : m.points)
    {
      const double t = p.time_from_start.toSec(), d = std::max(std::abs(p.positions[id[0]] - prev[0]), std::abs(p.positions[id[1]] - prev[1]));
      r.expect(t > pt || (i == 0 && t == 0 && d < 1e-4), "P19", "times", [&] { return strf("point %zu at %.9f s after %.9f s: ", i, t, pt) + show(*k, m); });
      for (int j = 0; j < 2; ++j)
      {
        const double v = std::abs(p.positions[id[j]] - prev[j]) / std::max(1e-9, t - pt), w = p.velocities.empty() ? 0 : std::abs(p.velocities[id[j]]);
        r.expect(std::abs(p.positions[id[j]] - prev[j]) < 1e-4 || v <= k->l[j].vmax * 1.01 + 1e-4, "P19", "too-fast", [&] { return strf("%s moves with %.4f rad/s to point %zu, limit %.4f: ", k->l[j].name.c_str(), v, i, k->l[j].vmax) + show(*k, m); });
        r.expect(w <= k->l[j].vmax * 1.01 + 1e-4, "P19", "too-fast-command", [&] { return strf("%s is commanded %.4f rad/s at point %zu, limit %.4f: ", k->l[j].name.c_str(), w, i, k->l[j].vmax) + show(*k, m); });
      }
      if (!k->hold)
      {
        const double step = k->cell() / 4;
        const int ns = static_cast<int>(std::ceil(d / step));
        if (d > M_PI)
          ++n_long;
        for (int q = 0; q <= ns && !r.failed; ++q)
        {
          const double f = ns ? static_cast<double>(q) / ns : 1, a = prev[0] + (p.positions[id[0]] - prev[0]) * f, b = prev[1] + (p.positions[id[1]] - prev[1]) * f;
          const double c = k->clearance(a, b);
          r.expect(c >= -1.5 * k->perCell() - 1e-4, "P19", "collision", [&] { return strf("links overlap by %.4f m (discretisation explains %.4f m) at (%.4f %.4f) on the way to point %zu: ", -c, 1.5 * k->perCell(), a, b, i) + show(*k, m); });
        }
      }
      for (int j = 0; j < 2; ++j)
        prev[j] = p.positions[id[j]];
      pt = t;
      ++i;
    }
    for (int j = 0; j < 2; ++j)
    {
      n_turn += !k->hold && std::abs(prev[j] - k->req[j]) > 3;
      r.expect(m.points.back().velocities.empty() || std::abs(m.points.back().velocities[id[j]]) < 1e-6, "P19", "no-stop", [&] { return "commands a velocity at the last point: " + show(*k, m); });
    }
  }
  void onStatus(Group& k, const PS& m)
  {
    ++k.n_status;
    if (!k.n_traj)
      return;
    const bool nf = m.error == PS::PATH_NOT_FOUND;
    r.expect(!nf || k.hold, "P19", "moves-without-path", [&] { return "status PATH_NOT_FOUND: " + show(k, k.last); });
    r.expect(nf || k.at_goal, "P19", "not-reported", [&] { return strf("status error %d although no path to the request was found: ", m.error) + show(k, k.last); });
    if (nf && (replan <= 0 || s.now - k.t_begin < sec(replan * 0.5)))
    {
      ++n_hold;
      r.expect(!k.reachable(k.m, k.req), "P19", "not-found", [&] { return "status PATH_NOT_FOUND although the request is reachable: " + show(k, k.last); });
    }
    k.served += !nf;
    r.nontrivial = r.nontrivial || !nf;
    s.state(comb(comb(k.idx(k.m[0]) * 1000 + k.idx(k.m[1]), k.idx(k.req[0]) * 1000 + k.idx(k.req[1])), nf));
  }
  void end()
  {
    for (auto& k : g)
    {
      r.expect(!k.must || k.n_traj, "P19", "ignored", [&] { return strf("%s: request (%.4f %.4f) in %.3f s was not answered", k.name.c_str(), k.req[0], k.req[1], k.req_t); });
      r.expect(!k.n_traj || k.n_status, "P19", "no-status", [&] { return k.name + ": trajectory without a status"; });
      k.must = false;
    }
  }
};
void arm(Run& r)
{
  Rng c = r.rng("cfg");
  Sim& s = r.sim;
  const ns_t T = s.t_start;
  Arm* k = new Arm(r);
  k->compat = c.p(0.3);
  s.setParam("/neonavigation_compatible", k->compat ? 0 : 1);
  const std::string pn = std::string(PN) + "/";
  k->t_joint = k->compat ? pn + "joint" : "/joint_states";
  k->t_in = k->compat ? pn + "trajectory_in" : "/trajectory_in";
  k->t_out = k->compat ? pn + "trajectory_out" : "/joint_trajectory";
  k->replan = c.pick({0.2, 0.2, 0.1, 0.5, 1.0, 0.0, -1.0});
  if (k->replan != 0.2 || c.p(0.5))
    s.setParam(pn + "replan_interval", k->replan);
  const int ng = c.p(0.6) ? 1 : 2;
  s.setParam(pn + "num_groups", ng);
  k->g.resize(ng);
  for (int i = 0; i < ng; ++i)
  {
    Rng q(r.seed, "group" + std::to_string(i));
    Group& g = k->g[i];
    g.name = q.p(0.5) ? "group" + std::to_string(i) : (i ? "rear" : "front");
    s.setParam(pn + "group" + std::to_string(i) + "_name", g.name);
    const std::string gn = pn + g.name + "/";
    g.res = static_cast<int>(q.pick({20, 24, 32, 32, 33, 48, 48, 64}));
    s.setParam(gn + "resolution", g.res);
    for (int tries = 0;; ++tries)
    {
      for (int j = 0; j < 2; ++j)
      {
        Link& l = g.l[j];
        l.name = (q.p(0.5) ? "joint" : "j") + std::to_string(i) + std::to_string(j);
        l.rj = static_cast<float>(q.uni(0.02, 0.1));
        l.re = static_cast<float>(q.uni(0.02, 0.1));
        l.len = static_cast<float>(q.uni(0.1, 0.4));
        l.x = static_cast<float>(j ? -q.uni(0.05, 0.3) : q.uni(0.05, 0.3));
        l.y = static_cast<float>(q.p(0.5) ? 0 : q.uni(-0.1, 0.1));
        l.th = static_cast<float>(q.p(0.5) ? 0 : q.uni(-3, 3));
        l.gain = q.p(0.5) ? 1 : -1;
        l.vmax = static_cast<float>(q.logu(0.1, 3));
      }
      int nf = 0, tot = 0;
      for (double a = -M_PI; a < M_PI; a += 0.3)
        for (double b = -M_PI; b < M_PI; b += 0.3, ++tot)
          nf += g.clearance(a, b) > 0;
      if (tries > 20 || (nf > 0.35 * tot && nf < 0.97 * tot))
        break;
    }
    for (int j = 0; j < 2; ++j)
    {
      const Link& l = g.l[j];
      const std::string ln = gn + "link" + std::to_string(j) + "_";
      s.setParam(ln + "name", l.name);
      s.setParam(ln + "joint_radius", l.rj);
      s.setParam(ln + "end_radius", l.re);
      s.setParam(ln + "length", l.len);
      s.setParam(ln + "x", l.x);
      s.setParam(ln + "y", l.y);
      s.setParam(ln + "th", l.th);
      s.setParam(ln + "gain_th", l.gain);
      s.setParam(ln + "vmax", l.vmax);
      if (q.p(0.5))
        s.setParam(ln + "coef", q.logu(0.3, 3));
    }
    if (q.p(0.5))
      s.setParam(gn + "weight_cost", q.uni(0, 10));
    if (q.p(0.5))
      s.setParam(gn + "expand", q.uni(0, 0.5));
    s.setParam(gn + "range", static_cast<int>(q.i(1, 5)));
    s.setParam(gn + "point_vel_mode", std::string(q.pick({"prev", "next", "avg", "Prev"})));
    g.q[0] = q.p(0.2) ? 0 : q.uni(-M_PI, M_PI);
    g.q[1] = q.p(0.2) ? 0 : q.uni(-M_PI, M_PI);
    for (int tries = 0; tries < 30 && g.clearance(g.q[0], g.q[1]) < 2 * g.perCell(); ++tries)
      for (int j = 0; j < 2; ++j)
        g.q[j] = q.uni(-M_PI, M_PI);
    if (q.p(0.15))
      g.q[q.i(0, 1)] += 2 * M_PI * static_cast<double>(q.i(-3, 3));
    r.note(g.name + "_res", g.res);
  }
  r.note("replan", k->replan);
  s.onExec<sensor_msgs::JointState>(PN, k->t_joint, [=](const sensor_msgs::JointState& m, Node*) {
    k->begin();
    k->onJoint(m);
  });
  s.onExec<Traj>(PN, k->t_in, [=](const Traj& m, Node*) {
    k->begin();
    k->onReq(m);
  });
  s.tap<Traj>(k->t_out, [=](const Traj& m, Node* n) { if (n == k->n) k->onTraj(m); });
  for (auto& g : k->g)
  {
    Group* p = &g;
    s.tap<PS>(pn + g.name + "/status", [=](const PS& m, Node*) { k->onStatus(*p, m); });
  }
  s.cb_hooks.push_back([=](Node* n, const std::string&, bool b) {
    if (n == k->n && !b)
      k->end();
  });
  // the arms
  s.sub<Traj>(k->t_out, [=, &s](const Traj& m) {
    for (auto& g : k->g)
    {
      int id[2];
      if (!Arm::find(m.joint_names, g, id) || k->r.failed)
        continue;
      g.move(s.now);
      g.from[0] = g.q[0];
      g.from[1] = g.q[1];
      g.follow = m;
      for (auto& p : g.follow.points)
        p.positions = {p.positions[id[0]], p.positions[id[1]]};
      g.t_follow = s.now;
      g.following = true;
    }
  });
  auto pj = s.pub<sensor_msgs::JointState>(k->t_joint);
  auto pt = s.pub<Traj>(k->t_in, c.p(0.3));
  const bool split = c.p(0.3);
  const ns_t period = MS * static_cast<ns_t>(c.i(20, 120)), t_joint = c.p(0.7) ? 0 : sec(c.uni(0, 2));
  const int order = static_cast<int>(c.i(0, 3));
  s.every(T + 10 * MS + t_joint, period, [=, &s] {
    sensor_msgs::JointState m;
    m.header.stamp = rosTime(s.now);
    if (order & 2)
    {
      m.name.push_back("wheel");
      m.position.push_back(s.now * 1e-9);
    }
    for (auto& g : k->g)
    {
      g.move(s.now);
      for (int j = 0; j < 2; ++j)
      {
        const int x = order & 1 ? 1 - j : j;
        m.name.push_back(g.l[x].name);
        m.position.push_back(g.q[x]);
      }
      if (split)
      {
        pj(m);
        m.name.clear();
        m.position.clear();
      }
    }
    if (!split)
      pj(m);
  });
  k->n = s.spawn(PN, planner_2dof_main);
  keepServing(r, k->n);
  k->n->cpu_scale = c.pick({1.0, 1.0, 5.0});
  Rng o = r.rng("ops");
  const ns_t chaos = T + sec(o.uni(2, 12));
  const double span = (chaos - T) * 1e-9;
  const int n = static_cast<int>(o.i(2, 8));
  Traj* prev = new Traj;
  for (int i = 0; i < n; ++i)
  {
    Rng q(r.seed, "req" + std::to_string(i));
    const ns_t t = T + sec(i == 0 ? q.uni(0.02, 1) : q.uni(0.02, span));
    const int what = static_cast<int>(q.pick({0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 4, 5}));
    r.op(t, strf("request %d kind %d", i, what), [=] {
      Rng q(r.seed, "reqv" + std::to_string(i));
      Group& g = k->g[q.i(0, ng - 1)];
      double e[2];
      for (int tries = 0; tries < 20; ++tries)
      {
        for (int j = 0; j < 2; ++j)
          e[j] = q.uni(-M_PI, M_PI) + (q.p(0.15) ? 2 * M_PI * static_cast<double>(q.i(-1, 1)) : 0);
        if (q.p(0.15) || g.clearance(e[0], e[1]) > 2 * g.perCell())
          break;
      }
      double dt = q.p(0.3) ? 0 : q.logu(0.05, 10);
      if (what == 1)  // stay
        e[0] = g.q[0], e[1] = g.q[1];
      if (what == 2)
        e[0] = e[1] = 0, dt = q.p(0.6) ? 0 : dt;
      if (what == 3)  // far away
        e[q.i(0, 1)] = q.pick({6.2832, -6.2832, 7.5, -9.0, 20.0, -30.0});
      if (what == 5)  // a little
        e[0] = g.q[0] + q.uni(-0.05, 0.05), e[1] = g.q[1];
      Traj m;
      m.joint_names = {g.l[0].name, g.l[1].name};
      m.points.resize(1);
      m.points[0].positions = {e[0], e[1]};
      m.points[0].time_from_start = ros::Duration(dt);
      if (what == 4 && !prev->points.empty())
        m = *prev;  // the same request once more, perhaps written differently
      *prev = m;
      if (q.p(0.4))
      {
        std::swap(m.joint_names[0], m.joint_names[1]);
        std::swap(m.points[0].positions[0], m.points[0].positions[1]);
      }
      if (q.p(0.3))
      {
        m.joint_names.insert(m.joint_names.begin(), "gripper");
        m.points[0].positions.insert(m.points[0].positions.begin(), 0.3);
      }
      pt(m);
    });
  }
  if (r.faults)
  {
    Rng f = r.rng("extra");
    const int nb = static_cast<int>(f.i(0, 4));
    for (int i = 0; i < nb; ++i)
    {
      const int kind = static_cast<int>(f.i(0, 6));
      const ns_t t = T + sec(f.uni(0.1, span));
      r.faultAt("bad-request", PN, t, [=] {
        Rng q(r.seed, "bad" + std::to_string(i));
        Group& g = k->g[q.i(0, ng - 1)];
        Traj m;
        m.joint_names = {g.l[0].name, g.l[1].name};
        m.points.resize(1);
        m.points[0].positions = {q.uni(-3, 3), q.uni(-3, 3)};
        if (kind == 0)
          m.points.clear();
        if (kind == 1)
          m.points.push_back(m.points[0]);
        if (kind == 2)
          m.points[0].positions.resize(q.i(0, 1));
        if (kind == 3)
          m.points[0].positions[q.i(0, 1)] = q.p(0.5) ? NAN : INFINITY;
        if (kind == 4)
          m.joint_names[q.i(0, 1)] = "other";
        if (kind == 5)
          m.joint_names = {"a", "b"};
        if (kind == 6)
          m.joint_names.pop_back(), m.points[0].positions.pop_back();
        ++k->n_bad;
        pt(m);
      });
    }
    const int nj = static_cast<int>(f.i(0, 3));
    for (int i = 0; i < nj; ++i)
    {
      const int kind = static_cast<int>(f.i(0, 3));
      r.faultAt("bad-joint-state", PN, T + sec(f.uni(0.1, span)), [=] {
        Rng q(r.seed, "badj" + std::to_string(i));
        Group& g = k->g[q.i(0, ng - 1)];
        sensor_msgs::JointState m;
        m.name = {g.l[0].name, g.l[1].name};
        m.position = {g.q[0], g.q[1]};
        if (kind == 0)
          m.position.resize(q.i(0, 1));
        if (kind == 1)
          m.position[q.i(0, 1)] = NAN;
        if (kind == 2)
          m.name[q.i(0, 1)] = "other";
        if (kind == 3)
          m.name.clear();
        pj(m);
      });
    }
    const int np = static_cast<int>(f.i(0, 3));
    for (int i = 0; i < np; ++i)
      r.faultAt("push", "arm", T + sec(f.uni(0.1, span)), [=, &s] {
        Rng q(r.seed, "push" + std::to_string(i));
        Group& g = k->g[q.i(0, ng - 1)];
        g.move(s.now);
        g.following = false;
        const double a = g.q[0] + q.uni(-1.5, 1.5), b = g.q[1] + q.uni(-1.5, 1.5);
        if (g.clearance(a, b) > 0)
          g.q[0] = a, g.q[1] = b;
      });
    const int nc = f.p(0.2) ? 1 : 0;
    for (int i = 0; i < nc; ++i)
      r.faultAt("crash", PN, T + sec(f.uni(0.5, span)), [=, &s] {
        s.kill(k->n);
        for (auto& g : k->g)
          g.has_joint = g.has_req = g.must = false;
        s.after(300 * MS, [=, &s] { s.restart(k->n); });
      });
    NetFaultMix mix;
    mix.targets = {k->t_joint, k->t_in, k->t_out};
    mix.drop = mix.dup = mix.reorder = mix.partition = 0;
    netFaults(r, mix, T, chaos, 4);
    stallFaults(r, {PN}, T, chaos, 2, 1.0);
  }
  s.run(chaos + 2 * SEC);
  if (r.failed)
    return;
  // afterwards a request is still served
  Rng q = r.rng("closing");
  for (auto& g : k->g)
  {
    g.served = 0;
    Traj m;
    m.joint_names = {g.l[0].name, g.l[1].name};
    m.points.resize(1);
    const double a[2] = {g.q[0] + 0.2, g.q[1] - 0.1};
    m.points[0].positions = {a[0], a[1]};
    m.points[0].time_from_start = ros::Duration(q.uni(0.1, 1));
    const bool exp = g.reachable(g.q, a);
    pt(m);
    s.run(s.now + 1 * SEC);
    if (r.failed)
      return;
    r.expect(!exp || g.served, "P19", "not-served", [&] { return g.name + ": the request after the faults got no path"; });
  }
  for (auto& x : std::initializer_list<std::pair<const char*, int>>{{"trajectories", k->n_traj}, {"not_found", k->n_hold}, {"bad_requests", k->n_bad}, {"long_moves", k->n_long}, {"whole_turns", k->n_turn}})
    s.probe(std::string("arm.") + x.first, static_cast<uint64_t>(x.second));
}
struct Init
{
  Init()
  {
    harness().real = "planner_2dof_serial_joints node with its grid A*";
    harness().stub = "roscpp replaced by simros; simulated two-link arms follow the trajectories";
  }
} init_;
Register r1("arm", {{"P19", 1.0}}, arm);
}  // namespace
