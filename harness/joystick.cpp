// joystick_interrupt (P04) and joystick_mux (P05) against reference state machines driven in processing order.
#include <world.h>
#include <geometry_msgs/Twist.h>
#include <sensor_msgs/Joy.h>
#include <std_msgs/Bool.h>
#include <std_msgs/Float64.h>
#include <std_msgs/Int32.h>
#include <std_msgs/String.h>
using namespace sim;
using namespace world;
int joystick_interrupt_main(int, char**);
int joystick_mux_main(int, char**);
namespace
{
struct Tw
{
  double v[6];
  Tw() { memset(v, 0, sizeof v); }
  explicit Tw(const geometry_msgs::Twist& m)
  {
    const double t[6] = {m.linear.x, m.linear.y, m.linear.z, m.angular.x, m.angular.y, m.angular.z};
    memcpy(v, t, sizeof t);
  }
  bool same(const Tw& o, double tol = 0) const
  {
    for (int i = 0; i < 6; ++i)
      if (!(std::abs(v[i] - o.v[i]) <= tol))
        return false;
    return true;
  }
  std::string str() const { return strf("(%.4f %.4f %.4f | %.4f %.4f %.4f)", v[0], v[1], v[2], v[3], v[4], v[5]); }
};
sensor_msgs::Joy randomJoy(Rng& g, int button, bool press, int nb, int na)
{
  sensor_msgs::Joy j;
  j.buttons.resize(nb);
  j.axes.resize(na);
  for (auto& b : j.buttons)
    b = g.p(0.4);
  for (auto& a : j.axes)
    a = g.p(0.2) ? 0 : static_cast<float>(g.uni(-1, 1));
  if (button >= 0 && button < nb)
    j.buttons[button] = press;
  return j;
}
// Joystick operator: presses and releases, stops sending, changes device (array sizes).
struct Operator
{
  Run& r;
  Rng g;
  int button, nb, na;
  bool press = false, alive = true;
  Operator(Run& rr, int b) : r(rr), g(rr.rng("joy")), button(b)
  {
    nb = static_cast<int>(g.i(0, 12));
    if (g.p(0.8))
      nb = std::max(nb, button + 1 + static_cast<int>(g.i(0, 4)));
    na = static_cast<int>(g.i(0, 8));
  }
  void schedule(ns_t t0, ns_t t1)
  {
    Rng o = r.rng("joyops");
    const int n = static_cast<int>(o.i(2, 14));
    for (int i = 0; i < n; ++i)
    {
      const ns_t t = t0 + static_cast<ns_t>(o.uni() * (t1 - t0));
      const int k = static_cast<int>(o.i(0, 9));
      const int a = static_cast<int>(o.i(0, 12)), b = static_cast<int>(o.i(0, 8));
      const double d = o.logu(0.02, 3.0);
      if (k < 6)
        r.op(t, strf("hold the button for %.2f s", d), [this, d] {
          press = true;
          r.sim.after(sec(d), [this] { press = false; });
        });
      else if (k < 8)
        r.op(t, strf("joystick silent for %.2f s", d), [this, d] {
          alive = false;
          r.sim.after(sec(d), [this] { alive = true; });
        });
      else
        r.op(t, strf("joystick with %d buttons, %d axes for %.2f s", a, b, d), [this, a, b, d] {
          const int pb = nb, pa = na;
          nb = a;
          na = b;
          r.sim.after(sec(d), [this, pb, pa] { nb = pb; na = pa; });
        });
    }
  }
};

void interrupt(Run& r)
{
  struct St
  {
    double lin = 0.5, ang = 0.8, liny = 0.0, timeout = 0.5, hl = 1.3, ha = 1.1;
    int ax[6] = {1, 0, -1, -1, -1, -1};  // linear angular linear2 angular2 y y2
    int button = 6, high = -1;
    bool active = false;  // a held joystick message was the last valid one
    ns_t t_joy = 0;
    Tw last_ext;
    std::vector<Tw> outs;
    std::vector<bool> stat;
    int what = 0;  // 1 joy, 2 twist
    sensor_msgs::Joy joy;
    Tw ext;
    uint64_t n_joy = 0, n_ext = 0, n_blocked = 0, n_release = 0, n_bad = 0;
  };
  auto c = std::make_shared<St>();
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const bool compat = g.p(0.15);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string pn = "/joystick_interrupt/";
  auto P = [&](const char* k, double& v, double nv) {
    if (g.p(0.7))
    {
      v = nv;
      s.setParam(pn + k, v);
    }
  };
  auto I = [&](const char* k, int& v, int nv) {
    if (g.p(0.7))
    {
      v = nv;
      s.setParam(pn + k, v);
    }
  };
  P("linear_vel", c->lin, g.uni(0.1, 2));
  P("angular_vel", c->ang, g.uni(0.1, 2));
  P("linear_y_vel", c->liny, g.uni(0, 2));
  P("timeout", c->timeout, g.uni(0.1, 1.5));
  P("linear_high_speed_ratio", c->hl, g.uni(1, 3));
  P("angular_high_speed_ratio", c->ha, g.uni(1, 3));
  I("linear_axis", c->ax[0], static_cast<int>(g.i(0, 7)));
  I("angular_axis", c->ax[1], static_cast<int>(g.i(0, 7)));
  I("linear_axis2", c->ax[2], static_cast<int>(g.i(-1, 7)));
  I("angular_axis2", c->ax[3], static_cast<int>(g.i(-1, 7)));
  I("linear_y_axis", c->ax[4], static_cast<int>(g.i(-1, 7)));
  I("linear_y_axis2", c->ax[5], static_cast<int>(g.i(-1, 7)));
  I("interrupt_button", c->button, static_cast<int>(g.i(0, 9)));
  I("high_speed_button", c->high, static_cast<int>(g.i(-1, 9)));
  r.note("button", c->button);
  r.note("high", c->high);
  r.note("timeout", c->timeout);
  r.note("compat", compat);
  const std::string in = compat ? "/joystick_interrupt/cmd_vel_input" : "/cmd_vel_input", out = compat ? "/joystick_interrupt/cmd_vel" : "/cmd_vel";
  auto pj = s.pub<sensor_msgs::Joy>("/joy");
  auto pt = s.pub<geometry_msgs::Twist>(in);
  const std::string nn = "/joystick_interrupt";
  s.onExec<sensor_msgs::Joy>(nn, "/joy", [c](const sensor_msgs::Joy& m, Node*) {
    c->what = 1;
    c->joy = m;
  });
  s.onExec<geometry_msgs::Twist>(nn, in, [c](const geometry_msgs::Twist& m, Node*) {
    c->what = 2;
    c->ext = Tw(m);
  });
  Node* n = nullptr;
  s.tap<geometry_msgs::Twist>(out, [&, c](const geometry_msgs::Twist& m, Node* from) {
    if (from == n)
    {
      r.expect(c->what != 0, "P04", "spontaneous-output", [&] { return "velocity " + Tw(m).str() + " published without a joystick or command message"; });
      c->outs.push_back(Tw(m));
    }
  });
  s.tap<std_msgs::Bool>(nn + "/interrupt_status", [&, c](const std_msgs::Bool& m, Node*) { c->stat.push_back(m.data); });
  s.cb_hooks.push_back([&, c](Node* k, const std::string& l, bool begin) {
    if (k != n)
      return;
    if (begin)
    {
      c->outs.clear();
      c->stat.clear();
      return;
    }
    const ns_t now = s.now + (s.cur ? s.cur->debt : 0) + n->clock_off;
    if (c->what == 1)
    {
      ++c->n_joy;
      const auto& j = c->joy;
      const bool range = c->button < static_cast<int>(j.buttons.size());
      if (range && j.buttons[c->button])
      {
        c->active = true;
        c->t_joy = now;
        auto ax = [&](int i) { return i < 0 || i >= static_cast<int>(j.axes.size()) ? 0.0f : j.axes[i]; };
        auto jv = [&](int a, int b) {
          const float x = ax(a), y = ax(b);
          return std::abs(y) > std::abs(x) ? y : x;
        };
        double lx = jv(c->ax[0], c->ax[2]), ly = jv(c->ax[4], c->ax[5]), an = jv(c->ax[1], c->ax[3]);
        if (c->high >= 0 && c->high < static_cast<int>(j.buttons.size()) && j.buttons[c->high])
        {
          lx *= c->hl;
          ly *= c->hl;
          an *= c->ha;
        }
        Tw e;
        e.v[0] = lx * c->lin;
        e.v[1] = ly * c->liny;
        e.v[5] = an * c->ang;
        r.expect(c->outs.size() == 1 && c->outs[0].same(e, 1e-5), "P04", "joystick-velocity",
                 [&] { return strf("button held: expected %s, %zu outputs, first %s", e.str().c_str(), c->outs.size(), c->outs.empty() ? "-" : c->outs[0].str().c_str()); });
        r.nontrivial = true;
      }
      else
      {
        if (!range)
        {
          ++c->n_bad;
          r.expect(c->outs.empty(), "P04", "out-of-range-output", [&] { return "joystick message without the interrupt button caused output " + c->outs[0].str(); });
        }
        else if (c->active)
        {
          ++c->n_release;
          r.expect(c->outs.size() == 1 && c->outs[0].same(c->last_ext), "P04", "release-handback",
                   [&] { return strf("button released: expected the last external command %s, %zu outputs, first %s", c->last_ext.str().c_str(), c->outs.size(), c->outs.empty() ? "-" : c->outs[0].str().c_str()); });
        }
        else
          r.expect(c->outs.empty() || c->outs.back().same(c->last_ext), "P04", "idle-joystick-output", [&] { return "joystick not held caused output " + c->outs[0].str(); });
        c->active = false;
      }
    }
    else if (c->what == 2)
    {
      c->last_ext = c->ext;
      ++c->n_ext;
      const double age = c->active ? (now - c->t_joy) * 1e-9 : 1e9;
      if (std::abs(age - c->timeout) < 0.002)
        return;
      const bool fwd = age > c->timeout;
      if (!fwd)
        ++c->n_blocked;
      r.expect(fwd ? c->outs.size() == 1 && c->outs[0].same(c->ext) : c->outs.empty(), "P04", fwd ? "command-not-forwarded" : "command-leaked",
               [&] { return strf("external command %s, last held joystick message %.3f s ago (timeout %.3f): %zu outputs, first %s", c->ext.str().c_str(), age, c->timeout, c->outs.size(), c->outs.empty() ? "-" : c->outs[0].str().c_str()); });
      r.expect(c->stat.size() == 1 && c->stat[0] == fwd, "P04", "interrupt-status",
               [&] { return strf("external command %s: interrupt_status %s", fwd ? "forwarded" : "blocked", c->stat.empty() ? "missing" : c->stat[0] ? "true" : "false"); });
    }
    (void)l;
    s.state(mix64(c->active * 2 + (c->what << 3) + c->outs.size()));
    c->what = 0;
  });
  n = s.spawn(nn, joystick_interrupt_main);
  keepServing(r, n);
  const ns_t T = s.t_start;
  // simulated time starts near zero in some runs
  if (g.p(0.3))
  {
    s.sim_time = true;
    n->clock_off = -T + sec(g.uni(0.001, 1.0));
  }
  const ns_t chaos = T + sec(g.uni(5, 12)), end = chaos + 4 * SEC;
  Operator* op = new Operator(r, c->button);
  op->schedule(T + sec(0.1), chaos);
  const double jp = g.pick({0.01, 0.02, 0.05, 0.1, 0.3}), tp = g.pick({0.01, 0.03, 0.1, 0.25});
  s.every(T + sec(g.uni(0, jp)), sec(jp), [=, &s] {
    if (op->alive)
      pj(randomJoy(op->g, op->button, op->press, op->nb, op->na));
  });
  Rng gt = r.rng("ext");
  auto silent = std::make_shared<bool>(false);
  const int ns = static_cast<int>(g.i(0, 3));
  for (int i = 0; i < ns; ++i)
  {
    const double d = g.uni(0.1, 3);
    r.op(T + sec(g.uni(0.1, (chaos - T) * 1e-9)), strf("commands silent for %.2f s", d), [=, &s] {
      *silent = true;
      s.after(sec(d), [=] { *silent = false; });
    });
  }
  s.every(T + sec(g.uni(0, tp)), sec(tp), [=]() mutable {
    if (*silent)
      return;
    geometry_msgs::Twist t;
    t.linear.x = gt.uni(-2, 2);
    t.linear.y = gt.p(0.5) ? 0 : gt.uni(-1, 1);
    t.angular.z = gt.uni(-2, 2);
    if (gt.p(0.1))
      t.angular.x = t.linear.z = gt.uni(-1, 1);
    pt(t);
  });
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/joy>", "cmd_vel_input", ">/joystick_interrupt"};
    mix.max_delay = 1.0;
    netFaults(r, mix, T, chaos, 6);
    stallFaults(r, {nn}, T, chaos, 3, 1.5);
    if (g.p(0.3))
      r.faultAt("crash", nn + " restart", T + sec(g.uni(0.5, (chaos - T) * 1e-9)), [&s, n, c] {
        s.kill(n);
        c->active = false;
        c->last_ext = Tw();
        s.after(sec(0.3), [&s, n] { s.restart(n); });
      });
  }
  s.run(end);
  r.expect(c->n_ext > 0, "P04", "dead", [&] { return std::string("no external command was processed"); });
  s.probe("joy.joystick_messages", c->n_joy);
  s.probe("joy.external_commands", c->n_ext);
  s.probe("joy.blocked_commands", c->n_blocked);
  s.probe("joy.releases", c->n_release);
  s.probe("joy.out_of_range", c->n_bad);
}

// Parameters no joystick can satisfy: the node has to shut down in order.
void badparams(Run& r)
{
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  s.setParam("/neonavigation_compatible", 1);
  const char* k = g.pick({"interrupt_button", "linear_axis", "angular_axis"});
  s.setParam(std::string("/joystick_interrupt/") + k, -static_cast<int>(g.i(1, 3)));
  r.note("param", k);
  Node* n = s.spawn("/joystick_interrupt", joystick_interrupt_main);
  auto pj = s.pub<sensor_msgs::Joy>("/joy");
  auto pt = s.pub<geometry_msgs::Twist>("/cmd_vel_input");
  Rng q = r.rng("m");
  s.every(s.t_start, 20 * MS, [&s, pj, pt, q]() mutable {
    pj(randomJoy(q, 0, true, static_cast<int>(q.i(0, 10)), static_cast<int>(q.i(0, 10))));
    geometry_msgs::Twist t;
    t.linear.x = 1;
    pt(t);
  });
  s.run(s.t_start + 2 * SEC);
  r.expect(n->done && !n->died, "P04", "bad-parameter-accepted", [&] { return std::string("node keeps running with a negative ") + k; });
  r.nontrivial = true;
}

template <class M>
M mk(Rng& g, uint64_t id);
template <>
geometry_msgs::Twist mk(Rng& g, uint64_t id)
{
  geometry_msgs::Twist t;
  t.linear.x = static_cast<double>(id);
  t.angular.z = g.uni();
  return t;
}
template <>
std_msgs::String mk(Rng& g, uint64_t id)
{
  std_msgs::String t;
  t.data = std::to_string(id) + std::string(g.i(0, 50), 'x');
  return t;
}
template <>
std_msgs::Int32 mk(Rng&, uint64_t id)
{
  std_msgs::Int32 t;
  t.data = static_cast<int>(id);
  return t;
}
template <>
sensor_msgs::Joy mk(Rng& g, uint64_t id)
{
  sensor_msgs::Joy t;
  t.axes.resize(g.i(0, 5));
  t.buttons.push_back(static_cast<int>(id));
  return t;
}
template <class M>
void muxT(Run& r)
{
  struct St
  {
    int held = 0;
    ns_t t_joy = 0, t_start = 0, last_busy = 0, timer_ok = 0;
    int what = -1, last_src = -1;
    MsgRef m;
    std::vector<MsgRef> outs;
    uint64_t n[2] = {0, 0}, blocked[2] = {0, 0}, timeouts = 0;
    bool amb = false;
  };
  auto c = std::make_shared<St>();
  Sim& s = r.sim;
  Rng g = r.rng("cfg");
  const bool compat = g.p(0.15);
  s.setParam("/neonavigation_compatible", compat ? 0 : 1);
  double timeout = 0.5;
  int button = 5;
  if (g.p(0.8))
    s.setParam("/joystick_mux/timeout", timeout = g.uni(0.1, 1.5));
  if (g.p(0.8))
    s.setParam("/joystick_mux/interrupt_button", button = static_cast<int>(g.i(0, 9)));
  r.note("timeout", timeout);
  r.note("button", button);
  r.note("type", M::__datatype());
  const std::string nn = "/joystick_mux", pre = compat ? "/joystick_mux/" : "/mux_";
  const std::string in0 = pre + "input0", in1 = pre + "input1", out = pre + "output";
  auto pj = s.pub<sensor_msgs::Joy>("/joy");
  std::function<void(const M&)> ps[2] = {s.pub<M>(in0), s.pub<M>(in1)};
  Node* n = nullptr;
  auto nodeNow = [&s](Node* k) { return s.now + (s.cur ? s.cur->debt : 0) + k->clock_off; };
  s.onExec<sensor_msgs::Joy>(nn, "/joy", [&, c](const sensor_msgs::Joy& m, Node*) {
    if (button < static_cast<int>(m.buttons.size()))
    {
      c->held = m.buttons[button] ? 1 : 0;
      c->t_joy = nodeNow(n);
    }
  });
  for (int i = 0; i < 2; ++i)
    s.exec_taps.emplace(nn + " " + (i ? in1 : in0), [c, i](const std::string&, const MsgRef& m, Node*) {
      c->what = i;
      c->m = m;
    });
  s.tapAny(out, [&, c](const std::string&, const MsgRef& m, Node* from) {
    if (from != n)
      return;
    r.expect(c->what >= 0, "P05", "spontaneous-output", [&] { return std::string("message published without an input"); });
    c->outs.push_back(m);
  });
  s.cb_hooks.push_back([&, c](Node* k, const std::string&, bool begin) {
    if (k != n)
      return;
    if (begin)
    {
      c->outs.clear();
      return;
    }
    if (c->what < 0)
      return;
    const ns_t now = nodeNow(n);
    const double age = (now - c->t_joy) * 1e-9;
    const bool busy = s.now - c->last_busy < 250 * MS;
    int sel = c->held;
    if (sel == 1 && (age > timeout - 0.002))
    {
      // the timeout is noticed by a timer with a period of 0.1 s
      if (age > timeout + 0.11 && !busy)
      {
        sel = 0;
        ++c->timeouts;
      }
      else
        sel = -1;
    }
    if (sel >= 0)
    {
      if (c->what == sel)
      {
        ++c->n[sel];
        bool same = c->outs.size() == 1 && c->outs[0].ti == c->m.ti && c->outs[0].ti->hash(c->outs[0].p.get()) == c->m.ti->hash(c->m.p.get());
        r.expect(same, "P05", c->outs.empty() ? "selected-not-forwarded" : "selected-changed", [&] { return strf("message of the selected input%d caused %zu outputs; joystick %.3f s old (timeout %.3f), button %d", sel, c->outs.size(), age, timeout, c->held); });
        if (sel == 1)
          r.nontrivial = true;
      }
      else
      {
        ++c->blocked[c->what];
        r.expect(c->outs.empty(), "P05", "unselected-forwarded", [&] { return strf("message of input%d was forwarded although input%d is selected; joystick %.3f s old (timeout %.3f), button %d", c->what, sel, age, timeout, c->held); });
      }
    }
    s.state(mix64((sel + 1) * 8 + c->what * 2 + c->outs.size()));
    c->what = -1;
  });
  n = s.spawn(nn, joystick_mux_main);
  keepServing(r, n);
  const ns_t T = s.t_start;
  if (g.p(0.3))
  {
    s.sim_time = true;
    n->clock_off = -T + sec(g.uni(0.001, 1.0));
  }
  const ns_t chaos = T + sec(g.uni(5, 12)), end = chaos + 4 * SEC;
  Operator* op = new Operator(r, button);
  op->schedule(T + sec(0.1), chaos);
  const double jp = g.pick({0.01, 0.02, 0.05, 0.1, 0.3});
  s.every(T + sec(g.uni(0, jp)), sec(jp), [=] {
    if (op->alive)
      pj(randomJoy(op->g, op->button, op->press, op->nb, op->na));
  });
  for (int i = 0; i < 2; ++i)
  {
    const double tp = g.pick({0.005, 0.01, 0.03, 0.1, 0.25});
    Rng q(r.seed, "src" + std::to_string(i));
    auto id = std::make_shared<uint64_t>(i * 1000000);
    auto p = ps[i];
    s.every(T + sec(g.uni(0, tp)), sec(tp), [=]() mutable { p(mk<M>(q, (*id)++)); });
  }
  if (r.faults)
  {
    NetFaultMix mix;
    mix.targets = {"/joy>", in0, in1, ">/joystick_mux"};
    mix.max_delay = 1.0;
    netFaults(r, mix, T, chaos, 6);
    Rng sf = r.rng("stall");
    const int k = static_cast<int>(sf.i(0, 3));
    for (int i = 0; i < k; ++i)
    {
      const double d = sf.logu(0.005, 1.0);
      r.faultAt("stall", strf("joystick_mux %.3fs", d), T + sec(sf.uni(0.1, (chaos - T) * 1e-9)), [&s, n, c, d] {
        s.stall(n, sec(d));
        c->last_busy = std::max(c->last_busy, s.now + sec(d));
      });
    }
    if (sf.p(0.3))
      r.faultAt("crash", nn + " restart", T + sec(sf.uni(0.5, (chaos - T) * 1e-9)), [&s, n, c] {
        s.kill(n);
        c->held = 0;
        s.after(sec(0.3), [&s, n] { s.restart(n); });
      });
  }
  s.run(end);
  r.expect(c->n[0] > 0 || c->n[1] > 0, "P05", "dead", [&] { return std::string("nothing was forwarded"); });
  s.probe("mux.forwarded0", c->n[0]);
  s.probe("mux.forwarded1", c->n[1]);
  s.probe("mux.blocked0", c->blocked[0]);
  s.probe("mux.blocked1", c->blocked[1]);
  s.probe("mux.after_timeout", c->timeouts);
}
void mux(Run& r)
{
  Rng g = r.rng("type");
  switch (g.i(0, 3))
  {
    case 0: muxT<geometry_msgs::Twist>(r); break;
    case 1: muxT<std_msgs::String>(r); break;
    case 2: muxT<std_msgs::Int32>(r); break;
    default: muxT<sensor_msgs::Joy>(r); break;
  }
}
struct Init
{
  Init()
  {
    harness().real = "joystick_interrupt, joystick_mux nodes, compatibility.h";
    harness().stub = "roscpp, topic_tools::ShapeShifter replaced by simros; joystick, command sources simulated";
  }
} init_;
Register r1("interrupt", {{"P04", 1.0}}, interrupt);
Register r2("badparams", {{"P04", 0.01}}, badparams);
Register r3("mux", {{"P05", 1.0}}, mux);
}  // namespace
