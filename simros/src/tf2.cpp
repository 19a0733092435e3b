#include <tf2_msgs/TFMessage.h>
#include <tf2_ros/buffer.h>
#include <tf2_ros/transform_broadcaster.h>
#include <tf2_ros/transform_listener.h>

namespace tf2
{
static std::string strip(const std::string& s) { return !s.empty() && s[0] == '/' ? s.substr(1) : s; }
bool BufferCore::setTransform(const geometry_msgs::TransformStamped& t, const std::string&, bool is_static)
{
  const std::string c = strip(t.child_frame_id), p = strip(t.header.frame_id);
  if (c == p || c.empty() || p.empty())
    return false;
  const auto& tr = t.transform;
  if (std::isnan(tr.translation.x) || std::isnan(tr.translation.y) || std::isnan(tr.translation.z) || std::isnan(tr.rotation.x) ||
      std::isnan(tr.rotation.y) || std::isnan(tr.rotation.z) || std::isnan(tr.rotation.w))
    return false;
  const double n = tr.rotation.x * tr.rotation.x + tr.rotation.y * tr.rotation.y + tr.rotation.z * tr.rotation.z + tr.rotation.w * tr.rotation.w;
  if (std::fabs(n - 1.0) > 1e-3)
    return false;
  known_.insert(c);
  known_.insert(p);
  auto itf = frames_.find(c);
  if (itf == frames_.end() || itf->second.is_static != is_static)
  {
    frames_[c] = F();
    frames_[c].is_static = is_static;
  }
  F& f = frames_[c];
  E e;
  e.t = static_cast<int64_t>(t.header.stamp.toNSec());
  e.p = Vector3(tr.translation.x, tr.translation.y, tr.translation.z);
  e.q = Quaternion(tr.rotation.x, tr.rotation.y, tr.rotation.z, tr.rotation.w);
  e.parent = p;
  if (is_static)
  {
    f.d.assign(1, e);
    return true;
  }
  if (!f.d.empty() && f.d.back().t > e.t + cache_)
    return false;  // too old
  auto it = f.d.end();
  while (it != f.d.begin() && std::prev(it)->t > e.t)
    --it;
  if (it != f.d.begin() && std::prev(it)->t == e.t)
    *std::prev(it) = e;
  else
    f.d.insert(it, e);
  const int64_t lt = f.d.back().t;
  while (!f.d.empty() && f.d.front().t + cache_ < lt)
    f.d.pop_front();
  return true;
}
bool BufferCore::at(const std::string& n, int64_t t, E& out, std::string* err) const
{
  auto itf = frames_.find(n);
  if (itf == frames_.end() || itf->second.d.empty())
    return false;
  const F& f = itf->second;
  if (f.is_static)
  {
    out = f.d.front();
    out.t = t;
    return true;
  }
  const auto& d = f.d;
  if (t == 0)
  {
    out = d.back();
    return true;
  }
  if (d.size() == 1)
  {
    if (d[0].t == t)
    {
      out = d[0];
      return true;
    }
    if (err)
      *err = "Lookup would require extrapolation: only one transform available for frame [" + n + "]";
    return false;
  }
  if (t > d.back().t)
  {
    if (err)
      *err = "Lookup would require extrapolation into the future for frame [" + n + "]";
    return false;
  }
  if (t < d.front().t)
  {
    if (err)
      *err = "Lookup would require extrapolation into the past for frame [" + n + "]";
    return false;
  }
  size_t hi = 0;
  while (d[hi].t < t)
    ++hi;
  if (d[hi].t == t || hi == 0)
  {
    out = d[hi];
    return true;
  }
  const E &a = d[hi - 1], &b = d[hi];
  if (a.parent != b.parent)
  {
    out = a;
    return true;
  }
  const double r = static_cast<double>(t - a.t) / static_cast<double>(b.t - a.t);
  out.t = t;
  out.parent = a.parent;
  out.p = a.p.lerp(b.p, r);
  out.q = a.q.slerp(b.q, r);
  return true;
}
const std::string* BufferCore::parent(const std::string& n, int64_t) const
{
  auto it = frames_.find(n);
  if (it == frames_.end() || it->second.d.empty())
    return nullptr;
  return &it->second.d.back().parent;
}
// 0 ok, 1 lookup error, 2 connectivity, 3 extrapolation
int BufferCore::latest(const std::string& target, const std::string& source, int64_t& t, std::string* err) const
{
  std::vector<std::string> up{source}, dn{target};
  for (const std::string* p = parent(source, 0); p && up.size() < 100; p = parent(*p, 0))
    up.push_back(*p);
  for (const std::string* p = parent(target, 0); p && dn.size() < 100; p = parent(*p, 0))
    dn.push_back(*p);
  size_t i, j = 0;
  bool found = false;
  for (i = 0; i < up.size() && !found; ++i)
    for (j = 0; j < dn.size(); ++j)
      if (up[i] == dn[j])
      {
        found = true;
        break;
      }
  if (!found)
  {
    if (err)
      *err = "Could not find a connection between '" + target + "' and '" + source + "' because they are not part of the same tree.";
    return 2;
  }
  --i;
  int64_t m = INT64_MAX;
  auto upd = [&](const std::string& f) {
    const F& fr = frames_.at(f);
    if (!fr.is_static)
      m = std::min(m, fr.d.back().t);
  };
  for (size_t k = 0; k < i; ++k)
    upd(up[k]);
  for (size_t k = 0; k < j; ++k)
    upd(dn[k]);
  t = m == INT64_MAX ? 0 : m;
  return 0;
}
int BufferCore::compute(const std::string& target, const std::string& source, int64_t t, Transform& out, int64_t& used, std::string* err) const
{
  out = Transform::getIdentity();
  if (target.empty() || source.empty() || target[0] == '/' || source[0] == '/')
  {
    if (err)
      *err = "Invalid argument passed to lookupTransform: frame_ids cannot be empty or start with a slash";
    return 4;
  }
  if (target == source)
  {
    // no validation of the frame, as in tf2
    auto it = frames_.find(target);
    used = t != 0 || it == frames_.end() || it->second.d.empty() || it->second.is_static ? t : it->second.d.back().t;
    return 0;
  }
  for (const auto& f : {target, source})
    if (!known_.count(f))
    {
      if (err)
        *err = "\"" + f + "\" passed to lookupTransform argument does not exist. ";
      return 1;
    }
  used = t;
  if (t == 0)
  {
    const int r = latest(target, source, t, err);
    if (r)
      return r;
    used = t;
  }
  std::vector<std::string> up{source}, dn{target};
  for (const std::string* p = parent(source, t); p && up.size() < 100; p = parent(*p, t))
    up.push_back(*p);
  for (const std::string* p = parent(target, t); p && dn.size() < 100; p = parent(*p, t))
    dn.push_back(*p);
  size_t i, j = 0;
  bool found = false;
  for (i = 0; i < up.size() && !found; ++i)
    for (j = 0; j < dn.size(); ++j)
      if (up[i] == dn[j])
      {
        found = true;
        break;
      }
  if (!found)
  {
    if (err)
      *err = "Could not find a connection between '" + target + "' and '" + source + "' because they are not part of the same tree. Tf has two or more unconnected trees.";
    return 2;
  }
  --i;
  Transform a = Transform::getIdentity(), b = Transform::getIdentity();
  E e;
  for (size_t k = 0; k < i; ++k)
  {
    if (!at(up[k], t, e, err))
      return 3;
    a = Transform(e.q, e.p) * a;
  }
  for (size_t k = 0; k < j; ++k)
  {
    if (!at(dn[k], t, e, err))
      return 3;
    b = Transform(e.q, e.p) * b;
  }
  out = b.inverse() * a;
  return 0;
}
static void raise(int r, const std::string& e)
{
  switch (r)
  {
    case 1:
      throw LookupException(e);
    case 2:
      throw ConnectivityException(e);
    case 3:
      throw ExtrapolationException(e);
    case 4:
      throw InvalidArgumentException(e);
  }
}
static geometry_msgs::TransformStamped msg(const std::string& target, const std::string& source, int64_t t, const Transform& x)
{
  geometry_msgs::TransformStamped o;
  o.header.frame_id = target;
  o.child_frame_id = source;
  o.header.stamp.fromNSec(static_cast<uint64_t>(t));
  o.transform.translation.x = x.getOrigin().x();
  o.transform.translation.y = x.getOrigin().y();
  o.transform.translation.z = x.getOrigin().z();
  const Quaternion q = x.getRotation();
  o.transform.rotation.x = q.x();
  o.transform.rotation.y = q.y();
  o.transform.rotation.z = q.z();
  o.transform.rotation.w = q.w();
  return o;
}
geometry_msgs::TransformStamped BufferCore::lookupTransform(const std::string& target, const std::string& source, const ros::Time& t) const
{
  if (sim::Sim::g)
    sim::Sim::g->charge(10 * sim::US);
  const std::string a = target, b = source;
  Transform x;
  int64_t used = 0;
  std::string err;
  raise(compute(a, b, static_cast<int64_t>(t.toNSec()), x, used, &err), err);
  return msg(a, b, used, x);
}
geometry_msgs::TransformStamped BufferCore::lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                            const ros::Time& st, const std::string& fixed) const
{
  if (sim::Sim::g)
    sim::Sim::g->charge(10 * sim::US);
  const std::string a = target, b = source, f = fixed;
  Transform x, y;
  int64_t used = 0, u2 = 0;
  std::string err;
  raise(compute(f, b, static_cast<int64_t>(st.toNSec()), x, u2, &err), err);
  raise(compute(a, f, static_cast<int64_t>(tt.toNSec()), y, used, &err), err);
  return msg(a, b, used, y * x);
}
bool BufferCore::canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string* err) const
{
  Transform x;
  int64_t used;
  return compute(target, source, static_cast<int64_t>(t.toNSec()), x, used, err) == 0;
}
bool BufferCore::canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                              const std::string& fixed, std::string* err) const
{
  Transform x;
  int64_t used;
  return compute(fixed, source, static_cast<int64_t>(st.toNSec()), x, used, err) == 0 &&
         compute(target, fixed, static_cast<int64_t>(tt.toNSec()), x, used, err) == 0;
}
}  // namespace tf2
namespace tf2_ros
{
// The polling loop of tf2_ros::Buffer::canTransform
template <class F>
static bool wait(F f, ros::Duration timeout)
{
  sim::Sim* s = sim::Sim::g;
  if (f())
    return true;
  if (!s->cur || timeout.toNSec() <= 0)
    return false;
  const ros::Time start = ros::Time::now();
  while (ros::Time::now() < start + timeout && !f() && ros::Time::now() + ros::Duration(3.0) >= start && s->cur->ok)
    ros::Duration(0.01).sleep();
  return f();
}
geometry_msgs::TransformStamped Buffer::lookupTransform(const std::string& target, const std::string& source, const ros::Time& t,
                                                        const ros::Duration timeout) const
{
  wait([&] { return BufferCore::canTransform(target, source, t); }, timeout);
  return BufferCore::lookupTransform(target, source, t);
}
geometry_msgs::TransformStamped Buffer::lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                        const ros::Time& st, const std::string& fixed, const ros::Duration timeout) const
{
  wait([&] { return BufferCore::canTransform(target, tt, source, st, fixed); }, timeout);
  return BufferCore::lookupTransform(target, tt, source, st, fixed);
}
bool Buffer::canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout, std::string* err) const
{
  return wait([&] { return BufferCore::canTransform(target, source, t, err); }, timeout);
}
bool Buffer::canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                          const std::string& fixed, const ros::Duration timeout, std::string* err) const
{
  return wait([&] { return BufferCore::canTransform(target, tt, source, st, fixed, err); }, timeout);
}
TransformListener::TransformListener(tf2::BufferCore& b, bool, ros::TransportHints) { init(b); }
TransformListener::TransformListener(tf2::BufferCore& b, const ros::NodeHandle&, bool, ros::TransportHints) { init(b); }
TransformListener::~TransformListener() {}
void TransformListener::init(tf2::BufferCore& b)
{
  sim::Sim* s = sim::Sim::g;
  sim::Node* n = s->cur ? s->cur : s->world;
  n->tf_buffers.push_back(&b);
  a_ = std::make_shared<sim::SubHandle>();
  a_->s = s->subscribe(n, "/tf", "tf2_msgs/TFMessage", 0, [&b](const sim::MsgRef& m, sim::Node* f) {
    for (auto& t : static_cast<const tf2_msgs::TFMessage*>(m.p.get())->transforms)
      b.setTransform(t, f->name, false);
  }, true);
  b_ = std::make_shared<sim::SubHandle>();
  b_->s = s->subscribe(n, "/tf_static", "tf2_msgs/TFMessage", 0, [&b](const sim::MsgRef& m, sim::Node* f) {
    for (auto& t : static_cast<const tf2_msgs::TFMessage*>(m.p.get())->transforms)
      b.setTransform(t, f->name, true);
  }, true);
}
TransformBroadcaster::TransformBroadcaster() { pub_ = ros::NodeHandle().advertise<tf2_msgs::TFMessage>("/tf", 100); }
void TransformBroadcaster::sendTransform(const geometry_msgs::TransformStamped& t) { sendTransform(std::vector<geometry_msgs::TransformStamped>{t}); }
void TransformBroadcaster::sendTransform(const std::vector<geometry_msgs::TransformStamped>& t)
{
  tf2_msgs::TFMessage m;
  m.transforms = t;
  pub_.publish(m);
}
StaticTransformBroadcaster::StaticTransformBroadcaster() { pub_ = ros::NodeHandle().advertise<tf2_msgs::TFMessage>("/tf_static", 100, true); }
void StaticTransformBroadcaster::sendTransform(const geometry_msgs::TransformStamped& t) { sendTransform(std::vector<geometry_msgs::TransformStamped>{t}); }
void StaticTransformBroadcaster::sendTransform(const std::vector<geometry_msgs::TransformStamped>& ts)
{
  for (auto& t : ts)
  {
    bool done = false;
    for (auto& a : all_)
      if (a.child_frame_id == t.child_frame_id)
      {
        a = t;
        done = true;
      }
    if (!done)
      all_.push_back(t);
  }
  tf2_msgs::TFMessage m;
  m.transforms = all_;
  pub_.publish(m);
}
}  // namespace tf2_ros
