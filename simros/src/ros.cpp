#include <cstdarg>
#include <ros/ros.h>
#include <sim/fiber.h>
using sim::Sim;
namespace sim
{
void logf(int level, const char* file, int line, const char* fmt, ...)
{
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (Sim::g)
    Sim::g->log(level, file, line, buf);
}
void logs(int level, const char* file, int line, const std::string& s)
{
  if (Sim::g)
    Sim::g->log(level, file, line, s);
}
void assertFailed(const char* cond, const char* file, int line, const char*)
{
  const char* b = strrchr(file, '/');
  std::string w = strf("ASSERTION FAILED %s:%d %s", b ? b + 1 : file, line, cond);
  if (Sim::g && Sim::g->cur)
    throw NodeAbort{w};
  fprintf(stderr, "%s\n", w.c_str());
  abort();
}
bool throttle(double& last, double period)
{
  const double n = Sim::g ? Sim::g->now * 1e-9 : 0;
  if (last + period <= n || last > n)
  {
    last = n;
    return true;
  }
  return false;
}
void pubTypeMismatch(const std::string& topic, const char* adv, const char* got)
{
  throw NodeAbort{strf("Trying to publish message of type [%s] on a publisher with type [%s] (%s)", got, adv, topic.c_str())};
}
SubHandle::~SubHandle() { if (Sim::g) Sim::g->unsubscribe(s); }
PubHandle::~PubHandle() { if (Sim::g) Sim::g->unadvertise(p); }
SrvHandle::~SrvHandle()
{
  s->alive = false;
  auto it = Sim::g->srvs.find(s->name);
  if (it != Sim::g->srvs.end() && it->second == s)
    Sim::g->srvs.erase(it);
}
TimerHandle::~TimerHandle()
{
  t->alive = false;
}
static Node* curNode()
{
  if (!Sim::g->cur)
    return Sim::g->world;
  return Sim::g->cur;
}
static std::string clean(std::string n)
{
  std::string r;
  for (char c : n)
    if (!(c == '/' && !r.empty() && r.back() == '/'))
      r += c;
  if (r.size() > 1 && r.back() == '/')
    r.pop_back();
  return r;
}
static std::string nsOf(const std::string& node)
{
  const size_t p = node.rfind('/');
  return p == 0 || p == std::string::npos ? "/" : node.substr(0, p);
}
static std::string append(const std::string& a, const std::string& b) { return clean(a + "/" + b); }
}  // namespace sim
namespace ros
{
namespace this_node
{
const std::string& getName() { return sim::curNode()->name; }
const std::string& getNamespace()
{
  static std::string r;
  r = sim::nsOf(sim::curNode()->name);
  return r;
}
}
void init(int&, char**, const std::string&, uint32_t) {}
bool ok()
{
  if (Sim::g->cur)
    Sim::g->charge(1 * sim::US);
  return sim::curNode()->ok;
}
bool isShuttingDown() { return !sim::curNode()->ok; }
void shutdown()
{
  sim::Node* n = sim::curNode();
  n->ok = false;
}
void requestShutdown() { shutdown(); }
void spin()
{
  sim::Node* n = sim::curNode();
  while (n->ok)
  {
    Sim::g->waitQueue(sim::T_MAX);
    Sim::g->runCallbacks(SIZE_MAX);
  }
}
void spinOnce()
{
  Sim::g->chargeScaled(20 * sim::US);
  Sim::g->yieldDebt();
  Sim::g->runCallbacks(SIZE_MAX);
}
void waitForShutdown() { while (sim::curNode()->ok) Sim::g->sleepNode(100 * sim::MS); }

Time Time::now()
{
  Time t;
  t.fromNSec(static_cast<uint64_t>(Sim::g->nodeNow()));
  return t;
}
bool Time::isSimTime() { return Sim::g->sim_time; }
bool Time::sleepUntil(const Time& end) { (end - Time::now()).sleep(); return true; }
WallTime WallTime::now()
{
  WallTime t;
  t.fromNSec(static_cast<uint64_t>(Sim::g->nodeNow()));
  return t;
}
bool WallTime::sleepUntil(const WallTime& end) { (end - WallTime::now()).sleep(); return true; }
SteadyTime SteadyTime::now()
{
  SteadyTime t;
  t.fromNSec(static_cast<uint64_t>(Sim::g->nodeNow() - (Sim::g->cur ? Sim::g->cur->clock_off : 0) - Sim::g->t_start + 1000 * sim::SEC));
  return t;
}
bool Duration::sleep() const
{
  // ros::ok() is re-checked every now and then by roscpp as well
  sim::Node* n = sim::curNode();
  sim::ns_t left = toNSec();
  if (left <= 0)
  {
    Sim::g->yieldDebt();
    return true;
  }
  Sim::g->sleepNode(left);
  return n->ok;
}
bool WallDuration::sleep() const
{
  if (toNSec() > 0)
    Sim::g->sleepNode(toNSec());
  return true;
}
Rate::Rate(double f) : start_(Time::now()), expected_(1.0 / f), actual_(0.0) {}
Rate::Rate(const Duration& d) : start_(Time::now()), expected_(d), actual_(0.0) {}
void Rate::reset() { start_ = Time::now(); }
bool Rate::sleep()
{
  Time expected_end = start_ + expected_;
  const Time actual_end = Time::now();
  if (actual_end < start_)
    expected_end = actual_end + expected_;
  const Duration sleep_time = expected_end - actual_end;
  actual_ = actual_end - start_;
  start_ = expected_end;
  if (sleep_time <= Duration(0.0))
  {
    if (actual_end > expected_end + expected_)
      start_ = actual_end;
    Sim::g->yieldDebt();
    return false;
  }
  return sleep_time.sleep();
}
WallRate::WallRate(double f) : start_(WallTime::now()), expected_(1.0 / f), actual_(0.0) {}
void WallRate::reset() { start_ = WallTime::now(); }
bool WallRate::sleep()
{
  WallTime expected_end = start_ + expected_;
  const WallTime actual_end = WallTime::now();
  if (actual_end < start_)
    expected_end = actual_end + expected_;
  const WallDuration sleep_time = expected_end - actual_end;
  start_ = expected_end;
  if (sleep_time <= WallDuration(0.0))
  {
    if (actual_end > expected_end + expected_)
      start_ = actual_end;
    Sim::g->yieldDebt();
    return false;
  }
  return sleep_time.sleep();
}

bool ServiceClient::waitForExistence(Duration timeout)
{
  const sim::ns_t t0 = Sim::g->now;
  while (sim::curNode()->ok)
  {
    if (exists())
      return true;
    if (timeout.toNSec() >= 0 && Sim::g->now - t0 > timeout.toNSec())
      return false;
    Sim::g->sleepNode(20 * sim::MS);
  }
  return false;
}

NodeHandle::NodeHandle(const std::string& ns, const M_string&)
{
  uns_ = ns;
  if (!ns.empty() && ns[0] == '~')
  {
    ns_ = sim::append(sim::curNode()->name, ns.substr(1));
    uns_ = ns_;  // roscpp resolves "~" early
  }
  else if (!ns.empty() && ns[0] == '/')
    ns_ = sim::clean(ns);
  else
    ns_ = sim::append(sim::nsOf(sim::curNode()->name), ns);
}
NodeHandle::NodeHandle(const NodeHandle& parent, const std::string& ns)
{
  if (!ns.empty() && ns[0] == '/')
    ns_ = sim::clean(ns);
  else
    ns_ = sim::append(parent.ns_, ns);
  uns_ = ns_;
}
static std::string remap(const std::string& n)
{
  const auto& r = sim::curNode()->remaps;
  auto it = r.find(n);
  return it == r.end() ? n : it->second;
}
std::string NodeHandle::resolveName(const std::string& name, bool rm) const
{
  if (name.empty())
    return ns_;
  std::string f;
  if (name[0] == '~')
    throw InvalidNameException("Using ~ names with NodeHandle methods is not allowed.  If you want to use private names with the NodeHandle interface, construct a NodeHandle using a private name as its namespace. e.g. ros::NodeHandle nh(\"~\");  nh.getParam(\"my_private_name\"); (name = [" + name + "])");
  f = name[0] == '/' ? sim::clean(name) : sim::append(ns_, name);
  return rm ? remap(f) : f;
}
Subscriber NodeHandle::sub0(const std::string& topic, const std::string& type, uint32_t q, std::function<void(const sim::MsgRef&, sim::Node*)> fn)
{
  auto h = std::make_shared<sim::SubHandle>();
  h->s = Sim::g->subscribe(sim::curNode(), resolveName(topic), type, q, std::move(fn));
  return Subscriber(h);
}
Publisher NodeHandle::adv(const std::string& topic, const std::string& type, bool latch)
{
  auto h = std::make_shared<sim::PubHandle>();
  h->p = Sim::g->advertise(sim::curNode(), resolveName(topic), type, latch);
  return Publisher(h);
}
ServiceServer NodeHandle::srv(const std::string& name, std::function<bool(void*, void*)> fn)
{
  auto h = std::make_shared<sim::SrvHandle>();
  h->s = Sim::g->advertiseService(sim::curNode(), resolveName(name), std::move(fn));
  return ServiceServer(h);
}
Timer NodeHandle::timer(Duration p, const TimerCallback& cb, bool oneshot, bool autostart) const
{
  auto h = std::make_shared<sim::TimerHandle>();
  h->t = Sim::g->createTimer(sim::curNode(), p.toNSec(), oneshot, autostart,
                             [cb](sim::ns_t le, sim::ns_t lr, sim::ns_t ce, sim::ns_t cr) {
                               TimerEvent e;
                               e.last_expected = sim::rosTime(le);
                               e.last_real = sim::rosTime(lr);
                               e.current_expected = sim::rosTime(ce);
                               e.current_real = sim::rosTime(cr);
                               cb(e);
                             });
  return Timer(h);
}
static XmlRpc::XmlRpcValue* find(const std::string& k)
{
  auto it = Sim::g->params->find(k);
  return it == Sim::g->params->end() ? nullptr : &it->second;
}
typedef XmlRpc::XmlRpcValue XV;
bool NodeHandle::getParam(const std::string& k, std::string& v) const
{
  XV* x = find(resolveName(k));
  if (!x || x->getType() != XV::TypeString)
    return false;
  v = static_cast<std::string&>(*x);
  return true;
}
bool NodeHandle::getParam(const std::string& k, double& v) const
{
  XV* x = find(resolveName(k));
  if (!x)
    return false;
  if (x->getType() == XV::TypeInt)
    v = static_cast<int&>(*x);
  else if (x->getType() == XV::TypeDouble)
    v = static_cast<double&>(*x);
  else
    return false;
  return true;
}
bool NodeHandle::getParam(const std::string& k, float& v) const
{
  double d;
  if (!getParam(k, d))
    return false;
  v = static_cast<float>(d);
  return true;
}
bool NodeHandle::getParam(const std::string& k, int& v) const
{
  XV* x = find(resolveName(k));
  if (!x)
    return false;
  if (x->getType() == XV::TypeInt)
    v = static_cast<int&>(*x);
  else if (x->getType() == XV::TypeDouble)
  {
    double d = static_cast<double&>(*x);
    if (fmod(d, 1.0) < 0.5)
      d = floor(d);
    else
      d = ceil(d);
    v = static_cast<int>(d);
  }
  else
    return false;
  return true;
}
bool NodeHandle::getParam(const std::string& k, bool& v) const
{
  XV* x = find(resolveName(k));
  if (!x || x->getType() != XV::TypeBoolean)
    return false;
  v = static_cast<bool&>(*x);
  return true;
}
bool NodeHandle::getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const
{
  XV* x = find(resolveName(k));
  if (!x)
    return false;
  v = *x;
  return true;
}
bool NodeHandle::hasParam(const std::string& k) const
{
  const std::string n = resolveName(k);
  if (find(n))
    return true;
  auto it = Sim::g->params->lower_bound(n + "/");
  return it != Sim::g->params->end() && it->first.compare(0, n.size() + 1, n + "/") == 0;
}
bool NodeHandle::deleteParam(const std::string& k) const { return Sim::g->params->erase(resolveName(k)) > 0; }
void NodeHandle::setParam(const std::string& k, const XmlRpc::XmlRpcValue& v) const { (*Sim::g->params)[resolveName(k)] = v; }
namespace names
{
std::string resolve(const std::string& name, bool rm)
{
  std::string f;
  if (!name.empty() && name[0] == '~')
    f = sim::append(sim::curNode()->name, name.substr(1));
  else if (!name.empty() && name[0] == '/')
    f = sim::clean(name);
  else
    f = sim::append(sim::nsOf(sim::curNode()->name), name);
  return rm ? remap(f) : f;
}
}
}  // namespace ros
