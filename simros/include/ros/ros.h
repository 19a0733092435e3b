#ifndef SIMROS_ROS_H
#define SIMROS_ROS_H
#ifndef BOOST_BIND_GLOBAL_PLACEHOLDERS
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#endif
#include <cmath>
#include <cstdint>
#include <algorithm>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <ros/console.h>
#include <ros/serialization.h>
#include <ros/time.h>
#include <sim/core.h>
#include <std_msgs/Header.h>
#include <xmlrpcpp/XmlRpcValue.h>

namespace ros
{
typedef std::map<std::string, std::string> M_string;
typedef boost::shared_ptr<void> VoidPtr;
typedef boost::shared_ptr<void const> VoidConstPtr;
typedef boost::weak_ptr<void const> VoidConstWPtr;
namespace init_options { enum { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }

class InvalidNameException : public Exception { public: using Exception::Exception; };

void init(int& argc, char** argv, const std::string& name, uint32_t options = 0);
bool ok();
bool isShuttingDown();
void shutdown();
void requestShutdown();
void spin();
void spinOnce();
void waitForShutdown();
namespace this_node
{
const std::string& getName();
const std::string& getNamespace();
}

template <class M>
class MessageEvent
{
public:
  typedef typename std::remove_const<M>::type Message;
  typedef boost::shared_ptr<Message const> ConstMessagePtr;
  MessageEvent() {}
  MessageEvent(const ConstMessagePtr& m, const std::string& pub, const Time& t) : m_(m), pub_(pub), t_(t) {}
  ConstMessagePtr getMessage() const { return m_; }
  const ConstMessagePtr& getConstMessage() const { return m_; }
  const std::string& getPublisherName() const { return pub_; }
  Time getReceiptTime() const { return t_; }

private:
  ConstMessagePtr m_;
  std::string pub_;
  Time t_;
};

class TransportHints
{
public:
  TransportHints& reliable() { return *this; }
  TransportHints& unreliable() { return *this; }
  TransportHints& tcp() { return *this; }
  TransportHints& udp() { return *this; }
  TransportHints& tcpNoDelay(bool = true) { return *this; }
};
struct TimerEvent
{
  Time last_expected, last_real, current_expected, current_real, last_expired, current_expired;
  struct { WallDuration last_duration; } profile;
};
typedef TimerEvent WallTimerEvent;
typedef TimerEvent SteadyTimerEvent;
typedef boost::function<void(const TimerEvent&)> TimerCallback;
}  // namespace ros

namespace sim
{
// How a callback/publish type maps on the wire. Specialised by topic_tools::ShapeShifter.
template <class T>
struct MsgTraits
{
  static const char* datatype() { return T::__datatype(); }
  static boost::shared_ptr<const T> fromRef(const MsgRef& r) { return boost::static_pointer_cast<const T>(r.p); }
  static MsgRef toRef(const T& m) { return makeMsg(m); }
};
template <class P>
struct AdaptBase
{
  typedef P Msg;
  static const P& get(const boost::shared_ptr<const P>& m, const std::string&) { return *m; }
};
template <class T>
struct AdaptBase<boost::shared_ptr<T const>>
{
  typedef T Msg;
  static boost::shared_ptr<T const> get(const boost::shared_ptr<const T>& m, const std::string&) { return m; }
};
template <class T>
struct AdaptBase<boost::shared_ptr<T>>
{
  typedef T Msg;
  static boost::shared_ptr<T> get(const boost::shared_ptr<const T>& m, const std::string&) { return boost::make_shared<T>(*m); }
};
template <class T>
struct AdaptBase<ros::MessageEvent<T>>
{
  typedef typename std::remove_const<T>::type Msg;
  static ros::MessageEvent<T> get(const boost::shared_ptr<const Msg>& m, const std::string& from)
  {
    return ros::MessageEvent<T>(m, from, ros::Time::now());
  }
};
template <class P>
struct Adapt : AdaptBase<typename std::remove_cv<typename std::remove_reference<P>::type>::type> {};

struct SubHandle { std::shared_ptr<SubImpl> s; uint32_t inc; ~SubHandle(); };
struct PubHandle { std::shared_ptr<PubImpl> p; uint32_t inc; ~PubHandle(); };
struct SrvHandle { std::shared_ptr<SrvImpl> s; ~SrvHandle(); };
struct TimerHandle { std::shared_ptr<TimerImpl> t; ~TimerHandle(); };
void pubTypeMismatch(const std::string& topic, const char* adv, const char* got);
}  // namespace sim

namespace ros
{
class Publisher
{
public:
  Publisher() {}
  explicit Publisher(std::shared_ptr<sim::PubHandle> h) : h_(h) {}
  template <class M> void publish(const M& m) const
  {
    if (!h_)
      sim::assertFailed("Call to publish() on an invalid Publisher", __FILE__, __LINE__);
    if (!h_->p->alive)
      return;
    const sim::MsgRef r = sim::MsgTraits<M>::toRef(m);
    if (h_->p->type != "*" && h_->p->type != r.ti->datatype)
      sim::pubTypeMismatch(h_->p->topic, h_->p->type.c_str(), r.ti->datatype);
    sim::Sim::g->publish(h_->p, r);
  }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  uint32_t getNumSubscribers() const { return h_ ? static_cast<uint32_t>(h_->p->conns.size()) : 0; }
  std::string getTopic() const { return h_ ? h_->p->topic : ""; }
  bool isLatched() const { return h_ && h_->p->latch; }
  void shutdown() { if (h_) sim::Sim::g->unadvertise(h_->p); }
  operator void*() const { return h_ ? const_cast<Publisher*>(this) : nullptr; }
  bool operator==(const Publisher& o) const { return h_ == o.h_; }

private:
  std::shared_ptr<sim::PubHandle> h_;
};
class Subscriber
{
public:
  Subscriber() {}
  explicit Subscriber(std::shared_ptr<sim::SubHandle> h) : h_(h) {}
  void shutdown() { if (h_) sim::Sim::g->unsubscribe(h_->s); }
  std::string getTopic() const { return h_ ? h_->s->topic : ""; }
  uint32_t getNumPublishers() const { return h_ ? static_cast<uint32_t>(h_->s->conns.size()) : 0; }
  operator void*() const { return h_ ? const_cast<Subscriber*>(this) : nullptr; }

private:
  std::shared_ptr<sim::SubHandle> h_;
};
class ServiceServer
{
public:
  ServiceServer() {}
  explicit ServiceServer(std::shared_ptr<sim::SrvHandle> h) : h_(h) {}
  void shutdown() { h_.reset(); }
  std::string getService() const { return h_ ? h_->s->name : ""; }
  operator void*() const { return h_ ? const_cast<ServiceServer*>(this) : nullptr; }

private:
  std::shared_ptr<sim::SrvHandle> h_;
};
class ServiceClient
{
public:
  ServiceClient() {}
  explicit ServiceClient(const std::string& n) : n_(n) {}
  template <class S> bool call(S& s) { return sim::Sim::g->callServiceBlocking(n_, &s.request, &s.response); }
  template <class Q, class R> bool call(Q& q, R& r) { return sim::Sim::g->callServiceBlocking(n_, &q, &r); }
  bool exists() { return sim::Sim::g->srvs.count(n_) > 0; }
  bool waitForExistence(Duration timeout = Duration(-1));
  bool isValid() const { return !n_.empty(); }
  std::string getService() { return n_; }

private:
  std::string n_;
};
class Timer
{
public:
  Timer() {}
  explicit Timer(std::shared_ptr<sim::TimerHandle> h) : h_(h) {}
  void start() { if (h_) sim::Sim::g->startTimer(h_->t); }
  void stop() { if (h_) { h_->t->running = h_->t->started = h_->t->pending = false; h_->t->gen++; } }
  void setPeriod(const Duration& d, bool reset = true) { if (h_) sim::Sim::g->setTimerPeriod(h_->t, d.toNSec(), reset); }
  bool hasStarted() const { return h_ && h_->t->started; }
  bool hasPending() { return h_ && h_->t->running; }
  bool isValid() const { return !!h_; }
  operator void*() const { return h_ ? const_cast<Timer*>(this) : nullptr; }

private:
  std::shared_ptr<sim::TimerHandle> h_;
};
typedef Timer WallTimer;
typedef Timer SteadyTimer;

class NodeHandle
{
public:
  NodeHandle(const std::string& ns = std::string(), const M_string& remaps = M_string());
  NodeHandle(const NodeHandle& parent, const std::string& ns);
  const std::string& getNamespace() const { return ns_; }
  const std::string& getUnresolvedNamespace() const { return uns_; }
  std::string resolveName(const std::string& name, bool remap = true) const;
  bool ok() const { return ros::ok(); }
  void shutdown() {}

  // ---- subscribe
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(M), T* obj, const TransportHints& = TransportHints())
  {
    typedef sim::Adapt<M> A;
    return sub<typename A::Msg>(topic, q, [obj, fp](const boost::shared_ptr<const typename A::Msg>& m, const std::string& from) { (obj->*fp)(A::get(m, from)); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(M) const, T* obj, const TransportHints& = TransportHints())
  {
    typedef sim::Adapt<M> A;
    return sub<typename A::Msg>(topic, q, [obj, fp](const boost::shared_ptr<const typename A::Msg>& m, const std::string& from) { (obj->*fp)(A::get(m, from)); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(M), const boost::shared_ptr<T>& obj, const TransportHints& = TransportHints())
  {
    typedef sim::Adapt<M> A;
    return sub<typename A::Msg>(topic, q, [obj, fp](const boost::shared_ptr<const typename A::Msg>& m, const std::string& from) { ((*obj).*fp)(A::get(m, from)); });
  }
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (*fp)(M), const TransportHints& = TransportHints())
  {
    typedef sim::Adapt<M> A;
    return sub<typename A::Msg>(topic, q, [fp](const boost::shared_ptr<const typename A::Msg>& m, const std::string& from) { fp(A::get(m, from)); });
  }
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t q, const boost::function<void(const boost::shared_ptr<M const>&)>& cb,
                       const VoidConstPtr& = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    return sub<M>(topic, q, [cb](const boost::shared_ptr<const M>& m, const std::string&) { cb(m); });
  }
  template <class M, class C>
  Subscriber subscribe(const std::string& topic, uint32_t q, const boost::function<void(C)>& cb,
                       const VoidConstPtr& = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    typedef sim::Adapt<C> A;
    return sub<M>(topic, q, [cb](const boost::shared_ptr<const M>& m, const std::string& from) { cb(A::get(m, from)); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(const boost::shared_ptr<const M>&), T* obj, const TransportHints& = TransportHints())
  {
    return sub<M>(topic, q, [obj, fp](const boost::shared_ptr<const M>& m, const std::string&) { (obj->*fp)(m); });
  }
  // ---- advertise
  template <class M> Publisher advertise(const std::string& topic, uint32_t q, bool latch = false)
  {
    (void)q;
    return adv(topic, sim::MsgTraits<M>::datatype(), latch);
  }
  Publisher adv(const std::string& topic, const std::string& type, bool latch);
  // ---- services
  template <class T, class Q, class R>
  ServiceServer advertiseService(const std::string& name, bool (T::*fn)(Q&, R&), T* obj)
  {
    return srv(name, [obj, fn](void* q, void* r) { return (obj->*fn)(*static_cast<Q*>(q), *static_cast<R*>(r)); });
  }
  template <class Q, class R>
  ServiceServer advertiseService(const std::string& name, bool (*fn)(Q&, R&))
  {
    return srv(name, [fn](void* q, void* r) { return fn(*static_cast<Q*>(q), *static_cast<R*>(r)); });
  }
  ServiceServer srv(const std::string& name, std::function<bool(void*, void*)> fn);
  template <class S> ServiceClient serviceClient(const std::string& name, bool = false) { return ServiceClient(resolveName(name)); }
  // ---- timers
  template <class T> Timer createTimer(Duration p, void (T::*fn)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true) const
  {
    return timer(p, [obj, fn](const TimerEvent& e) { (obj->*fn)(e); }, oneshot, autostart);
  }
  template <class T> Timer createTimer(Duration p, void (T::*fn)(const TimerEvent&) const, T* obj, bool oneshot = false, bool autostart = true) const
  {
    return timer(p, [obj, fn](const TimerEvent& e) { (obj->*fn)(e); }, oneshot, autostart);
  }
  template <class T> Timer createTimer(Rate r, void (T::*fn)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true) const
  {
    return createTimer(r.expectedCycleTime(), fn, obj, oneshot, autostart);
  }
  Timer createTimer(Duration p, const TimerCallback& cb, bool oneshot = false, bool autostart = true) const
  {
    return timer(p, cb, oneshot, autostart);
  }
  template <class T> Timer createWallTimer(WallDuration p, void (T::*fn)(const WallTimerEvent&), T* obj, bool oneshot = false, bool autostart = true) const
  {
    return timer(Duration(p.toSec()), [obj, fn](const TimerEvent& e) { (obj->*fn)(e); }, oneshot, autostart);
  }
  Timer timer(Duration p, const TimerCallback& cb, bool oneshot, bool autostart) const;
  // ---- params
  bool getParam(const std::string& k, std::string& v) const;
  bool getParam(const std::string& k, double& v) const;
  bool getParam(const std::string& k, float& v) const;
  bool getParam(const std::string& k, int& v) const;
  bool getParam(const std::string& k, bool& v) const;
  bool getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const;
  template <class T> bool getParam(const std::string& k, std::vector<T>& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(k, x) || x.getType() != XmlRpc::XmlRpcValue::TypeArray)
      return false;
    v.clear();
    for (int i = 0; i < x.size(); ++i)
      v.push_back(static_cast<T>(x[i]));
    return true;
  }
  template <class T> bool getParam(const std::string& k, std::map<std::string, T>& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(k, x) || x.getType() != XmlRpc::XmlRpcValue::TypeStruct)
      return false;
    v.clear();
    for (auto& e : x)
      v[e.first] = static_cast<T>(e.second);
    return true;
  }
  template <class T> bool getParamCached(const std::string& k, T& v) const { return getParam(k, v); }
  bool hasParam(const std::string& k) const;
  bool deleteParam(const std::string& k) const;
  bool searchParam(const std::string& k, std::string& r) const { r = resolveName(k); return hasParam(k); }
  template <class T> bool param(const std::string& k, T& v, const T& d) const
  {
    if (hasParam(k) && getParam(k, v))
      return true;
    v = d;
    return false;
  }
  template <class T> T param(const std::string& k, const T& d) const { T v; param(k, v, d); return v; }
  void setParam(const std::string& k, const XmlRpc::XmlRpcValue& v) const;
  void setParam(const std::string& k, double v) const { setParam(k, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& k, int v) const { setParam(k, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& k, bool v) const { setParam(k, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& k, const std::string& v) const { setParam(k, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& k, const char* v) const { setParam(k, XmlRpc::XmlRpcValue(v)); }

  template <class M>
  Subscriber sub(const std::string& topic, uint32_t q, std::function<void(const boost::shared_ptr<const M>&, const std::string&)> fn)
  {
    return sub0(topic, sim::MsgTraits<M>::datatype(), q,
                [fn](const sim::MsgRef& r, sim::Node* from) { fn(sim::MsgTraits<M>::fromRef(r), from->name); });
  }
  Subscriber sub0(const std::string& topic, const std::string& type, uint32_t q, std::function<void(const sim::MsgRef&, sim::Node*)> fn);

private:
  std::string ns_, uns_;
};
namespace names { std::string resolve(const std::string& name, bool remap = true); inline std::string append(const std::string& a, const std::string& b) { return a + "/" + b; } }
namespace param
{
inline bool has(const std::string& k) { return NodeHandle().hasParam(k); }
template <class T> bool get(const std::string& k, T& v) { return NodeHandle().getParam(k, v); }
template <class T> bool param(const std::string& k, T& v, const T& d) { return NodeHandle().param(k, v, d); }
template <class T> T param(const std::string& k, const T& d) { return NodeHandle().param(k, d); }
}
class AsyncSpinner
{
public:
  explicit AsyncSpinner(uint32_t) {}
  void start() {}
  void stop() {}
};
}  // namespace ros
#endif
