// simros core: an in-process, single-threaded, seeded discrete-event simulation of a ROS 1 graph.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <sim/rng.h>
#include <sim/msg_base.h>

namespace XmlRpc
{
class XmlRpcValue;
}
namespace sim
{
typedef int64_t ns_t;
constexpr ns_t US = 1000, MS = 1000000, SEC = 1000000000;
inline ns_t sec(double s) { return static_cast<ns_t>(std::llround(s * 1e9)); }
constexpr ns_t T_MAX = INT64_MAX;

struct TypeInfo
{
  const char* datatype;
  uint64_t (*hash)(const void*);
  void (*ser)(const void*, std::vector<uint8_t>&);
};
template <class M>
const TypeInfo* typeInfo()
{
  static const TypeInfo ti = {
      M::__datatype(),
      [](const void* p) -> uint64_t { ros::serialization::HStream h; h.next(*static_cast<const M*>(p)); return h.h_; },
      [](const void* p, std::vector<uint8_t>& o) {
        const M& m = *static_cast<const M*>(p);
        o.resize(ros::serialization::serializationLength(m));
        ros::serialization::OStream s(o.data(), static_cast<uint32_t>(o.size()));
        s.next(m);
      }};
  return &ti;
}
struct MsgRef
{
  boost::shared_ptr<const void> p;
  const TypeInfo* ti = nullptr;
  template <class M> const M* get() const
  {
    return std::string(ti->datatype) == M::__datatype() ? static_cast<const M*>(p.get()) : nullptr;
  }
};
template <class M>
MsgRef makeMsg(const M& m)
{
  MsgRef r;
  r.p = boost::make_shared<M>(m);
  r.ti = typeInfo<M>();
  return r;
}

struct Fiber;
struct Node;
struct SubImpl;
struct PubImpl;
struct Conn;
struct Sim;

enum class CbKind : uint8_t { MSG, TIMER, SERVICE, FUNC };

struct CbEntry
{
  CbKind kind;
  std::string label;
  std::function<void()> fn;
  MsgRef msg;
  SubImpl* sub = nullptr;
  bool cancelled = false;
};
typedef std::shared_ptr<CbEntry> CbEntryPtr;

struct SubImpl
{
  Node* node = nullptr;
  std::string topic, type;  // type "*": any
  uint32_t qsize = 0;
  bool direct = false;  // handled on arrival (listener thread) instead of through the callback queue
  bool alive = true;
  std::function<void(const MsgRef&, Node* from)> cb;
  std::deque<CbEntryPtr> pend;
  std::set<const PubImpl*> conns;
  uint64_t n_recv = 0, n_overflow = 0;
};
struct PubImpl
{
  Node* node = nullptr;
  std::string topic, type;
  bool latch = false, alive = true, has_latched = false;
  MsgRef latched;
  std::vector<std::shared_ptr<Conn>> conns;
};
struct Conn
{
  std::shared_ptr<PubImpl> pub;
  std::shared_ptr<SubImpl> sub;
  std::string key;
  uint64_t hkey = 0, n = 0;
  ns_t last_t = 0;
  bool alive = true;
};
struct SrvImpl
{
  Node* node = nullptr;
  std::string name;
  bool alive = true;
  std::function<bool(void* req, void* res)> fn;
};
struct TimerImpl
{
  Node* node = nullptr;
  int index = 0;
  ns_t period = 0;
  bool oneshot = false, running = false, alive = true, pending = false, started = false;
  ns_t next_expected = 0, last_expected = 0, last_real = 0;  // node clock
  uint64_t gen = 0;
  std::function<void(ns_t last_expected, ns_t last_real, ns_t cur_expected, ns_t cur_real)> fn;
};

struct Node
{
  std::string name;  // absolute, "/safety_limiter"
  Sim* sim = nullptr;
  int id = 0;
  bool is_world = false;
  std::function<int(int, char**)> main_fn;
  std::vector<std::string> args;
  std::map<std::string, std::string> remaps;
  Fiber* fiber = nullptr;
  bool ok = true;          // ros::ok()
  bool started = false;
  bool done = false;       // main returned or died
  bool crashed = false;    // killed by the simulator
  bool died = false;       // exception / assertion
  std::string death;
  int exit_code = 0;
  uint32_t incarnation = 0;
  ns_t clock_off = 0;      // node clock = true time + clock_off
  ns_t debt = 0;           // cpu time charged since the fiber was resumed
  ns_t busy_until = 0;
  double cpu_scale = 1.0;
  std::deque<CbEntryPtr> cbq;
  std::vector<std::shared_ptr<SubImpl>> subs;
  std::vector<std::shared_ptr<PubImpl>> pubs;
  std::vector<std::shared_ptr<SrvImpl>> srvs;
  std::vector<std::shared_ptr<TimerImpl>> timers;
  std::vector<std::function<void(std::map<std::string, std::string>)>> reconf;
  std::string cur_cb;
  uint64_t n_cb = 0;
  int timer_index = 0;
  ns_t t_last_block = 0;
  std::vector<void*> tf_buffers;
};

/// Fault windows; every decision inside a window is keyed by hash(seed, fault index, connection, n).
struct Fault
{
  std::string kind;    // drop dup delay reorder partition stall crash clock cpu tf_gap ...
  std::string target;  // topic / node / connection substring
  ns_t t0 = 0, t1 = 0;
  double p = 1.0, a = 0, b = 0;
  int index = 0;
  std::string str() const;
};

struct NetCfg
{
  ns_t lat_min = 50 * US, lat_jit = 400 * US;  // base latency and jitter
  ns_t conn_min = 1 * MS, conn_jit = 5 * MS;   // connection establishment
  double tail_p = 0.0;                         // occasional long latency
  ns_t tail = 20 * MS;
};

typedef std::function<void(const std::string& topic, const MsgRef&, Node* from)> Tap;

struct ProcLimits
{
  uint64_t max_events = 4000000;
};

struct Sim
{
  static Sim* g;
  uint64_t seed = 0;
  ns_t now = 0;  // true time, ns since the epoch
  ns_t t_start = 0;
  bool sched_random = true;  // random tie breaking, latency jitter
  bool sim_time = false;
  NetCfg net;
  uint64_t hash = 0x12345678;       // trace hash: every event with its payload
  uint64_t order_hash = 0x9876;     // order of (node, callback) only: interleaving measure
  uint64_t n_events = 0, n_cbs = 0, n_msgs = 0;
  uint64_t max_events = 6000000;
  bool stop = false;
  bool verbose = false;

  struct Ev
  {
    ns_t t;
    uint64_t tie, seq;
    std::function<void()> fn;
  };
  struct EvLess
  {
    bool operator()(const Ev& a, const Ev& b) const
    {
      return a.t != b.t ? a.t > b.t : a.tie != b.tie ? a.tie > b.tie : a.seq > b.seq;
    }
  };
  std::vector<Ev> heap;
  uint64_t ev_seq = 0;
  std::vector<std::shared_ptr<std::function<void()>>> tickers;

  std::vector<std::unique_ptr<Node>> nodes;
  Node* world = nullptr;
  Node* cur = nullptr;  // node whose fiber is running
  std::multimap<std::string, std::shared_ptr<SubImpl>> subs;
  std::multimap<std::string, std::shared_ptr<PubImpl>> pubs;
  std::map<std::string, std::shared_ptr<SrvImpl>> srvs;
  std::map<std::string, XmlRpc::XmlRpcValue>* params;
  std::multimap<std::string, Tap> taps;       // at publish
  SubImpl* cur_sub = nullptr;  // of the message callback which runs
  std::multimap<std::string, Tap> exec_taps;  // right before a node's callback for a message runs; key node+" "+topic
  std::multimap<std::string, Tap> recv_taps;  // when a message reaches a node (before queueing); key node+" "+topic
  std::vector<std::function<void(Node*, const std::string& label, bool begin)>> cb_hooks;
  std::multimap<std::string, std::function<void(void* req, void* res, bool ok, Node*)>> srv_taps;  // right after a service was served
  std::vector<Fault> faults;
  std::map<std::string, uint64_t> fault_count;
  std::map<std::string, uint64_t> probes;
  std::set<uint64_t> states;
  std::vector<std::string> log_tail;
  std::function<void(Node*)> on_death;
  std::map<std::string, int> log_count;  // level -> count

  explicit Sim(uint64_t seed);
  // --- events ---
  void at(ns_t t, std::function<void()> fn);
  void after(ns_t d, std::function<void()> fn) { at(now + d, std::move(fn)); }
  void every(ns_t t0, ns_t period, std::function<void()> fn);  // until stop
  void run(ns_t until);
  double tsec() const { return (now - t_start) * 1e-9; }
  uint64_t key(const std::string& s, uint64_t a = 0, uint64_t b = 0) const { return comb(comb(comb(seed, hashStr(s)), a), b); }
  void mixHash(uint64_t v) { hash = (hash ^ v) * 0x9E3779B97F4A7C15ull; hash ^= hash >> 31; }
  void probe(const std::string& s, uint64_t n = 1) { probes[s] += n; }
  void state(uint64_t h) { states.insert(h); }
  void countFault(const std::string& k, uint64_t n = 1) { fault_count[k] += n; }

  // --- nodes ---
  Node* spawn(const std::string& name, std::function<int(int, char**)> fn,
              std::map<std::string, std::string> remaps = {}, ns_t t = -1);
  Node* node(const std::string& name);
  void kill(Node* n);      // SIGKILL
  void restart(Node* n);   // start the same node again (after kill or exit)
  void interrupt(Node* n); // SIGINT: ros::ok() becomes false
  void stall(Node* n, ns_t d);
  void resume(Node* n);
  void wakeQueue(Node* n);

  // --- called from node fibers ---
  ns_t nodeNow();                  // node clock of the running node, charges cpu
  void charge(ns_t d);
  void chargeScaled(ns_t d);
  void sleepNode(ns_t d);          // blocks the fiber for d (true time)
  void yieldDebt();
  bool waitQueue(ns_t timeout);    // blocks until the callback queue is non-empty
  int runCallbacks(size_t max);
  void enqueue(Node* n, CbEntryPtr e);

  // --- graph ---
  std::shared_ptr<SubImpl> subscribe(Node* n, const std::string& topic, const std::string& type, uint32_t q,
                                     std::function<void(const MsgRef&, Node*)> cb, bool direct = false);
  std::shared_ptr<PubImpl> advertise(Node* n, const std::string& topic, const std::string& type, bool latch);
  void publish(const std::shared_ptr<PubImpl>& p, const MsgRef& m);
  void unsubscribe(const std::shared_ptr<SubImpl>& s);
  void unadvertise(const std::shared_ptr<PubImpl>& p);
  std::shared_ptr<SrvImpl> advertiseService(Node* n, const std::string& name, std::function<bool(void*, void*)> fn);
  // asynchronous service call from the world; done(ok) runs when the response arrives
  void callService(const std::string& name, std::shared_ptr<void> req, std::shared_ptr<void> res,
                   std::function<void(bool found, bool ok)> done);
  bool callServiceBlocking(const std::string& name, void* req, void* res);
  std::shared_ptr<TimerImpl> createTimer(Node* n, ns_t period, bool oneshot, bool autostart,
                                         std::function<void(ns_t, ns_t, ns_t, ns_t)> fn);
  void startTimer(const std::shared_ptr<TimerImpl>& t);
  void setTimerPeriod(const std::shared_ptr<TimerImpl>& t, ns_t period, bool reset);
  void armTimer(const std::shared_ptr<TimerImpl>& t);

  // --- world helpers ---
  template <class M>
  std::function<void(const M&)> pub(const std::string& topic, bool latch = false)
  {
    auto p = advertise(world, topic, M::__datatype(), latch);
    return [this, p](const M& m) { publish(p, makeMsg(m)); };
  }
  template <class M>
  void sub(const std::string& topic, std::function<void(const M&)> fn)
  {
    subscribe(world, topic, M::__datatype(), 0, [fn](const MsgRef& m, Node*) { fn(*static_cast<const M*>(m.p.get())); }, true);
  }
  template <class M>
  void tap(const std::string& topic, std::function<void(const M&, Node*)> fn)
  {
    taps.emplace(topic, [fn](const std::string&, const MsgRef& m, Node* n) {
      if (const M* p = m.get<M>())
        fn(*p, n);
    });
  }
  /// Called just before the node's own callback for a message on the topic executes.
  template <class M>
  void onExec(const std::string& node, const std::string& topic, std::function<void(const M&, Node*)> fn)
  {
    exec_taps.emplace(node + " " + topic, [fn](const std::string&, const MsgRef& m, Node* n) {
      if (const M* p = m.get<M>())
        fn(*p, n);
    });
  }
  /// Called when a message on the topic arrives at the node.
  template <class M>
  void onRecv(const std::string& node, const std::string& topic, std::function<void(const M&, Node*)> fn)
  {
    recv_taps.emplace(node + " " + topic, [fn](const std::string&, const MsgRef& m, Node* n) {
      if (const M* p = m.get<M>())
        fn(*p, n);
    });
  }
  template <class Srv>
  void onService(const std::string& name, std::function<void(const typename Srv::Request&, const typename Srv::Response&, bool ok, Node*)> fn)
  {
    srv_taps.emplace(name, [fn](void* q, void* a, bool ok, Node* n) { fn(*static_cast<typename Srv::Request*>(q), *static_cast<typename Srv::Response*>(a), ok, n); });
  }
  void tapAny(const std::string& topic, Tap t) { taps.emplace(topic, t); }
  template <class Srv>
  void call(const std::string& name, const typename Srv::Request& req,
            std::function<void(bool found, bool ok, const typename Srv::Response&)> done)
  {
    auto rq = std::make_shared<typename Srv::Request>(req);
    auto rs = std::make_shared<typename Srv::Response>();
    callService(name, rq, rs, [rs, done](bool f, bool ok) { if (done) done(f, ok, *rs); });
  }
  void reconfigure(const std::string& node, const std::map<std::string, std::string>& values);

  // params
  void setParam(const std::string& k, const XmlRpc::XmlRpcValue& v);
  void setParam(const std::string& k, double v);
  void setParam(const std::string& k, int v);
  void setParam(const std::string& k, bool v);
  void setParam(const std::string& k, const char* v);
  void setParam(const std::string& k, const std::string& v);

  // logs
  void log(int level, const char* file, int line, const std::string& s);
  void trace(const std::string& s);  // verbose only
  void nodeDied(const std::string& why);

private:
  void connect(const std::shared_ptr<PubImpl>& p, const std::shared_ptr<SubImpl>& s);
  void transmit(const std::shared_ptr<Conn>& c, const MsgRef& m, bool latched);
  void deliver(const std::shared_ptr<Conn>& c, const MsgRef& m);
  void switchTo(Node* n);
  void fiberReturn();
  void block();
  friend struct FiberEntry;
};
/// Thrown nowhere: a killed fiber is simply abandoned. Used to unwind nothing.
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(uint64_t v);
void ioYield(const char* what);
inline ros::Time rosTime(ns_t t) { ros::Time r; r.fromNSec(static_cast<uint64_t>(t)); return r; }
inline ros::Duration rosDur(ns_t t) { ros::Duration r; r.fromNSec(t); return r; }
}  // namespace sim
#endif
