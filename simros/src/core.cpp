#include <sim/core.h>
#include <sim/fiber.h>
#include <xmlrpcpp/XmlRpcValue.h>

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>

namespace sim
{
Sim* Sim::g = nullptr;

std::string strf(const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  char buf[2048];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
std::string hex(uint64_t v) { return strf("%016llx", static_cast<unsigned long long>(v)); }
std::string Fault::str() const
{
  return strf("%s target=%s t=[%.3f,%.3f] p=%.3f a=%.4g b=%.4g", kind.c_str(), target.c_str(), t0 * 1e-9, t1 * 1e-9, p, a, b);
}

// ---------------------------------------------------------------- scheduler
Sim::Sim(uint64_t s) : seed(s)
{
  g = this;
  params = new std::map<std::string, XmlRpc::XmlRpcValue>();
  now = t_start = 1700000000LL * SEC;
  auto n = std::make_unique<Node>();
  n->name = "/sim_world";
  n->sim = this;
  n->is_world = true;
  n->started = true;
  world = n.get();
  nodes.push_back(std::move(n));
}
void Sim::at(ns_t t, std::function<void()> fn)
{
  Ev e;
  e.t = std::max(t, now);
  e.seq = ++ev_seq;
  e.tie = sched_random ? comb(seed ^ 0x77, e.seq) : e.seq;
  e.fn = std::move(fn);
  heap.push_back(std::move(e));
  std::push_heap(heap.begin(), heap.end(), EvLess());
}
void Sim::every(ns_t t0, ns_t period, std::function<void()> fn)
{
  // the callable is shared, so that state captured by value survives between ticks
  struct Ticker
  {
    Sim* s;
    ns_t period;
    std::function<void()> fn;
  };
  auto tk = std::make_shared<Ticker>(Ticker{this, period, std::move(fn)});
  auto f = std::make_shared<std::function<void()>>();
  std::function<void()>* fp = f.get();
  *f = [tk, fp]() {
    tk->fn();
    tk->s->after(tk->period, [fp] { (*fp)(); });
  };
  tickers.push_back(f);
  at(t0, [fp] { (*fp)(); });
}
void Sim::run(ns_t until)
{
  while (!heap.empty() && !stop)
  {
    if (heap.front().t > until)
      break;
    std::pop_heap(heap.begin(), heap.end(), EvLess());
    Ev e = std::move(heap.back());
    heap.pop_back();
    now = e.t;
    ++n_events;
    if (n_events > max_events)
    {
      stop = true;
      probe("sim.event_cap");
      break;
    }
    e.fn();
  }
  if (!stop && now < until)
    now = until;
}
void Sim::trace(const std::string& s)
{
  if (verbose)
    fprintf(stderr, "[%10.6f] %s\n", tsec(), s.c_str());
}
void Sim::log(int level, const char* file, int line, const std::string& s)
{
  static const char* L[] = {"DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
  log_count[L[level]]++;
  if (level >= 1)
  {
    const char* b = strrchr(file, '/');
    std::string l = strf("[%.6f] %s %s:%d: ", tsec(), (cur ? cur->name.c_str() : "-"), b ? b + 1 : file, line) + L[level] + " " + s;
    if (log_tail.size() >= 40)
      log_tail.erase(log_tail.begin());
    log_tail.push_back(l);
  }
  if (verbose)
    fprintf(stderr, "[%10.6f] %s %s: %s\n", tsec(), cur ? cur->name.c_str() : "-", L[level], s.c_str());
}

// ---------------------------------------------------------------- fibers / nodes
struct FiberEntry
{
  static void run(Node* n)
  {
    std::vector<std::string> a = n->args;
    a.insert(a.begin(), n->name);
    std::vector<char*> av;
    for (auto& s : a)
      av.push_back(&s[0]);
    av.push_back(nullptr);
    try
    {
      n->exit_code = n->main_fn(static_cast<int>(a.size()), av.data());
    }
    catch (const NodeAbort& e)
    {
      n->died = true;
      n->death = e.why;
    }
    catch (const std::exception& e)
    {
      n->died = true;
      n->death = std::string("uncaught exception: ") + e.what();
    }
    catch (const XmlRpc::XmlRpcException& e)
    {
      n->died = true;
      n->death = "uncaught XmlRpcException: " + e.getMessage();
    }
    catch (...)
    {
      n->died = true;
      n->death = "uncaught exception";
    }
    n->sim->fiberReturn();
  }
};
static void detachNode(Sim* s, Node* n)
{
  for (auto& x : n->subs)
    s->unsubscribe(x);
  for (auto& x : n->pubs)
    s->unadvertise(x);
  for (auto& x : n->srvs)
  {
    x->alive = false;
    auto it = s->srvs.find(x->name);
    if (it != s->srvs.end() && it->second == x)
      s->srvs.erase(it);
  }
  for (auto& x : n->timers)
    x->alive = false;
  n->subs.clear();
  n->pubs.clear();
  n->srvs.clear();
  n->timers.clear();
  n->reconf.clear();
  n->cbq.clear();
  n->tf_buffers.clear();
}
void Sim::fiberReturn()
{
  Node* n = cur;
  n->done = true;
  n->fiber->state = Fiber::DONE;
  fiberSwitchOut(n->fiber);
  abort();
}
void Sim::switchTo(Node* n)
{
  Fiber* f = n->fiber;
  Node* prev = cur;
  cur = n;
  f->state = Fiber::RUNNING;
  f->wake_gen++;
  n->t_last_block = now;
  fiberSwitchIn(f);
  cur = prev;
  if (f->state == Fiber::DONE)
  {
    trace(n->name + " exited" + (n->died ? " DIED: " + n->death : ""));
    mixHash(hashStr(n->name) ^ 0xdead);
    detachNode(this, n);
    fiberDestroy(f);
    n->fiber = nullptr;
    if (n->died)
    {
      probe("sim.node_died");
      if (on_death)
        on_death(n);
    }
  }
}
void Sim::resume(Node* n)
{
  if (!n->fiber || n->fiber->state == Fiber::RUNNING || n->fiber->state == Fiber::DONE)
    return;
  if (now < n->busy_until)
  {
    uint32_t inc = n->incarnation;
    uint64_t gen = n->fiber->wake_gen;
    at(n->busy_until, [this, n, inc, gen] {
      if (n->incarnation == inc && n->fiber && n->fiber->wake_gen == gen)
        resume(n);
    });
    return;
  }
  switchTo(n);
}
// Gives control back to the scheduler; someone must have arranged for resume().
void Sim::block()
{
  Node* n = cur;
  fiberSwitchOut(n->fiber);
}
Node* Sim::spawn(const std::string& name, std::function<int(int, char**)> fn, std::map<std::string, std::string> remaps, ns_t t)
{
  auto u = std::make_unique<Node>();
  Node* n = u.get();
  n->name = name[0] == '/' ? name : "/" + name;
  n->sim = this;
  n->id = static_cast<int>(nodes.size());
  n->main_fn = std::move(fn);
  n->remaps = std::move(remaps);
  nodes.push_back(std::move(u));
  n->done = true;
  at(t < 0 ? now : t, [this, n] { restart(n); });
  return n;
}
void Sim::restart(Node* n)
{
  if (n->fiber)
    return;
  n->incarnation++;
  n->ok = true;
  n->done = n->crashed = n->died = false;
  n->started = true;
  n->debt = 0;
  n->timer_index = 0;
  n->fiber = fiberCreate([n] { FiberEntry::run(n); });
  mixHash(hashStr(n->name) ^ 0x57a7);
  trace(n->name + " start");
  resume(n);
}
Node* Sim::node(const std::string& name)
{
  for (auto& n : nodes)
    if (n->name == name || n->name == "/" + name)
      return n.get();
  return nullptr;
}
void Sim::kill(Node* n)
{
  if (!n->fiber)
    return;
  trace(n->name + " killed");
  mixHash(hashStr(n->name) ^ 0x9111);
  n->crashed = true;
  n->done = true;
  n->ok = false;
  if (cur == n)
  {
    // SIGKILL in the middle of a system call of the node itself
    n->fiber->state = Fiber::DONE;
    fiberSwitchOut(n->fiber);
    abort();
  }
  fiberAbandon(n->fiber);
  n->fiber = nullptr;
  detachNode(this, n);
}
void Sim::interrupt(Node* n)
{
  if (!n->fiber)
    return;
  n->ok = false;
  wakeQueue(n);
}
void Sim::stall(Node* n, ns_t d) { n->busy_until = std::max(n->busy_until, now + d); }

void Sim::wakeQueue(Node* n)
{
  if (n->fiber && n->fiber->state == Fiber::WAIT_Q)
  {
    n->fiber->state = Fiber::READY;
    uint32_t inc = n->incarnation;
    uint64_t gen = n->fiber->wake_gen;
    at(std::max(now, n->busy_until), [this, n, inc, gen] {
      if (n->incarnation == inc && n->fiber && n->fiber->wake_gen == gen)
        resume(n);
    });
  }
}
void Sim::charge(ns_t d)
{
  if (cur)
  {
    cur->debt += d;
    if (cur->debt > 2 * MS)
      yieldDebt();
  }
}
void Sim::chargeScaled(ns_t d) { if (cur) charge(static_cast<ns_t>(d * cur->cpu_scale)); }
ns_t Sim::nodeNow()
{
  if (!cur)
    return now;
  charge(1 * US);
  return now + cur->debt + cur->clock_off;
}
void Sim::yieldDebt()
{
  Node* n = cur;
  if (!n)
    return;
  const ns_t d = n->debt;
  if (d <= 0)
    return;
  n->debt = 0;
  n->busy_until = std::max(n->busy_until, now + d);
  uint32_t inc = n->incarnation;
  uint64_t gen = n->fiber->wake_gen;
  n->fiber->state = Fiber::READY;
  at(n->busy_until, [this, n, inc, gen] {
    if (n->incarnation == inc && n->fiber && n->fiber->wake_gen == gen)
      resume(n);
  });
  block();
}
void Sim::sleepNode(ns_t d)
{
  Node* n = cur;
  if (!n)
    return;
  const ns_t until = now + n->debt + std::max<ns_t>(d, 0);
  n->debt = 0;
  uint32_t inc = n->incarnation;
  uint64_t gen = n->fiber->wake_gen;
  n->fiber->state = Fiber::SLEEP;
  at(until, [this, n, inc, gen] {
    if (n->incarnation == inc && n->fiber && n->fiber->wake_gen == gen)
      resume(n);
  });
  block();
}
bool Sim::waitQueue(ns_t timeout)
{
  Node* n = cur;
  yieldDebt();
  if (!n->cbq.empty() || !n->ok)
    return !n->cbq.empty();
  n->fiber->state = Fiber::WAIT_Q;
  if (timeout != T_MAX)
  {
    uint32_t inc = n->incarnation;
    uint64_t gen = n->fiber->wake_gen;
    at(now + timeout, [this, n, inc, gen] {
      if (n->incarnation == inc && n->fiber && n->fiber->wake_gen == gen && n->fiber->state == Fiber::WAIT_Q)
        resume(n);
    });
  }
  block();
  return !n->cbq.empty();
}
int Sim::runCallbacks(size_t max)
{
  Node* n = cur;
  int done = 0;
  size_t cnt = std::min(max, n->cbq.size());
  while (cnt-- > 0 && !n->cbq.empty() && n->ok)
  {
    CbEntryPtr e = n->cbq.front();
    n->cbq.pop_front();
    if (e->cancelled)
      continue;
    if (e->sub)
    {
      auto& pd = e->sub->pend;
      if (!pd.empty() && pd.front() == e)
        pd.pop_front();
      if (!e->sub->alive)
        continue;
    }
    ++n_cbs;
    ++n->n_cb;
    const uint64_t lh = hashStr(e->label) ^ (hashStr(n->name) << 1);
    mixHash(lh ^ static_cast<uint64_t>(now - t_start));
    order_hash = mix64(order_hash ^ lh);
    n->debt += 2 * US;
    n->cur_cb = e->label;
    cur_sub = e->sub ? &*e->sub : nullptr;
    if (verbose)
      trace(n->name + " <- " + e->label);
    if (e->msg.p && !exec_taps.empty())
    {
      auto r = exec_taps.equal_range(n->name + " " + e->sub->topic);
      for (auto it = r.first; it != r.second; ++it)
        it->second(e->sub->topic, e->msg, n);
    }
    for (auto& h : cb_hooks)
      h(n, e->label, true);
    e->fn();
    for (auto& h : cb_hooks)
      h(n, e->label, false);
    n->cur_cb.clear();
    ++done;
    yieldDebt();
  }
  return done;
}
void Sim::enqueue(Node* n, CbEntryPtr e)
{
  n->cbq.push_back(std::move(e));
  wakeQueue(n);
}
void Sim::nodeDied(const std::string& why)
{
  throw NodeAbort{why};
}

// ---------------------------------------------------------------- graph
static bool windowHit(const Sim& s, const Fault& f, const Conn& c)
{
  return s.now >= f.t0 && s.now < f.t1 && (f.target.empty() || c.key.find(f.target) != std::string::npos);
}
std::shared_ptr<SubImpl> Sim::subscribe(Node* n, const std::string& topic, const std::string& type, uint32_t q,
                                        std::function<void(const MsgRef&, Node*)> cb, bool direct)
{
  auto s = std::make_shared<SubImpl>();
  s->node = n;
  s->topic = topic;
  s->type = type;
  s->qsize = q;
  s->cb = std::move(cb);
  s->direct = direct;
  n->subs.push_back(s);
  subs.emplace(topic, s);
  auto r = pubs.equal_range(topic);
  for (auto it = r.first; it != r.second; ++it)
    connect(it->second, s);
  return s;
}
std::shared_ptr<PubImpl> Sim::advertise(Node* n, const std::string& topic, const std::string& type, bool latch)
{
  auto p = std::make_shared<PubImpl>();
  p->node = n;
  p->topic = topic;
  p->type = type;
  p->latch = latch;
  n->pubs.push_back(p);
  pubs.emplace(topic, p);
  auto r = subs.equal_range(topic);
  for (auto it = r.first; it != r.second; ++it)
    connect(p, it->second);
  return p;
}
void Sim::connect(const std::shared_ptr<PubImpl>& p, const std::shared_ptr<SubImpl>& s)
{
  if (s->type != "*" && p->type != "*" && s->type != p->type)
  {
    probe("sim.type_mismatch");
    return;
  }
  const std::string key = p->node->name + ">" + p->topic + ">" + s->node->name;
  ns_t d = 0;
  if (!(p->node->is_world && s->node->is_world))
  {
    d = net.conn_min;
    if (sched_random)
      d += static_cast<ns_t>(u01(this->key("conn" + key, p->node->incarnation, s->node->incarnation)) * net.conn_jit);
  }
  auto go = [this, p, s, key] {
    if (!p->alive || !s->alive)
      return;
    auto c = std::make_shared<Conn>();
    c->pub = p;
    c->sub = s;
    c->key = key;
    c->hkey = this->key(key);
    p->conns.push_back(c);
    s->conns.insert(p.get());
    if (p->latch && p->has_latched)
      transmit(c, p->latched, true);
  };
  if (d == 0)
    go();
  else
    after(d, go);
}
void Sim::unsubscribe(const std::shared_ptr<SubImpl>& s)
{
  if (!s->alive)
    return;
  s->alive = false;
  auto r = subs.equal_range(s->topic);
  for (auto it = r.first; it != r.second; ++it)
    if (it->second == s)
    {
      subs.erase(it);
      break;
    }
  auto q = pubs.equal_range(s->topic);
  for (auto it = q.first; it != q.second; ++it)
  {
    auto& v = it->second->conns;
    for (auto& c : v)
      if (c->sub == s)
        c->alive = false;
    v.erase(std::remove_if(v.begin(), v.end(), [&](const std::shared_ptr<Conn>& c) { return c->sub == s; }), v.end());
  }
  for (auto& e : s->pend)
    e->cancelled = true;
  s->pend.clear();
}
void Sim::unadvertise(const std::shared_ptr<PubImpl>& p)
{
  if (!p->alive)
    return;
  p->alive = false;
  auto r = pubs.equal_range(p->topic);
  for (auto it = r.first; it != r.second; ++it)
    if (it->second == p)
    {
      pubs.erase(it);
      break;
    }
  // messages already sent are still delivered; the connection is then gone
  for (auto& c : p->conns)
    c->sub->conns.erase(p.get());
  p->conns.clear();
}
void Sim::publish(const std::shared_ptr<PubImpl>& p, const MsgRef& m)
{
  if (p->node != world)
    order_hash = mix64(order_hash ^ hashStr(p->topic) ^ 0x55);
  if (!p->alive || !p->node->ok)  // roscpp drops what is published after the shutdown
    return;
  if (cur)
    charge(1 * US);
  if (!p->alive)
    return;
  ++n_msgs;
  mixHash(hashStr(p->topic) ^ m.ti->hash(m.p.get()));
  if (verbose)
    trace((cur ? cur->name : p->node->name) + " -> " + p->topic + " [" + m.ti->datatype + "] " + hex(m.ti->hash(m.p.get())));
  if (!taps.empty())
  {
    auto r = taps.equal_range(p->topic);
    for (auto it = r.first; it != r.second; ++it)
      it->second(p->topic, m, p->node);
    r = taps.equal_range("*");
    for (auto it = r.first; it != r.second; ++it)
      it->second(p->topic, m, p->node);
  }
  if (p->latch)
  {
    p->latched = m;
    p->has_latched = true;
  }
  auto conns = p->conns;
  for (auto& c : conns)
    transmit(c, m, false);
}
void Sim::transmit(const std::shared_ptr<Conn>& c, const MsgRef& m, bool latched)
{
  const uint64_t n = c->n++;
  if (c->pub->node->is_world && c->sub->node->is_world)
  {
    deliver(c, m);
    return;
  }
  const ns_t sent = now + (cur ? cur->debt : 0);
  ns_t d = net.lat_min;
  if (sched_random)
  {
    d += static_cast<ns_t>(u01(comb(c->hkey, n * 8 + 1)) * net.lat_jit);
    if (net.tail_p > 0 && u01(comb(c->hkey, n * 8 + 2)) < net.tail_p)
      d += static_cast<ns_t>(u01(comb(c->hkey, n * 8 + 3)) * net.tail);
  }
  bool reorder = false;
  int dups = 0;
  for (const Fault& f : faults)
  {
    if (!windowHit(*this, f, *c))
      continue;
    const double u = u01(comb(comb(c->hkey, n), 1000 + f.index));
    const double v = u01(comb(comb(c->hkey, n), 5000 + f.index));
    if (f.kind == "drop" || f.kind == "partition")
    {
      if (u < f.p && !latched)
      {
        countFault(f.kind);
        return;
      }
      if (latched && f.kind == "partition")
      {
        d += f.t1 - now;  // the connection is established once the network heals
        countFault("latched_late");
      }
    }
    else if (f.kind == "delay")
    {
      if (u < f.p)
      {
        d += static_cast<ns_t>(f.a * 1e9 * (0.2 + 0.8 * v));
        countFault("delay");
      }
    }
    else if (f.kind == "dup")
    {
      if (u < f.p)
      {
        ++dups;
        countFault("dup");
      }
    }
    else if (f.kind == "reorder")
    {
      if (u < f.p)
      {
        reorder = true;
        d += static_cast<ns_t>(f.a * 1e9 * v);
        countFault("reorder");
      }
    }
  }
  ns_t t = sent + d;
  if (!reorder)
  {
    if (t <= c->last_t)
      t = c->last_t + 1;
    c->last_t = t;
  }
  for (int i = 0; i <= dups; ++i)
  {
    at(t, [this, c, m] { deliver(c, m); });
    if (i < dups)
    {
      t += 1 + static_cast<ns_t>(u01(comb(c->hkey, n * 8 + 5)) * 2 * MS);
      c->last_t = std::max(c->last_t, t);
    }
  }
}
void Sim::deliver(const std::shared_ptr<Conn>& c, const MsgRef& m)
{
  const auto& s = c->sub;
  if (!s->alive || !c->alive)
    return;
  s->n_recv++;
  if (!recv_taps.empty())
  {
    auto r = recv_taps.equal_range(s->node->name + " " + s->topic);
    for (auto it = r.first; it != r.second; ++it)
      it->second(s->topic, m, s->node);
  }
  Node* from = c->pub->node;
  if (s->direct)
  {
    if (s->node != world)
      order_hash = mix64(order_hash ^ hashStr(s->topic) ^ (hashStr(s->node->name) << 1));
    s->cb(m, from);
    return;
  }
  if (s->qsize > 0)
    while (s->pend.size() >= s->qsize)
    {
      s->pend.front()->cancelled = true;
      // drop the entry from the node queue lazily
      s->pend.pop_front();
      s->n_overflow++;
      probe("sim.queue_overflow");
    }
  auto e = std::make_shared<CbEntry>();
  e->kind = CbKind::MSG;
  e->label = s->topic;
  e->msg = m;
  e->sub = s.get();
  std::shared_ptr<SubImpl> keep = s;
  e->fn = [keep, m, from] { keep->cb(m, from); };
  s->pend.push_back(e);
  enqueue(s->node, e);
}

// ---------------------------------------------------------------- services
std::shared_ptr<SrvImpl> Sim::advertiseService(Node* n, const std::string& name, std::function<bool(void*, void*)> fn)
{
  auto s = std::make_shared<SrvImpl>();
  s->node = n;
  s->name = name;
  s->fn = std::move(fn);
  n->srvs.push_back(s);
  srvs[name] = s;
  return s;
}
void Sim::callService(const std::string& name, std::shared_ptr<void> req, std::shared_ptr<void> res,
                      std::function<void(bool, bool)> done)
{
  const ns_t d = net.lat_min + (sched_random ? static_cast<ns_t>(u01(key("srv" + name, n_msgs, n_cbs)) * net.lat_jit) : 0);
  after(d, [=, this] {
    auto it = srvs.find(name);
    if (it == srvs.end() || !it->second->alive)
    {
      done(false, false);
      return;
    }
    auto s = it->second;
    auto e = std::make_shared<CbEntry>();
    e->kind = CbKind::SERVICE;
    e->label = "srv:" + name;
    e->fn = [=, this] {
      bool ok = false;
      try
      {
        ok = s->fn(req.get(), res.get());
      }
      catch (const std::exception& ex)  // as roscpp does
      {
        probe("sim.service_exception");
        trace("Exception thrown while processing service call: " + std::string(ex.what()));
      }
      for (auto r = srv_taps.lower_bound(name); r != srv_taps.upper_bound(name); ++r)
        r->second(req.get(), res.get(), ok, s->node);
      const ns_t dd = (cur ? cur->debt : 0) + d;
      after(dd, [=] { done(true, ok); });
    };
    enqueue(s->node, e);
  });
}
bool Sim::callServiceBlocking(const std::string& name, void* req, void* res)
{
  Node* n = cur;
  auto st = std::make_shared<int>(0);
  auto rq = std::shared_ptr<void>(req, [](void*) {});
  auto rs = std::shared_ptr<void>(res, [](void*) {});
  yieldDebt();
  uint32_t inc = n->incarnation;
  callService(name, rq, rs, [=, this](bool f, bool ok) {
    *st = f && ok ? 1 : 2;
    if (n->incarnation == inc && n->fiber && n->fiber->state == Fiber::SLEEP)
      resume(n);
  });
  while (*st == 0)
  {
    n->fiber->state = Fiber::SLEEP;
    block();
  }
  return *st == 1;
}
void Sim::reconfigure(const std::string& name, const std::map<std::string, std::string>& values)
{
  after(net.lat_min, [this, name, values] {
    Node* n = node(name);
    if (!n || n->reconf.empty() || !n->fiber)
    {
      probe("sim.reconf_lost");
      return;
    }
    auto fn = n->reconf.back();
    auto e = std::make_shared<CbEntry>();
    e->kind = CbKind::SERVICE;
    e->label = "reconf";
    e->fn = [fn, values] { fn(values); };
    enqueue(n, e);
  });
}

// ---------------------------------------------------------------- timers (roscpp TimerManager semantics)
std::shared_ptr<TimerImpl> Sim::createTimer(Node* n, ns_t period, bool oneshot, bool autostart,
                                            std::function<void(ns_t, ns_t, ns_t, ns_t)> fn)
{
  auto t = std::make_shared<TimerImpl>();
  t->node = n;
  t->index = n->timer_index++;
  t->period = period;
  t->oneshot = oneshot;
  t->fn = std::move(fn);
  n->timers.push_back(t);
  if (autostart)
    startTimer(t);
  return t;
}
void Sim::startTimer(const std::shared_ptr<TimerImpl>& t)
{
  if (t->started)
    return;
  t->running = t->started = true;
  t->pending = false;
  t->gen++;
  const ns_t nn = now + (cur ? cur->debt : 0) + t->node->clock_off;
  t->last_expected = nn;
  t->next_expected = nn + t->period;
  armTimer(t);
}
// TimerManager::setPeriod: moves a waiting timer (a one-shot one which has fired waits for ever); a callback which is
// already queued is not withdrawn
void Sim::setTimerPeriod(const std::shared_ptr<TimerImpl>& t, ns_t period, bool reset)
{
  t->period = period;
  if (!t->started)
    return;
  if (!reset)
    return;
  t->next_expected = now + (cur ? cur->debt : 0) + t->node->clock_off + period;
  if (t->pending)
    return;
  t->running = true;
  t->gen++;
  armTimer(t);
}
void Sim::armTimer(const std::shared_ptr<TimerImpl>& t)
{
  const uint64_t gen = t->gen;
  // the timer thread waits on the node clock; re-evaluated at least every 100 ms to notice clock jumps
  const ns_t due = t->next_expected - t->node->clock_off;
  ns_t jit = 0;
  if (sched_random)
    jit = static_cast<ns_t>(u01(key("tmr" + t->node->name, t->index, static_cast<uint64_t>(due))) * 60 * US);
  const ns_t when = std::min(std::max(due + jit, now), now + 100 * MS);
  at(when, [this, t, gen] {
    if (!t->alive || !t->running || t->gen != gen)
      return;
    if (now + t->node->clock_off < t->next_expected)
    {
      armTimer(t);
      return;
    }
    auto e = std::make_shared<CbEntry>();
    e->kind = CbKind::TIMER;
    e->label = strf("timer%d", t->index);
    t->pending = true;
    e->fn = [this, t, gen] {
      if (!t->alive || !t->running || t->gen != gen)
        return;
      const ns_t real = now + cur->debt + t->node->clock_off;
      const ns_t exp = t->next_expected;
      const ns_t le = t->last_expected, lr = t->last_real;
      t->fn(le, lr, exp, real);
      t->last_real = real;
      if (t->gen == gen)
        t->pending = false;
      if (!t->alive || !t->running || t->gen != gen)
        return;
      if (t->oneshot)
      {
        t->running = false;
        return;
      }
      const ns_t cn = now + (cur ? cur->debt : 0) + t->node->clock_off;
      if (t->next_expected <= cn)
      {
        t->last_expected = t->next_expected;
        t->next_expected += t->period;
      }
      if (t->next_expected + t->period < cn)
        t->next_expected = cn;
      armTimer(t);
    };
    enqueue(t->node, e);
  });
}

// ---------------------------------------------------------------- params
void Sim::setParam(const std::string& k, const XmlRpc::XmlRpcValue& v) { (*params)[k] = v; }
void Sim::setParam(const std::string& k, double v) { (*params)[k] = XmlRpc::XmlRpcValue(v); }
void Sim::setParam(const std::string& k, int v) { (*params)[k] = XmlRpc::XmlRpcValue(v); }
void Sim::setParam(const std::string& k, bool v) { (*params)[k] = XmlRpc::XmlRpcValue(v); }
void Sim::setParam(const std::string& k, const char* v) { (*params)[k] = XmlRpc::XmlRpcValue(v); }
void Sim::setParam(const std::string& k, const std::string& v) { (*params)[k] = XmlRpc::XmlRpcValue(v); }

// ---------------------------------------------------------------- fibers
}  // namespace sim
