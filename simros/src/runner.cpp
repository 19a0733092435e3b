// Explorer, replayer and minimiser shared by all harness binaries.
#include <sim/harness.h>
#include <sim/omp.h>
#include <sim/fiber.h>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <ftw.h>
#include <malloc.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
HarnessInfo& harness()
{
  static HarnessInfo h;
  return h;
}
int Run::op(ns_t t, const std::string& desc, std::function<void()> fn)
{
  const int i = static_cast<int>(ops.size());
  const bool on = !op_keep || op_keep->count(i);
  ops.push_back(Op{t, desc, nullptr, on});
  if (on)
  {
    Run* self = this;
    sim.at(t, [self, i, fn] {
      self->sim.mixHash(hashStr(self->ops[i].desc) ^ 0x0909);
      if (self->verbose)
        self->sim.trace("op#" + std::to_string(i) + " " + self->ops[i].desc);
      fn();
    });
  }
  return i;
}
int Run::fault(const std::string& kind, const std::string& target, ns_t t0, ns_t t1, double p, double a, double b)
{
  Fault f;
  f.kind = kind;
  f.target = target;
  f.t0 = t0;
  f.t1 = t1;
  f.p = p;
  f.a = a;
  f.b = b;
  f.index = static_cast<int>(all_faults.size());
  all_faults.push_back(f);
  if (!fault_keep || fault_keep->count(f.index))
    sim.faults.push_back(f);
  return f.index;
}
int Run::faultAt(const std::string& kind, const std::string& target, ns_t t, std::function<void()> fn)
{
  Fault f;
  f.kind = kind;
  f.target = target;
  f.t0 = f.t1 = t;
  f.index = static_cast<int>(all_faults.size());
  all_faults.push_back(f);
  if (!fault_keep || fault_keep->count(f.index))
  {
    Run* self = this;
    sim.at(t, [self, fn, kind, target] {
      self->sim.countFault(kind);
      self->sim.trace("fault " + kind + " " + target);
      fn();
    });
  }
  return f.index;
}
void Run::fail(const std::string& s, const std::string& d)
{
  if (failed)
    return;
  failed = true;
  sig = s;
  detail = d;
  fail_t = sim.now;
  sim.trace("VIOLATION " + s + ": " + d);
  sim.stop = true;
}
void netFaults(Run& r, const NetFaultMix& m, ns_t t0, ns_t t1, int max_n)
{
  Rng g = r.rng("netfaults");
  const int n = static_cast<int>(g.i(0, max_n));
  struct K { const char* k; double w; };
  const std::vector<K> ks = {{"drop", m.drop}, {"dup", m.dup}, {"delay", m.delay}, {"reorder", m.reorder}, {"partition", m.partition}, {"latency", m.latency}};
  // swarm: a random subset of kinds is enabled in this run
  std::vector<K> en;
  for (auto& k : ks)
    if (k.w > 0 && g.p(0.6))
      en.push_back(k);
  for (int i = 0; i < n; ++i)
  {
    double tot = 0;
    for (auto& k : en)
      tot += k.w;
    const double u = g.uni() * tot;
    const double a = g.uni(), b = g.uni(), c = g.uni(), d = g.uni();
    const std::string& tg = m.targets[g.u64() % m.targets.size()];
    if (en.empty())
      continue;
    double acc = 0;
    std::string kind = en.back().k;
    for (auto& k : en)
    {
      acc += k.w;
      if (u < acc)
      {
        kind = k.k;
        break;
      }
    }
    const ns_t st = t0 + static_cast<ns_t>(a * (t1 - t0));
    ns_t len = static_cast<ns_t>(std::exp(std::log(0.02) + b * (std::log(std::max(0.03, m.max_partition)) - std::log(0.02))) * SEC);
    ns_t en_t = std::min(t1, st + len);
    if (kind == "latency")
      r.fault("delay", tg, st, en_t, 1.0, c * m.max_delay);
    else if (kind == "partition")
      r.fault("partition", tg, st, en_t, 1.0);
    else if (kind == "delay")
      r.fault("delay", tg, st, en_t, 0.1 + 0.7 * d, c * m.max_delay);
    else if (kind == "reorder")
      r.fault("reorder", tg, st, en_t, 0.1 + 0.5 * d, c * std::min(0.2, m.max_delay));
    else
      r.fault(kind, tg, st, en_t, 0.05 + 0.9 * d * d);
  }
}
void stallFaults(Run& r, const std::vector<std::string>& nodes, ns_t t0, ns_t t1, int max_n, double max_s)
{
  Rng g = r.rng("stallfaults");
  const int n = static_cast<int>(g.i(0, max_n));
  for (int i = 0; i < n; ++i)
  {
    const ns_t t = t0 + static_cast<ns_t>(g.uni() * (t1 - t0));
    const double d = g.logu(0.005, max_s);
    const std::string nm = nodes[g.u64() % nodes.size()];
    Run* rp = &r;
    r.faultAt("stall", nm + strf(" for %.3fs", d), t, [rp, nm, d] {
      if (Node* k = rp->sim.node(nm))
        rp->sim.stall(k, sec(d));
    });
  }
}

void keepServing(Run& r, Node* n, ns_t limit)
{
  struct St
  {
    ns_t t = 0;
    uint64_t cb = 0;
  };
  auto st = std::make_shared<St>();
  Run* rp = &r;
  r.sim.every(r.sim.now + 500 * MS, 500 * MS, [=] {
    const ns_t now = rp->sim.now;
    if (rp->failed)
      return;
    if (n->started && n->done && !n->crashed && !n->died)
    {
      rp->fail("node-exited" + n->name, n->name + strf(" ended by itself with code %d", n->exit_code));
      return;
    }
    if (!n->started || n->done || n->crashed || now < n->busy_until + 500 * MS || n->cbq.empty() || n->n_cb != st->cb)
    {
      st->t = now;
      st->cb = n->n_cb;
    }
    else if (now - st->t > limit)
      rp->fail("not-served" + n->name, n->name + strf(" has not handled any message for %.1f s, %zu are waiting (%s)", (now - st->t) * 1e-9, n->cbq.size(), n->cbq.front()->label.c_str()));
  });
}

namespace
{
enum Status { S_NONE = 0, S_OK, S_FAIL, S_CRASH, S_HANG, S_LOST };
struct Shm
{
  volatile int status;
  volatile int complete;
  char sig[256];
  char detail[3000];
  uint64_t hash, order_hash, events, cbs, msgs;
  int64_t sim_ns, fail_t;
  int n_ops, n_faults, nontrivial;
  uint32_t n_states;
  uint64_t states[1024];
  char text[200000];  // counters, configuration, ops, faults, log
};
struct RunSpec
{
  std::string prop, scenario;
  uint64_t seed = 0;
  bool faults = true, sched = true;
  bool ops_all = true, faults_all = true;
  std::set<int> ops, faults_keep;
};
struct Result
{
  int status = S_NONE;
  std::string sig, detail, cfg, ops, faults, log, other;
  std::map<std::string, uint64_t> fc, probes;
  uint64_t hash = 0, order_hash = 0, events = 0, cbs = 0, msgs = 0;
  ns_t sim_ns = 0, fail_t = 0;
  int n_ops = 0, n_faults = 0;
  bool nontrivial = false;
  std::vector<uint64_t> states;
  bool bad() const { return status == S_FAIL || status == S_CRASH || status == S_HANG; }
};
Shm* g_shm = nullptr;
Run* g_run = nullptr;
std::string g_base;
bool g_verbose = false;
double g_cpu_limit = 40;

void put(char* d, size_t n, const std::string& s)
{
  const size_t k = std::min(n - 1, s.size());
  memcpy(d, s.data(), k);
  d[k] = 0;
}
void dump(Shm* o, Run& r)
{
  Sim& s = r.sim;
  o->hash = s.hash;
  o->order_hash = s.order_hash;
  o->events = s.n_events;
  o->cbs = s.n_cbs;
  o->msgs = s.n_msgs;
  o->sim_ns = s.now - s.t_start;
  o->fail_t = r.fail_t ? r.fail_t - s.t_start : 0;
  o->n_ops = static_cast<int>(r.ops.size());
  o->n_faults = static_cast<int>(r.all_faults.size());
  o->nontrivial = r.nontrivial;
  o->n_states = 0;
  for (uint64_t h : s.states)
    if (o->n_states < 1024)
      o->states[o->n_states++] = h;
  std::ostringstream t;
  for (auto& k : s.fault_count)
    t << "F\t" << k.first << "\t" << k.second << "\n";
  for (auto& k : s.probes)
    t << "P\t" << k.first << "\t" << k.second << "\n";
  t << "C\t" << r.cfg << "\n";
  if (!r.other.empty())
    t << "X\t" << r.other << "\n";
  auto ts = [&](ns_t x) { return strf("%.6f", (x - s.t_start) * 1e-9); };
  for (size_t i = 0; i < r.ops.size() && t.tellp() < 100000; ++i)
    if (r.ops[i].on)
      t << "O\t#" << i << " t=" << ts(r.ops[i].t) << " " << r.ops[i].desc << "\n";
  for (auto& f : r.all_faults)
    if (!r.fault_keep || r.fault_keep->count(f.index))
      t << "A\t#" << f.index << " " << f.kind << " target=" << f.target << " t=[" << ts(f.t0) << "," << ts(f.t1) << "] p=" << f.p << " a=" << f.a << "\n";
  for (auto l : s.log_tail)
  {
    std::replace(l.begin(), l.end(), '\n', ' ');
    t << "L\t" << l << "\n";
  }
  put(o->text, sizeof o->text, t.str());
}
void onSignal(int sg, siginfo_t*, void*)
{
  Shm* o = g_shm;
  if (o && !o->complete)
  {
    Sim* s = Sim::g;
    const char* node = s && s->cur ? s->cur->name.c_str() : "harness";
    const char* nm = sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGFPE ? "SIGFPE" : sg == SIGBUS ? "SIGBUS" : sg == SIGILL ? "SIGILL" : "CPU";
    snprintf(o->sig, sizeof o->sig, sg == SIGPROF ? "hang%s" : "crash-%2$s%1$s", node, nm);
    snprintf(o->detail, sizeof o->detail, "%s in %s while handling '%s'", nm, node, s && s->cur ? s->cur->cur_cb.c_str() : "");
    o->status = sg == SIGPROF ? (s && s->cur ? S_HANG : S_LOST) : S_CRASH;  // a slow oracle says nothing about the code
    if (s)
    {
      o->hash = s->hash;
      o->order_hash = s->order_hash;
      o->events = s->n_events;
      o->sim_ns = s->now - s->t_start;
      o->fail_t = o->sim_ns;
    }
    if (g_run)
    {
      o->n_ops = static_cast<int>(g_run->ops.size());
      o->n_faults = static_cast<int>(g_run->all_faults.size());
      if (sg == SIGPROF || sg == SIGABRT)
        dump(o, *g_run);  // best effort
    }
    o->complete = 1;
  }
  _exit(0);
}
void rmTree(const std::string& d)
{
  if (d.size() < 12 || d.find("simros.") == std::string::npos)
    return;
  nftw(d.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return remove(p); }, 32, FTW_DEPTH | FTW_PHYS);
}
const Scenario* findScenario(const std::string& n)
{
  for (auto& s : harness().scenarios)
    if (n == s.name)
      return &s;
  return nullptr;
}
[[noreturn]] void child(const RunSpec& sp, Shm* o, const std::string& scratch)
{
  g_shm = o;
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF})
    sigaction(s, &sa, nullptr);
  struct itimerval it{};
  it.it_value.tv_sec = static_cast<time_t>(g_cpu_limit);
  if (!g_verbose)
    setitimer(ITIMER_PROF, &it, nullptr);
  struct rlimit rl{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  struct rlimit rf{64 << 20, 64 << 20};
  setrlimit(RLIMIT_FSIZE, &rf);
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit rc{0, 0};
  setrlimit(RLIMIT_CORE, &rc);
  mallopt(M_MMAP_THRESHOLD, 1 << 22);
  // uninitialised heap memory gets a seed-dependent pattern instead of accidental zeroes
  static const int pat[] = {0, 0x00, 0x5a, 0xa5};
  const int pi = static_cast<int>(mix64(sp.seed ^ 0x99) % 4);
  if (pi)
    mallopt(M_PERTURB, pi == 1 ? 0xff : pat[pi]);
  if (!g_verbose)
  {
    // nodes print to the standard streams
    const int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0)
    {
      dup2(nul, 1);
      dup2(nul, 2);
      close(nul);
    }
  }
  rmTree(scratch);
  mkdir(scratch.c_str(), 0755);
  if (chdir(scratch.c_str()) != 0)
    _exit(97);
  Sim* sim = new Sim(mix64(sp.seed));
  sim->sched_random = sp.sched;
  sim->verbose = g_verbose;
  Run* r = new Run(*sim);
  g_run = r;
  r->prop = sp.prop;
  r->scenario = sp.scenario;
  r->seed = sp.seed;
  r->faults = sp.faults;
  r->scratch = scratch;
  r->verbose = g_verbose;
  if (!sp.ops_all)
    r->op_keep = &sp.ops;
  if (!sp.faults_all)
    r->fault_keep = &sp.faults_keep;
  sim->on_death = [r](Node* n) {
    if (r->death_is_violation)
      r->fail("node-died" + n->name, n->name + " died: " + n->death);
  };
  const Scenario* sc = findScenario(sp.scenario);
  if (!sc)
    _exit(98);
  ompReset(sp.seed);
  try
  {
    sc->fn(*r);
  }
  catch (const NodeAbort& e)
  {
    r->fail("abort", e.why);
  }
  catch (const std::exception& e)
  {
    r->fail("exception", std::string("uncaught exception: ") + e.what());
  }
  if (omp_stats.regions)
  {
    sim->probe("omp.regions", omp_stats.regions);
    sim->probe("omp.switches", omp_stats.switches);
    sim->probe("omp.accesses", omp_stats.accesses);
  }
  dump(o, *r);
  if (r->failed)
  {
    put(o->sig, sizeof o->sig, r->sig);
    put(o->detail, sizeof o->detail, strf("t=%.6f ", (r->fail_t - sim->t_start) * 1e-9) + r->detail);
    o->status = S_FAIL;
  }
  else
    o->status = S_OK;
  o->complete = 1;
  _exit(0);
}
Shm* newShm()
{
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
  {
    perror("shm");
    exit(2);
  }
  return static_cast<Shm*>(p);
}
void reset(Shm* o)
{
  o->status = o->complete = 0;
  o->sig[0] = o->detail[0] = o->text[0] = 0;
  o->hash = o->order_hash = o->events = o->cbs = o->msgs = 0;
  o->sim_ns = o->fail_t = 0;
  o->n_ops = o->n_faults = o->nontrivial = 0;
  o->n_states = 0;
}
Result harvest(Shm* o)
{
  Result r;
  r.status = o->complete ? o->status : S_LOST;
  r.sig = o->sig;
  r.detail = o->detail;
  r.hash = o->hash;
  r.order_hash = o->order_hash;
  r.events = o->events;
  r.cbs = o->cbs;
  r.msgs = o->msgs;
  r.sim_ns = o->sim_ns;
  r.fail_t = o->fail_t;
  r.n_ops = o->n_ops;
  r.n_faults = o->n_faults;
  r.nontrivial = o->nontrivial;
  r.states.assign(o->states, o->states + o->n_states);
  std::istringstream t(o->text);
  std::string l;
  while (std::getline(t, l))
  {
    if (l.size() < 2)
      continue;
    const std::string b = l.substr(2);
    switch (l[0])
    {
      case 'F':
      case 'P':
      {
        const size_t k = b.find('\t');
        (l[0] == 'F' ? r.fc : r.probes)[b.substr(0, k)] += strtoull(b.c_str() + k + 1, nullptr, 10);
        break;
      }
      case 'C':
        r.cfg = b;
        break;
      case 'X':
        r.other = b;
        break;
      case 'O':
        r.ops += b + "\n";
        break;
      case 'A':
        r.faults += b + "\n";
        break;
      case 'L':
        r.log += b + "\n";
        break;
    }
  }
  return r;
}
Result runOne(const RunSpec& sp, const std::string& scratch)
{
  static Shm* o = newShm();
  reset(o);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0)
    child(sp, o, scratch);
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
  {
  }
  Result r = harvest(o);
  if (r.status == S_LOST)
  {
    r.sig = "lost-process";
    r.detail = strf("run process ended unexpectedly, status 0x%x", st);
  }
  rmTree(scratch);
  return r;
}
double wall()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += strf("\\u%04x", c);
    else
      o += c;
  }
  return o + "\"";
}
std::string list(const std::set<int>& s)
{
  std::string o;
  for (int i : s)
    o += " " + std::to_string(i);
  return o;
}
void writeReplay(const std::string& path, const RunSpec& sp, const Result& r)
{
  std::ofstream f(path);
  f << "simros-replay 1\n";
  f << "property " << sp.prop << "\nscenario " << sp.scenario << "\nseed " << sp.seed << "\nmode " << (sp.faults ? "faults" : "plain") << "\n";
  f << "sched " << (sp.sched ? 1 : 0) << "\n";
  f << "ops" << (sp.ops_all ? " all" : list(sp.ops)) << "\n";
  f << "faults" << (sp.faults_all ? " all" : list(sp.faults_keep)) << "\n";
  f << "signature " << r.sig << "\nhash " << hex(r.hash) << "\n";
  f << "# violation: " << r.detail << "\n# config: " << r.cfg << "\n# simulated time: " << r.sim_ns * 1e-9 << " s, events " << r.events << "\n";
  std::istringstream a(r.ops), b(r.faults), c(r.log);
  std::string l;
  f << "# operations:\n";
  while (std::getline(a, l))
    f << "#   " << l << "\n";
  f << "# faults:\n";
  while (std::getline(b, l))
    f << "#   " << l << "\n";
  f << "# last log lines:\n";
  while (std::getline(c, l))
    f << "#   " << l << "\n";
}
bool readReplay(const std::string& path, RunSpec& sp, std::string& sig, std::string& hash)
{
  std::ifstream f(path);
  std::string l;
  if (!std::getline(f, l) || l.compare(0, 13, "simros-replay") != 0)
    return false;
  while (std::getline(f, l))
  {
    if (l.empty() || l[0] == '#')
      continue;
    const size_t k = l.find(' ');
    const std::string a = l.substr(0, k), b = k == std::string::npos ? "" : l.substr(k + 1);
    if (a == "property")
      sp.prop = b;
    else if (a == "scenario")
      sp.scenario = b;
    else if (a == "seed")
      sp.seed = strtoull(b.c_str(), nullptr, 10);
    else if (a == "mode")
      sp.faults = b == "faults";
    else if (a == "sched")
      sp.sched = b == "1";
    else if (a == "signature")
      sig = b;
    else if (a == "hash")
      hash = b;
    else if (a == "ops" || a == "faults")
    {
      bool& all = a == "ops" ? sp.ops_all : sp.faults_all;
      std::set<int>& s = a == "ops" ? sp.ops : sp.faults_keep;
      all = b == "all";
      if (!all)
      {
        std::istringstream is(b);
        int v;
        while (is >> v)
          s.insert(v);
      }
    }
  }
  return true;
}

struct Minimiser
{
  RunSpec best;
  Result res;
  std::string sig, scratch;
  int runs = 0, max_runs = 250;
  double t_end;
  bool test(const RunSpec& sp)
  {
    if (runs >= max_runs || wall() > t_end)
      return false;
    ++runs;
    Result r = runOne(sp, scratch);
    if (r.bad() && r.sig == sig)
    {
      best = sp;
      res = r;
      return true;
    }
    return false;
  }
  void ddmin(bool ops)
  {
    auto get = [&]() -> std::set<int>& { return ops ? best.ops : best.faults_keep; };
    size_t n = 2;
    while (get().size() >= 1 && runs < max_runs && wall() < t_end)
    {
      std::vector<int> v(get().begin(), get().end());
      bool ok = false;
      if (n > v.size())
        n = v.size();
      const size_t chunk = (v.size() + n - 1) / n;
      for (size_t i = 0; i < v.size() && !ok; i += chunk)
      {
        RunSpec c = best;
        std::set<int>& s = ops ? c.ops : c.faults_keep;
        for (size_t k = i; k < std::min(v.size(), i + chunk); ++k)
          s.erase(v[k]);
        ok = test(c);
      }
      if (ok)
        n = std::max<size_t>(n - 1, 2);
      else
      {
        if (n >= v.size())
          break;
        n = std::min(v.size(), n * 2);
      }
    }
  }
  void run(const RunSpec& sp, const Result& r0, double budget)
  {
    best = sp;
    res = r0;
    sig = r0.sig;
    t_end = wall() + budget;
    for (int i = 0; i < r0.n_ops; ++i)
      best.ops.insert(i);
    for (int i = 0; i < r0.n_faults; ++i)
      best.faults_keep.insert(i);
    best.ops_all = best.faults_all = false;
    RunSpec c = best;
    if (!test(c))
    {
      best = sp;
      return;
    }
    c = best;
    c.faults_keep.clear();
    if (!best.faults_keep.empty() && !test(c))
      ddmin(false);
    c = best;
    c.sched = false;
    test(c);
    ddmin(true);
    if (!best.faults_keep.empty())
      ddmin(false);
  }
};
std::string argOf(int argc, char** argv, const std::string& k, const std::string& d)
{
  for (int i = 1; i + 1 < argc; ++i)
    if (k == argv[i])
      return argv[i + 1];
  return d;
}
bool hasArg(int argc, char** argv, const std::string& k)
{
  for (int i = 1; i < argc; ++i)
    if (k == argv[i])
      return true;
  return false;
}
RunSpec makeSpec(const std::string& prop, uint64_t base, uint64_t i, const std::string& only)
{
  RunSpec sp;
  sp.prop = prop;
  std::vector<std::pair<const Scenario*, double>> c;
  double tot = 0;
  for (auto& s : harness().scenarios)
  {
    auto it = s.props.find(prop);
    if (it == s.props.end() || (!only.empty() && only != s.name))
      continue;
    c.emplace_back(&s, it->second);
    tot += it->second;
  }
  if (c.empty())
  {
    fprintf(stderr, "no scenario for %s\n", prop.c_str());
    exit(2);
  }
  sp.seed = comb(comb(base, hashStr(prop)), i) & 0x7fffffffffffffffull;
  double u = u01(mix64(sp.seed ^ 0x5ce)) * tot;
  sp.scenario = c.back().first->name;
  for (auto& x : c)
  {
    if (u < x.second)
    {
      sp.scenario = x.first->name;
      break;
    }
    u -= x.second;
  }
  sp.faults = i % 3 != 0;  // one third of the runs is fault free
  return sp;
}

int explore(int argc, char** argv)
{
  const std::string prop = argOf(argc, argv, "--prop", "");
  const uint64_t base = strtoull(argOf(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  const uint64_t runs = strtoull(argOf(argc, argv, "--runs", "1000").c_str(), nullptr, 10);
  const uint64_t first = strtoull(argOf(argc, argv, "--first", "0").c_str(), nullptr, 10);
  const double budget = atof(argOf(argc, argv, "--wall", "600").c_str());
  const int jobs = atoi(argOf(argc, argv, "--jobs", "8").c_str());
  const std::string out = argOf(argc, argv, "--out", "");
  const std::string replay_dir = argOf(argc, argv, "--replays", ".");
  const std::string only = argOf(argc, argv, "--scenario", "");
  const bool keep_going = hasArg(argc, argv, "--all");
  std::set<std::string> known;
  for (int i = 1; i + 1 < argc; ++i)
    if (!strcmp(argv[i], "--known"))
      known.insert(argv[i + 1]);
  const double t0 = wall();

  struct Slot
  {
    pid_t pid = 0;
    Shm* shm = nullptr;
    RunSpec sp;
    uint64_t idx = 0;
    bool again = false;
    std::string scratch;
  };
  std::vector<Slot> slots(jobs);
  for (int i = 0; i < jobs; ++i)
  {
    slots[i].shm = newShm();
    slots[i].scratch = g_base + "." + std::to_string(i);
  }
  uint64_t next = first, done = 0, plain = 0, nontriv = 0, events = 0, cbs = 0, msgs = 0, lost = 0, capped = 0;
  double sim_s = 0;
  std::map<std::string, std::string> other_ex;
  std::map<std::string, uint64_t> fc, probes, sigs, others, scen, known_hits, frun;
  std::map<std::string, std::string> known_detail;
  std::set<uint64_t> inter, inter_nt, states;
  std::vector<std::pair<uint64_t, Result>> viol;
  std::vector<RunSpec> vspec;
  struct Sample { RunSpec sp; Result r; };
  std::vector<Sample> samples;
  std::map<uint64_t, uint64_t> hashes;  // for the determinism re-runs
  std::vector<uint64_t> recheck;
  uint64_t re_ok = 0, re_bad = 0;
  std::string re_detail;
  bool stop_new = false;
  double first_viol = -1;
  auto launch = [&](Slot& s, uint64_t idx, bool again) {
    s.sp = makeSpec(prop, base, idx, only);
    s.idx = idx;
    s.again = again;
    reset(s.shm);
    pid_t p = fork();
    if (p == 0)
      child(s.sp, s.shm, s.scratch);
    s.pid = p;
  };
  const uint64_t re_every = std::max<uint64_t>(1, runs / 40);
  for (;;)
  {
    int busy = 0;
    for (auto& s : slots)
    {
      if (s.pid == 0)
      {
        if (!recheck.empty() && !stop_new)
        {
          const uint64_t i = recheck.back();
          recheck.pop_back();
          launch(s, i, true);
        }
        else if (!stop_new && !(first_viol >= 0 && !keep_going && wall() - first_viol > 10) && next < first + runs && wall() - t0 < budget)
          launch(s, next++, false);
      }
      if (s.pid)
        ++busy;
    }
    if (!busy)
      break;
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0)
    {
      if (errno == EINTR)
        continue;
      break;
    }
    for (auto& s : slots)
    {
      if (s.pid != p)
        continue;
      s.pid = 0;
      Result r = harvest(s.shm);
      if (s.again)
      {
        if (r.hash == hashes[s.idx])
          ++re_ok;
        else
        {
          ++re_bad;
          re_detail += strf("seed %llu scenario %s: %s vs %s; ", (unsigned long long)s.sp.seed, s.sp.scenario.c_str(), hex(hashes[s.idx]).c_str(), hex(r.hash).c_str());
        }
        continue;
      }
      ++done;
      if (r.status == S_LOST)
      {
        ++lost;
        r.sig = "lost-process";
        r.detail = strf("status 0x%x", st);
        fprintf(stderr, "lost run: seed=%llu scenario=%s status=0x%x\n", (unsigned long long)s.sp.seed, s.sp.scenario.c_str(), st);
        continue;
      }
      if (!s.sp.faults)
        ++plain;
      scen[s.sp.scenario]++;
      sim_s += r.sim_ns * 1e-9;
      events += r.events;
      cbs += r.cbs;
      msgs += r.msgs;
      for (auto& k : r.fc)
      {
        fc[k.first] += k.second;
        frun[k.first]++;
      }
      for (auto& k : r.probes)
        probes[k.first] += k.second;
      if (r.probes.count("sim.event_cap"))
        ++capped;
      inter.insert(r.order_hash);
      if (r.nontrivial)
      {
        ++nontriv;
        inter_nt.insert(comb(r.order_hash, r.hash));
      }
      states.insert(r.states.begin(), r.states.end());
      if (!r.other.empty())
      {
        others[r.other]++;
        other_ex.emplace(r.other, s.sp.scenario + " " + std::to_string(s.sp.seed) + (s.sp.faults ? "" : " --plain"));
      }
      if (samples.size() < 3 && r.nontrivial && (s.sp.faults || samples.empty()))
        samples.push_back(Sample{s.sp, r});
      if ((s.idx - first) % re_every == 0 || (r.bad() && recheck.size() < 3))
      {
        hashes[s.idx] = r.hash;
        recheck.push_back(s.idx);
      }
      if (r.bad())
      {
        sigs[r.sig]++;
        if (known.count(r.sig))
        {
          known_hits[r.sig]++;
          if (!known_detail.count(r.sig))
            known_detail[r.sig] = r.detail + " (seed " + std::to_string(s.sp.seed) + ")";
        }
        else
        {
          viol.emplace_back(s.idx, r);
          vspec.push_back(s.sp);
          if (first_viol < 0)
            first_viol = wall();
          // a few more, in case the first one is not repeatable
          if ((!keep_going && (viol.size() >= 6 || wall() - first_viol > 10)) || viol.size() > 2000)
            stop_new = true;
        }
      }
    }
  }
  for (auto& s : slots)
    rmTree(s.scratch);

  // ---- violations: gate, minimise, write replay, confirm in a fresh process
  int rc = 0;
  std::string vjson;
  std::vector<size_t> order(viol.size());
  for (size_t i = 0; i < order.size(); ++i)
    order[i] = i;
  std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return viol[a].first < viol[b].first; });
  std::set<std::string> reported;
  int attempts = 0, unreproducible = 0;
  std::vector<size_t> unstable;
  for (size_t k : order)
  {
    const Result& r = viol[k].second;
    if (reported.count(r.sig) || attempts >= 12)
      continue;
    ++attempts;
    const std::string sc = g_base + ".m";
    Result again = runOne(vspec[k], sc);
    if (!again.bad() || again.sig != r.sig || (again.hash != r.hash && r.status != S_HANG))
    {
      fprintf(stderr, "NOT REPRODUCIBLE: seed=%llu %s (%s %s) vs (%s %s)\n", (unsigned long long)vspec[k].seed, r.sig.c_str(), r.sig.c_str(), hex(r.hash).c_str(), again.sig.c_str(), hex(again.hash).c_str());
      ++unreproducible;
      unstable.push_back(k);
      continue;
    }
    Minimiser m;
    m.scratch = sc;
    m.run(vspec[k], again, r.status == S_HANG ? 200 : 60);
    std::string base_name = prop + "-" + r.sig;
    for (char& ch : base_name)
      if (!isalnum(static_cast<unsigned char>(ch)) && ch != '-' && ch != '_')
        ch = '_';
    const std::string path = replay_dir + "/" + base_name + ".replay";
    mkdir(replay_dir.c_str(), 0755);
    writeReplay(path, m.best, m.res);
    // fresh process
    const std::string cmd = std::string(argv[0]) + " replay '" + path + "' > /dev/null 2>&1";
    const int st = system(cmd.c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1))
    {
      fprintf(stderr, "REPLAY OF %s DID NOT REPRODUCE (status %d)\n", path.c_str(), st);
      ++unreproducible;
      unstable.push_back(k);
      continue;
    }
    reported.insert(r.sig);
    rc = 1;
    printf("violation %s %s: %s\n  config: %s\n  original: %d ops, %d faults; minimised: %zu ops, %zu faults in %d runs; seed %llu\n", prop.c_str(), r.sig.c_str(),
           m.res.detail.c_str(), m.res.cfg.c_str(), r.n_ops, r.n_faults, m.best.ops_all ? (size_t)r.n_ops : m.best.ops.size(),
           m.best.faults_all ? (size_t)r.n_faults : m.best.faults_keep.size(), m.runs, (unsigned long long)m.best.seed);
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
    vjson += (vjson.empty() ? "" : ",") + std::string("{\"signature\":") + jstr(r.sig) + ",\"detail\":" + jstr(m.res.detail) + ",\"replay\":" + jstr(path) + "}";
    if (!keep_going || reported.size() >= 8)
      break;
  }
  // A node which reads memory it does not own (uninitialised, out of bounds) violates in most, but not in equal executions.
  for (size_t i = 0; rc == 0 && i < unstable.size() && i < 8; ++i)
  {
    const size_t k = unstable[i];
    const Result& r = viol[k].second;
    std::string base_name = prop + "-" + r.sig;
    for (char& ch : base_name)
      if (!isalnum(static_cast<unsigned char>(ch)) && ch != '-' && ch != '_')
        ch = '_';
    const std::string path = replay_dir + "/" + base_name + ".replay";
    mkdir(replay_dir.c_str(), 0755);
    writeReplay(path, vspec[k], r);
    int again = 0;
    for (int n = 0; n < 3; ++n)
      again += runOne(vspec[k], g_base + ".m").bad();
    for (int n = 0; n < 3; ++n)
    {
      const int st = system((std::string(argv[0]) + " replay '" + path + "' > /dev/null 2>&1").c_str());
      again += WIFEXITED(st) && (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 3);
    }
    if (!again)
      continue;
    rc = 1;
    printf("violation %s %s: %s\n  config: %s\n  violated again in %d of 6 executions of the same seed, which differ: the node depends on the content of foreign memory; seed %llu\n", prop.c_str(), r.sig.c_str(), r.detail.c_str(), r.cfg.c_str(), again,
           (unsigned long long)vspec[k].seed);
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
    vjson += (vjson.empty() ? "" : ",") + std::string("{\"signature\":") + jstr(r.sig) + ",\"detail\":" + jstr(r.detail) + ",\"replay\":" + jstr(path) + "}";
  }
  if (rc == 0 && unreproducible)
    rc = 3;
  const double w = wall() - t0;
  auto jmap = [&](const std::map<std::string, uint64_t>& m) {
    std::string o = "{";
    for (auto& k : m)
      o += (o.size() > 1 ? "," : "") + jstr(k.first) + ":" + std::to_string(k.second);
    return o + "}";
  };
  for (auto& k : known_hits)
    printf("known %s\t%llu\t%s\n", k.first.c_str(), (unsigned long long)k.second, known_detail[k.first].c_str());
  if (!out.empty())
  {
    std::ofstream f(out);
    f << "{\"runs\":" << done << ",\"plain_runs\":" << plain << ",\"nontrivial\":" << nontriv << ",\"distinct_interleavings\":" << inter.size()
      << ",\"distinct_nontrivial\":" << inter_nt.size() << ",\"distinct_states\":" << states.size() << ",\"events\":" << events << ",\"callbacks\":" << cbs
      << ",\"messages\":" << msgs << ",\"sim_seconds\":" << sim_s << ",\"wall\":" << w << ",\"runs_per_hour\":" << static_cast<uint64_t>(done / std::max(w, 1e-3) * 3600)
      << ",\"lost\":" << lost << ",\"event_capped\":" << capped << ",\"determinism_reruns_ok\":" << re_ok << ",\"determinism_reruns_bad\":" << re_bad << ",\"fault_events\":" << jmap(fc)
      << ",\"fault_runs\":" << jmap(frun) << ",\"probes\":" << jmap(probes) << ",\"scenarios\":" << jmap(scen) << ",\"signatures\":" << jmap(sigs)
      << ",\"known\":" << jmap(known_hits) << ",\"other_properties\":" << jmap(others) << ",\"real\":" << jstr(harness().real) << ",\"stub\":" << jstr(harness().stub)
      << ",\"violations\":[" << vjson << "],\"unreproducible\":" << unreproducible << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
    {
      auto cut = [](const std::string& s) { return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; };
      f << (i ? "," : "") << "{\"scenario\":" << jstr(samples[i].sp.scenario) << ",\"seed\":" << samples[i].sp.seed << ",\"config\":" << jstr(samples[i].r.cfg)
        << ",\"ops\":" << jstr(cut(samples[i].r.ops)) << ",\"faults\":" << jstr(cut(samples[i].r.faults)) << ",\"sim_s\":" << samples[i].r.sim_ns * 1e-9
        << ",\"events\":" << samples[i].r.events << ",\"hash\":" << jstr(hex(samples[i].r.hash)) << "}";
    }
    f << "]}\n";
  }
  printf("%s: %llu runs (%llu plain, %llu nontrivial), %.0f sim s, %llu events, %zu interleavings, %zu states, reruns %llu/%llu, %.1f s wall\n", prop.c_str(),
         (unsigned long long)done, (unsigned long long)plain, (unsigned long long)nontriv, sim_s, (unsigned long long)events, inter.size(), states.size(),
         (unsigned long long)re_ok, (unsigned long long)(re_ok + re_bad), w);
  if (re_bad)
    printf("NONDETERMINISM: %s\n", re_detail.c_str());
  for (auto& k : sigs)
    printf("  signature %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
  for (auto& k : others)
    printf("  other %s: %llu (%s)\n", k.first.c_str(), (unsigned long long)k.second, other_ex[k.first].c_str());
  if (hasArg(argc, argv, "--stats"))
  {
    for (auto& k : fc)
      printf("  fault %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (auto& k : probes)
      printf("  probe %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
  }
  if (rc == 0 && lost * 20 > done)
    rc = 4;
  return rc;
}
}  // namespace

int harnessMain(int argc, char** argv)
{
  // address space randomisation off: pointer values must not be a source of nondeterminism
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIMROS_NO_REEXEC"))
  {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
    {
      setenv("SIMROS_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  const char* tmp = getenv("TMPDIR");
  g_base = std::string(tmp ? tmp : "/tmp") + "/simros." + std::to_string(getpid());
  if (argc < 2)
  {
    fprintf(stderr, "usage: %s explore|replay|run|list ...\n", argv[0]);
    return 2;
  }
  const std::string cmd = argv[1];
  g_cpu_limit = atof(argOf(argc, argv, "--cpu", "40").c_str());
  if (cmd == "list")
  {
    for (auto& s : harness().scenarios)
    {
      printf("%s:", s.name);
      for (auto& p : s.props)
        printf(" %s=%.2f", p.first.c_str(), p.second);
      printf("\n");
    }
    return 0;
  }
  if (cmd == "explore")
    return explore(argc, argv);
  if (cmd == "replay" || cmd == "run")
  {
    RunSpec sp;
    std::string sig, hash;
    if (cmd == "replay")
    {
      if (argc < 3 || !readReplay(argv[2], sp, sig, hash))
      {
        fprintf(stderr, "cannot read replay file\n");
        return 2;
      }
    }
    else
    {
      sp.prop = argOf(argc, argv, "--prop", "");
      sp.scenario = argOf(argc, argv, "--scenario", harness().scenarios[0].name);
      sp.seed = strtoull(argOf(argc, argv, "--seed", "1").c_str(), nullptr, 10);
      sp.faults = !hasArg(argc, argv, "--plain");
    }
    g_verbose = hasArg(argc, argv, "-v");
    Result r = runOne(sp, g_base + ".r");
    printf("status=%d signature=%s\n%s\nconfig: %s\nhash=%s events=%llu sim=%.3f s nontrivial=%d\n", r.status, r.sig.c_str(), r.detail.c_str(), r.cfg.c_str(),
           hex(r.hash).c_str(), (unsigned long long)r.events, r.sim_ns * 1e-9, r.nontrivial);
    printf("ops:\n%sfaults:\n%slog:\n%s", r.ops.c_str(), r.faults.c_str(), r.log.c_str());
    for (auto& k : r.probes)
      printf("probe %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (auto& k : r.fc)
      printf("fault %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
    if (!r.other.empty())
      printf("other: %s\n", r.other.c_str());
    if (cmd == "replay")
    {
      const bool same = r.bad() && r.sig == sig && (hex(r.hash) == hash || r.status == S_HANG);
      if (same)
        printf("REPRODUCED exactly: VIOLATION property=%s replay=%s\n", sp.prop.c_str(), argv[2]);
      else
        printf("not reproduced (expected %s %s)\n", sig.c_str(), hash.c_str());
      return same ? 1 : r.bad() ? 3 : 0;
    }
    return r.bad() ? 1 : 0;
  }
  return 2;
}
}  // namespace sim
int main(int argc, char** argv) { return sim::harnessMain(argc, argv); }
