#include <sim/omp.h>
#include <boost/chrono/system_clocks.hpp>
#include <boost/context/detail/fcontext.hpp>
#include <omp.h>
#include <sys/mman.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unordered_map>
#include <vector>
#include <sim/fiber.h>
namespace sim
{
namespace bc = boost::context::detail;
OmpStats omp_stats;
uint64_t omp_preempt_mean = 0;
std::function<void(uintptr_t, bool, bool, void*, void*)> omp_on_race;
bool omp_race_check = false;
bool omp_bias = false;
std::function<ns_t()> mono_cost;
namespace
{
uint64_t g_rng = 1;
uint64_t rnd()
{
  g_rng += 0x9E3779B97F4A7C15ull;
  uint64_t z = g_rng;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Team;
struct Worker
{
  enum St { READY, BARRIER, CRIT, DONE } st = READY;
  Team* team = nullptr;
  int id = 0;
  uint64_t singles = 0;
  void* ctx = nullptr;
  char* stack = nullptr;
  uint64_t eh[2] = {0, 0};
  bool in_crit = false;
  uint32_t bias = 1;
  std::exception_ptr ex;
};
struct Cell
{
  uint32_t ep = 0;      // phase (barrier epoch) of the entries below
  int8_t w = -1;        // last writer in this phase
  bool w_crit = false;
  uint32_t readers = 0;       // not in a critical section
  uint32_t readers_crit = 0;
  void* pc = nullptr;
};
struct Team
{
  int n = 1;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  std::vector<Worker> w;
  int cur = -1;
  bool crit_held = false;
  uint64_t singles = 0;
  uint32_t epoch = 1;
  void* master = nullptr;
  std::unordered_map<uintptr_t, Cell> shadow;
  uint64_t until_switch = 0;
};
std::map<Node*, int> g_icv;
std::vector<char*> g_stacks;
constexpr size_t STK = 1 << 20;
// team of each node whose fiber is inside of a parallel region
std::map<Node*, Team*> g_teams;
Team* curTeam()
{
  if (!Sim::g || g_teams.empty())
    return nullptr;
  auto it = g_teams.find(Sim::g->cur);
  return it == g_teams.end() ? nullptr : it->second;
}
void entry(bc::transfer_t t)
{
  Worker* w = static_cast<Worker*>(t.data);
  w->team->master = t.fctx;
  try
  {
    w->team->fn(w->team->data);
  }
  catch (...)
  {
    w->ex = std::current_exception();
  }
  w->st = Worker::DONE;
  bc::jump_fcontext(w->team->master, nullptr);
  abort();
}
void nextPreempt(Team* t) { t->until_switch = omp_preempt_mean ? 1 + rnd() % (2 * omp_preempt_mean) : ~0ull; }
void toMaster(Team* t)
{
  bc::transfer_t r = bc::jump_fcontext(t->master, nullptr);
  t->master = r.fctx;
}
void runTeam(Team* t)
{
  for (;;)
  {
    int ready[64], nr = 0, nb = 0, nd = 0;
    for (auto& w : t->w)
    {
      if (w.st == Worker::CRIT && !t->crit_held)
        ready[nr++] = w.id;
      else if (w.st == Worker::READY)
        ready[nr++] = w.id;
      else if (w.st == Worker::BARRIER)
        ++nb;
      else if (w.st == Worker::DONE)
        ++nd;
    }
    if (nr == 0)
    {
      if (nd == t->n)
        return;
      if (nb == t->n)
      {
        ++t->epoch;
        for (auto& w : t->w)
        {
          w.st = Worker::READY;
          if (omp_bias)
            w.bias = 1u << (rnd() % 3 * 4);
        }
        continue;
      }
      throw NodeAbort{strf("OpenMP deadlock: %d of %d threads wait at a barrier, %d left the region", nb, t->n, nd)};
    }
    int pick = 0;
    if (nr > 1 && !omp_bias)
      pick = static_cast<int>(rnd() % nr);
    else if (nr > 1)
    {
      // workers stalled by the rest of the machine: some run far more often than others until the next barrier
      uint64_t tot = 0;
      for (int i = 0; i < nr; ++i)
        tot += t->w[ready[i]].bias;
      uint64_t u = rnd() % tot;
      while (u >= t->w[ready[pick]].bias)
        u -= t->w[ready[pick++]].bias;
    }
    Worker& w = t->w[ready[pick]];
    if (w.st == Worker::CRIT)
    {
      t->crit_held = true;
      w.in_crit = true;
      w.st = Worker::READY;
    }
    if (t->cur != w.id)
      ++omp_stats.switches;
    t->cur = w.id;
    nextPreempt(t);
    Sim::g->order_hash = (Sim::g->order_hash ^ static_cast<uint64_t>(w.id + 1)) * 0x100000001B3ull;
    bc::transfer_t r = bc::jump_fcontext(w.ctx, &w);
    w.ctx = r.fctx;
  }
}
}  // namespace
void ompAlloc(void* p, size_t n)
{
  Team* t = omp_race_check ? curTeam() : nullptr;
  if (!t || t->shadow.empty())
    return;
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (uintptr_t q = a & ~uintptr_t(3); q < a + n; q += 4)
    t->shadow.erase(q);
}
void ompReset(uint64_t seed)
{
  omp_bias = false;
  g_rng = seed * 0x9E3779B97F4A7C15ull + 77;
  g_icv.clear();
  g_teams.clear();
}
static void access(uintptr_t a, size_t sz, bool write, void* pc)
{
  Team* t = curTeam();
  if (!t || t->cur < 0)
    return;
  Worker& w = t->w[t->cur];
  ++omp_stats.accesses;
  if (omp_race_check && !(a >= reinterpret_cast<uintptr_t>(w.stack) && a < reinterpret_cast<uintptr_t>(w.stack) + STK))
  {
    for (uintptr_t p = a & ~uintptr_t(3); p < a + sz; p += 4)
    {
      Cell& c = t->shadow[p];
      if (c.ep != t->epoch)
      {
        c = Cell();
        c.ep = t->epoch;
      }
      const uint32_t me = 1u << w.id;
      const bool cw = c.w >= 0 && c.w != w.id && !(c.w_crit && w.in_crit);
      const bool cr = write && ((c.readers & ~me) || (!w.in_crit && (c.readers_crit & ~me)));
      if ((cw || cr) && omp_on_race)
        omp_on_race(p, cw, write, c.pc, pc);
      if (write)
      {
        c.w = static_cast<int8_t>(w.id);
        c.w_crit = w.in_crit;
        c.pc = pc;
      }
      else if (w.in_crit)
        c.readers_crit |= me;
      else
        c.readers |= me;
      if (!c.pc)
        c.pc = pc;
    }
  }
  if (--t->until_switch == 0)
    toMaster(t);
}
}  // namespace sim

using namespace sim;
extern "C"
{
  void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned)
  {
    Node* n = Sim::g ? Sim::g->cur : nullptr;
    int k = nt ? static_cast<int>(nt) : (n && g_icv.count(n) ? g_icv[n] : 1);
    if (k > 32)
      k = 32;
    ++omp_stats.regions;
    if (k <= 1 || !n || g_teams.count(n))
    {
      fn(data);
      return;
    }
    Team* t = new Team();
    t->n = k;
    t->fn = fn;
    t->data = data;
    t->w.resize(k);
    omp_stats.workers += k;
    for (int i = 0; i < k; ++i)
    {
      Worker& w = t->w[i];
      w.team = t;
      w.id = i;
      if (!g_stacks.empty())
      {
        w.stack = g_stacks.back();
        g_stacks.pop_back();
      }
      else
      {
        w.stack = static_cast<char*>(mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        mprotect(w.stack, 4096, PROT_NONE);
      }
      w.ctx = bc::make_fcontext(w.stack + STK, STK - 8192, entry);
    }
    g_teams[n] = t;
    try
    {
      runTeam(t);
    }
    catch (...)
    {
      g_teams.erase(n);
      throw;
    }
    g_teams.erase(n);
    std::exception_ptr ex;
    for (auto& w : t->w)
    {
      g_stacks.push_back(w.stack);
      if (w.ex && !ex)
        ex = w.ex;
    }
    delete t;
    if (ex)
      throw NodeAbort{"exception left an OpenMP region"};
  }
  void GOMP_barrier()
  {
    Team* t = curTeam();
    if (!t)
      return;
    t->w[t->cur].st = Worker::BARRIER;
    toMaster(t);
  }
  bool GOMP_single_start()
  {
    Team* t = curTeam();
    if (!t)
      return true;
    Worker& w = t->w[t->cur];
    if (++w.singles > t->singles)
    {
      t->singles = w.singles;
      return true;
    }
    return false;
  }
  void GOMP_critical_start()
  {
    Team* t = curTeam();
    if (!t)
      return;
    t->w[t->cur].st = Worker::CRIT;
    toMaster(t);
  }
  void GOMP_critical_end()
  {
    Team* t = curTeam();
    if (!t)
      return;
    t->crit_held = false;
    t->w[t->cur].in_crit = false;
  }
  void GOMP_critical_name_start(void**) { GOMP_critical_start(); }
  void GOMP_critical_name_end(void**) { GOMP_critical_end(); }
  void GOMP_atomic_start() { GOMP_critical_start(); }
  void GOMP_atomic_end() { GOMP_critical_end(); }
  int omp_get_num_threads() noexcept
  {
    Team* t = curTeam();
    return t ? t->n : 1;
  }
  int omp_get_thread_num() noexcept
  {
    Team* t = curTeam();
    return t ? t->cur : 0;
  }
  int omp_get_max_threads() noexcept
  {
    Node* n = Sim::g ? Sim::g->cur : nullptr;
    return n && g_icv.count(n) ? g_icv[n] : 1;
  }
  int omp_in_parallel() noexcept { return curTeam() != nullptr; }
  int omp_get_num_procs() noexcept { return 8; }
  double omp_get_wtime() noexcept { return Sim::g ? (Sim::g->now - Sim::g->t_start) * 1e-9 : 0; }
  void omp_set_num_threads(int k) noexcept
  {
    if (Sim::g && Sim::g->cur && k > 0)
      g_icv[Sim::g->cur] = k;
  }
  // Instrumented accesses (code compiled with -fsanitize=thread, linked with these instead of the runtime).
#define ACC(sz)                                                                                     \
  void __tsan_read##sz(void* p) { access(reinterpret_cast<uintptr_t>(p), sz, false, __builtin_return_address(0)); } \
  void __tsan_write##sz(void* p) { access(reinterpret_cast<uintptr_t>(p), sz, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##sz(void* p) { access(reinterpret_cast<uintptr_t>(p), sz, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##sz(void* p) { access(reinterpret_cast<uintptr_t>(p), sz, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##sz(void* p) { access(reinterpret_cast<uintptr_t>(p), sz, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##sz(void* p) { access(reinterpret_cast<uintptr_t>(p), sz, true, __builtin_return_address(0)); }
  ACC(1)
  ACC(2)
  ACC(4)
  ACC(8)
  ACC(16)
  void __tsan_read_range(void* p, size_t n) { access(reinterpret_cast<uintptr_t>(p), n, false, __builtin_return_address(0)); }
  void __tsan_write_range(void* p, size_t n) { access(reinterpret_cast<uintptr_t>(p), n, true, __builtin_return_address(0)); }
  void __tsan_init() {}
  void __tsan_func_entry(void*) {}
  void __tsan_func_exit() {}
  void __tsan_vptr_update(void** p, void*) { access(reinterpret_cast<uintptr_t>(p), 8, true, __builtin_return_address(0)); }
  void __tsan_vptr_read(void** p) { access(reinterpret_cast<uintptr_t>(p), 8, false, __builtin_return_address(0)); }
  void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
  void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
  void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
  // atomics: executed as they are; they order accesses only between themselves
#define ATM(N, T)                                                                                                   \
  T __tsan_atomic##N##_load(const volatile T* a, int) { return *a; }                                                \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { *a = v; }                                                \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { T o = *a; *a = v; return o; }                            \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { T o = *a; *a = o + v; return o; }                       \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { T o = *a; *a = o - v; return o; }                       \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { T o = *a; *a = o | v; return o; }                        \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { T o = *a; *a = o & v; return o; }                       \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { T o = *a; *a = o ^ v; return o; }                       \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)                                \
  {                                                                                                                 \
    if (*a == *c) { *a = v; return 1; }                                                                             \
    *c = *a;                                                                                                        \
    return 0;                                                                                                       \
  }                                                                                                                 \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, m, f); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { T o = *a; if (o == c) *a = v; return o; }
  ATM(8, uint8_t)
  ATM(16, uint16_t)
  ATM(32, uint32_t)
  ATM(64, uint64_t)
  void __tsan_atomic_thread_fence(int) {}
  void __tsan_atomic_signal_fence(int) {}
}
// The monotonic clocks used by the nodes follow the simulated time of the node.
static ns_t mono()
{
  Sim* s = Sim::g;
  if (!s)
    return 0;
  if (s->cur)
    s->charge(mono_cost ? mono_cost() : 1 * US);
  return s->now + (s->cur ? s->cur->debt : 0) - s->t_start + 1000 * SEC;
}
namespace boost
{
namespace chrono
{
steady_clock::time_point steady_clock::now() BOOST_NOEXCEPT { return time_point(duration(mono())); }
steady_clock::time_point steady_clock::now(system::error_code& ec)
{
  ec = system::error_code();
  return time_point(duration(mono()));
}
system_clock::time_point system_clock::now() BOOST_NOEXCEPT
{
  Sim* s = Sim::g;
  return time_point(duration_cast<duration>(nanoseconds(s ? s->nodeNow() : 0)));
}
}  // namespace chrono
}  // namespace boost
