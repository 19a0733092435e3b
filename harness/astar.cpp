// GridAstar (P13) and DistanceMap (P14): every access of the worker threads is a possible switch point.
#include <world.h>
#include <astar_sut.h>
#include <sim/omp.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits>
#include <new>
#include <queue>
#include <set>
using namespace sim;
using namespace astar_sut;
// Memory handed out anew has no history for the race check.
void* operator new(size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  ompAlloc(p, n);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
namespace
{
constexpr float FMAX = std::numeric_limits<float>::max();
constexpr double INF = 1e30;
struct Sched
{
  int threads = 1;
  uint64_t preempt = 0;
  bool bias = false;
};
Sched randomSched(Rng& g, Run& r)
{
  Sched s;
  s.threads = static_cast<int>(g.p(0.15) ? 1 : g.i(2, 8));
  const double u = g.uni();
  s.preempt = u < 0.15 ? 0 : static_cast<uint64_t>(g.logu(1.2, 2000));
  s.bias = g.p(0.4);
  if (!r.faults)
    s.preempt = 0, s.bias = false;
  return s;
}
void apply(Run& r, const Sched& s)
{
  omp_preempt_mean = s.preempt;
  omp_bias = s.bias;
  if (s.threads > 1 && s.preempt)
    r.sim.countFault("thread preemption at an access (call)");
  if (s.threads > 1 && s.bias)
    r.sim.countFault("stalled worker threads (call)");
}
// ---------------------------------------------------------------- P13
struct Grid
{
  int kind, D, N;
  V3 size;
  int n;
  std::vector<float> w;  // cell weight, < 0: obstacle
  std::vector<std::vector<V3>> lists;
  std::vector<int> list_of;
  std::vector<float> h;
  double scale = 1;
  int one_way = 0;
  uint64_t salt = 0;
  bool exact = true, consistent = true;
  std::vector<std::pair<int, float>> starts;
  int goal = 0;
  int idx(const V3& v) const { return v[0] + size[0] * (v[1] + size[1] * v[2]); }
  V3 cell(int i) const { return V3{{i % size[0], i / size[0] % size[1], i / size[0] / size[1]}}; }
  bool norm(V3& v) const
  {
    for (int k = 0; k < 3; ++k)
    {
      if (k >= D)
        continue;
      if (k >= N)
        v[k] = ((v[k] % size[k]) + size[k]) % size[k];
      else if (v[k] < 0 || v[k] >= size[k])
        return false;
    }
    return true;
  }
  double metric(int a, int b) const
  {
    const V3 p = cell(a), q = cell(b);
    int m = 0;
    for (int k = 0; k < D; ++k)
    {
      int d = std::abs(p[k] - q[k]);
      if (k >= N)
        d = std::min(d, size[k] - d);
      m = std::max(m, d);
    }
    return m;
  }
  float cost(int a, int b) const
  {
    if (w[b] < 0 || w[a] < 0)
      return -1;
    if (one_way)
    {
      uint64_t x = (static_cast<uint64_t>(a) * 1000003u + b) * 0x9E3779B97F4A7C15ull + salt;
      x ^= x >> 29;
      if (static_cast<int>(x % 100) < one_way)
        return x & 1024 ? -1 : FMAX;
    }
    const double m = metric(a, b);
    return static_cast<float>((m + w[b] * 0.125 * m) * scale);
  }
  bool hok(int i) const { return !(h[i] < 0) && h[i] != FMAX; }
  template <class F>
  void edges(int a, F f) const
  {
    for (const V3& d : lists[list_of[a]])
    {
      V3 p = cell(a);
      for (int k = 0; k < 3; ++k)
        p[k] += d[k];
      if (!norm(p))
        continue;
      const int b = idx(p);
      const float c = cost(a, b);
      if (c < 0 || c == FMAX)
        continue;
      f(b, c);
    }
  }
  bool hasEdge(int a, int b, float& c) const
  {
    bool ok = false;
    edges(a, [&](int x, float cc) {
      if (x == b)
        ok = true, c = cc;
    });
    return ok;
  }
  // shortest costs from the starts over the cells the search may enter
  std::vector<double> dijkstra() const
  {
    std::vector<double> d(n, INF);
    using Q = std::pair<double, int>;
    std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
    for (auto& s : starts)
      if (hok(s.first) && s.second < d[s.first])
      {
        d[s.first] = s.second;
        q.push({s.second, s.first});
      }
    while (!q.empty())
    {
      const auto [c, a] = q.top();
      q.pop();
      if (c > d[a])
        continue;
      edges(a, [&](int b, float e) {
        if (hok(b) && c + e < d[b])
        {
          d[b] = c + e;
          q.push({d[b], b});
        }
      });
    }
    return d;
  }
  std::vector<double> toGoal() const
  {
    std::vector<std::vector<std::pair<int, float>>> rev(n);
    for (int a = 0; a < n; ++a)
      edges(a, [&](int b, float e) { rev[b].push_back({a, e}); });
    std::vector<double> d(n, INF);
    using Q = std::pair<double, int>;
    std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
    d[goal] = 0;
    q.push({0, goal});
    while (!q.empty())
    {
      const auto [c, a] = q.top();
      q.pop();
      if (c > d[a])
        continue;
      for (auto& [b, e] : rev[a])
        if (c + e < d[b])
        {
          d[b] = c + e;
          q.push({d[b], b});
        }
    }
    return d;
  }
  std::string str(int i) const
  {
    const V3 v = cell(i);
    return D == 3 ? strf("(%d,%d,%d)", v[0], v[1], v[2]) : strf("(%d,%d)", v[0], v[1]);
  }
};
void randomGrid(Grid& gr, Rng& g, const V3& size)
{
  gr.size = size;
  gr.n = size[0] * size[1] * std::max(1, size[2]);
  gr.exact = g.p(0.7);
  gr.scale = gr.exact ? std::pow(2.0, g.i(-2, 3)) : g.uni(0.1, 3);
  gr.one_way = g.p(0.25) ? static_cast<int>(g.i(1, 40)) : 0;
  gr.salt = g.u64();
  const double obst = g.p(0.2) ? 0 : g.uni(0, 0.5);
  const int wmax = static_cast<int>(g.p(0.3) ? 0 : g.i(1, g.p(0.3) ? 400 : 12));
  gr.w.resize(gr.n);
  for (auto& c : gr.w)
  {
    c = wmax ? static_cast<float>(g.i(0, wmax)) : 0;
    if (!gr.exact)
      c += static_cast<float>(g.uni());
    if (g.p(obst))
      c = -1;
  }
  // walls with a gap
  for (int k = static_cast<int>(g.i(0, 2)); k > 0; --k)
  {
    const int ax = static_cast<int>(g.i(0, 1)), at = static_cast<int>(g.i(0, size[ax] - 1)), gap = static_cast<int>(g.i(-3, size[1 - ax] - 1));
    for (int i = 0; i < gr.n; ++i)
      if (gr.cell(i)[ax] == at && gr.cell(i)[1 - ax] != gap)
        gr.w[i] = -1;
  }
  const int nl = static_cast<int>(g.i(1, 3));
  gr.lists.resize(nl);
  for (auto& l : gr.lists)
  {
    const int range = static_cast<int>(g.i(1, 3));
    const bool diag = g.p(0.6);
    for (int x = -range; x <= range; ++x)
      for (int y = -range; y <= range; ++y)
        for (int z = (gr.D == 3 ? -1 : 0); z <= (gr.D == 3 ? 1 : 0); ++z)
        {
          if (!x && !y && !z)
            continue;
          if (!diag && (x != 0) + (y != 0) + (z != 0) > 1)
            continue;
          if (g.p(0.15))
            continue;
          l.push_back(V3{{x, y, z}});
        }
    // any order
    for (size_t i = l.size(); i > 1; --i)
      std::swap(l[i - 1], l[g.u64() % i]);
    if (l.empty())
      l.push_back(V3{{1, 0, 0}});
  }
  gr.list_of.resize(gr.n);
  for (auto& l : gr.list_of)
    l = static_cast<int>(g.u64() % nl);
}
void randomTask(Grid& gr, Rng& g)
{
  auto freeCell = [&] {
    for (int k = 0; k < 50; ++k)
    {
      const int i = static_cast<int>(g.u64() % gr.n);
      if (gr.w[i] >= 0)
        return i;
    }
    return static_cast<int>(g.u64() % gr.n);
  };
  gr.starts.clear();
  gr.goal = g.p(0.1) ? static_cast<int>(g.u64() % gr.n) : freeCell();
  const int ns = static_cast<int>(g.p(0.5) ? 1 : g.i(2, 5));
  for (int i = 0; i < ns; ++i)
  {
    const int s = g.p(0.05) ? static_cast<int>(g.u64() % gr.n) : freeCell();
    bool dup = s == gr.goal;
    for (auto& o : gr.starts)
      dup = dup || o.first == s;
    if (!dup)
      gr.starts.push_back({s, g.p(0.5) ? 0.0f : static_cast<float>(g.i(0, 80) * 0.125 * (gr.exact ? 1 : 0.937))});
  }
  // estimate
  const double f = g.p(0.5) ? 1 : g.p(0.5) ? 0.5 : 0;
  gr.h.assign(gr.n, 0);
  gr.consistent = true;
  if (g.p(0.5))
  {
    const auto tg = gr.toGoal();
    for (int i = 0; i < gr.n; ++i)
      gr.h[i] = tg[i] >= INF ? (f > 0 ? FMAX : 0) : static_cast<float>(tg[i] * f);
  }
  else
    for (int i = 0; i < gr.n; ++i)
      gr.h[i] = static_cast<float>(gr.metric(i, gr.goal) * gr.scale * f);
  if (g.p(0.15))
  {
    // estimates which exclude cells
    for (int i = 0; i < gr.n; ++i)
      if (i != gr.goal && g.p(0.1))
        gr.h[i] = g.p(0.5) ? -1 : FMAX;
  }
  if (g.p(0.2))
  {
    gr.consistent = false;
    for (int i = 0; i < gr.n; ++i)
      if (i != gr.goal && gr.hok(i))
        gr.h[i] *= static_cast<float>(g.i(0, 24) / 8.0);
  }
}
struct SearchWorld
{
  Run& r;
  Sim& s;
  Ctx ctx;
  std::vector<std::function<void()>> todo;
  std::shared_ptr<Grid> gr;
  int nsearch = 0;
  bool need_reset = false;
  explicit SearchWorld(Run& rr) : r(rr), s(rr.sim) {}
  void check(bool ok, const std::string& sig, const std::string& d)
  {
    r.expect(ok, "P13", sig, [&] { return d; });
  }
  // a chain of permitted moves from a start; returns its cost
  bool chain(const Grid& G, const std::vector<V3>& path, double& cost, std::string& why, int& first, int& last)
  {
    cost = 0;
    if (path.empty())
    {
      why = "empty path";
      return false;
    }
    std::vector<int> ids;
    for (V3 v : path)
    {
      const V3 o = v;
      if (!G.norm(v) || v != o)
      {
        why = strf("cell (%d,%d,%d) out of the grid", o[0], o[1], o[2]);
        return false;
      }
      ids.push_back(G.idx(v));
    }
    first = ids.front();
    last = ids.back();
    bool st = false;
    for (auto& x : G.starts)
      st = st || x.first == first;
    if (!st)
    {
      why = "begins at " + G.str(first) + " which is no start";
      return false;
    }
    for (size_t i = 1; i < ids.size(); ++i)
    {
      float c = 0;
      if (!G.hasEdge(ids[i - 1], ids[i], c))
      {
        why = "no move from " + G.str(ids[i - 1]) + " to " + G.str(ids[i]);
        return false;
      }
      cost += c;
    }
    std::set<int> uniq(ids.begin(), ids.end());
    if (uniq.size() != ids.size())
    {
      why = "visits a cell twice";
      return false;
    }
    return true;
  }
  void search(Rng g, bool fresh)
  {
    if (r.stopped())
      return;
    const int kind = gr ? gr->kind : static_cast<int>(g.i(0, 2));
    const bool first = !gr;
    Req q;
    V3 size;
    if (first || fresh)
    {
      auto ng = std::make_shared<Grid>();
      ng->kind = kind;
      ng->D = kind == 1 ? 3 : 2;
      ng->N = kind == 2 ? 0 : 2;
      const bool same = !first && g.p(0.4);
      const int mx = kind == 1 ? 12 : 22;
      size = same ? gr->size : V3{{static_cast<int>(g.i(kind == 2 ? 4 : 1, mx)), static_cast<int>(g.i(kind == 2 ? 4 : 2, mx)), kind == 1 ? static_cast<int>(g.i(3, 8)) : 1}};
      need_reset = need_reset || (!first && !same);
      randomGrid(*ng, g, size);
      gr = ng;
    }
    Grid& G = *gr;
    q.size = G.size;
    q.reset = need_reset;
    if (first)
    {
      ctx.kind = kind;
      ctx.size = G.size;
      ctx.sized_ctor = g.p(0.3);
      char* a[1] = {reinterpret_cast<char*>(&ctx)};
      astar_sut_main(1, a);
    }
    randomTask(G, g);
    if (G.starts.empty())
      return;
    need_reset = false;
    const Sched sc = randomSched(g, r);
    q.threads = sc.threads;
    q.tasks = static_cast<size_t>(g.p(0.35) ? 1 : g.p(0.5) ? g.i(2, 8) : g.i(9, 128));
    q.queue_limit = g.p(0.1) ? static_cast<size_t>(g.i(1, 60)) : 0;
    q.best = g.p(0.5);
    q.cost_leave = g.p(0.75) ? 0 : static_cast<float>(g.uni(0, 4) * G.scale);
    // equivalent representation of cyclic coordinates
    auto twist = [&](V3 v) {
      for (int k = G.N; k < G.D; ++k)
        if (g.p(0.3))
          v[k] += G.size[k] * static_cast<int>(g.i(-2, 2));
      return v;
    };
    q.goal = G.N < G.D ? twist(G.cell(G.goal)) : G.cell(G.goal);
    for (auto& st : G.starts)
      q.starts.push_back({twist(G.cell(st.first)), st.second});
    const double per_loop = 1e-4;
    q.interval = g.p(0.3) ? 0 : g.p(0.5) ? static_cast<float>(g.logu(1e-4, 0.05)) : 1e9f;
    const int64_t abort_at = g.p(0.3) ? g.i(1, 12) : -1;
    uint64_t costs = 0, costs_abort = 0;
    int64_t calls = 0;
    bool aborted = false;
    size_t last_loop = 0, last_total = 0;
    Model m;
    m.grids = [&G](const V3& v) -> const std::vector<V3>& {
      V3 p = v;
      G.norm(p);
      return G.lists[G.list_of[G.idx(p)]];
    };
    m.cost = [&](const V3& a, const V3& b) {
      ++costs;
      V3 p = b, c = a;
      if (!G.norm(p) || !G.norm(c))
      {
        check(false, "cost-outside", "the cost of a move out of the grid was asked for");
        return -1.0f;
      }
      return G.cost(G.idx(c), G.idx(p));
    };
    m.estim = [&](const V3& a, const V3& b) {
      V3 p = b, c = a;
      const bool ok = G.norm(p) && G.norm(c);
      check(ok && G.idx(p) == G.goal, "estimate-outside", "an estimate was asked for a cell out of the grid or another goal");
      return ok ? G.h[G.idx(c)] : -1.0f;
    };
    q.model = &m;
    const std::string what = strf("search %d: %s grid %dx%dx%d, %d threads, %zu tasks, preemption %lu%s, %zu starts, goal %s, estimate %s%s%s", ++nsearch,
                                  kind == 0 ? "<2,2>" : kind == 1 ? "<3,2>" : "<2,0>", G.size[0], G.size[1], G.size[2], q.threads, q.tasks, (unsigned long)sc.preempt, sc.bias ? " biased" : "",
                                  G.starts.size(), G.str(G.goal).c_str(), G.consistent ? "consistent" : "any", q.best ? ", best effort" : "", q.queue_limit ? ", queue limit" : "");
    s.trace(what);
    q.progress = [&](const std::vector<V3>& p, const Stats& st) {
      ++calls;
      double c;
      std::string why;
      int a, b;
      if (aborted)
        check(false, "progress-after-abort", what + ": the search goes on after its progress callback asked to abort");
      if (!chain(G, p, c, why, a, b))
        check(false, "progress-path", what + ": the path given to the progress callback is broken: " + why);
      if (calls > 1)
      {
        check(st.num_loop > last_loop && st.num_total_updates >= last_total, "progress-stats", what + ": the statistics went backwards");
        const double el = (st.num_loop - last_loop) * per_loop;
        check(el < q.interval + 2.5 * per_loop && el > q.interval - 1.5 * per_loop, "progress-interval", what + strf(": %.5f s between two progress callbacks, interval %.5f s", el, (double)q.interval));
      }
      else
        check(st.num_loop * per_loop < q.interval + 2.5 * per_loop, "progress-interval", what + strf(": first progress callback after %zu turns, interval %.5f s", st.num_loop, (double)q.interval));
      last_loop = st.num_loop;
      last_total = st.num_total_updates;
      if (calls == abort_at)
      {
        aborted = true;
        costs_abort = costs;
        s.countFault("abort");
        return false;
      }
      return true;
    };
    q.set_tasks = true;
    if (ctx.sized_ctor && first && g.p(0.5))
    {
      q.set_tasks = false;
      q.tasks = 1;
    }
    std::vector<V3> path;
    mono_cost = [per_loop] { return sec(per_loop); };
    apply(r, sc);
    omp_race_check = true;
    omp_on_race = [&](uintptr_t a, bool was_w, bool is_w, void* p0, void* p1) {
      check(false, "data-race", what + strf(": two worker threads access the same memory without synchronisation (%s, then %s)", was_w ? "write" : "read", is_w ? "write" : "read"));
    };
    const bool ret = ctx.searcher->search(q, path);
    omp_race_check = false;
    omp_on_race = nullptr;
    omp_preempt_mean = 0;
    if (r.stopped())
      return;
    const auto D = G.dijkstra();
    const double tol = G.exact ? 1e-6 : 1e-3;
    double c = 0;
    std::string why;
    int a = -1, b = -1;
    const bool ok = chain(G, path, c, why, a, b);
    if (aborted)
      check(costs == costs_abort, "work-after-abort", what + strf(": %lu costs were computed after the abort", (unsigned long)(costs - costs_abort)));
    bool reach = D[G.goal] < INF, near = false, edge = false;
    double hmin = INF;
    for (int i = 0; i < G.n; ++i)
      if (D[i] < INF)
      {
        hmin = std::min<double>(hmin, G.h[i]);
        near = near || G.h[i] < q.cost_leave - 1e-3;
        edge = edge || std::abs(G.h[i] - q.cost_leave) <= 1e-3;
      }
    if (q.cost_leave == 0)
      edge = false;
    const bool expect = reach || near;
    r.nontrivial = r.nontrivial || (q.threads > 1 && path.size() > 2);
    if (ret)
    {
      check(ok, "path-broken", what + ": the path returned is broken: " + why);
      if (!ok || r.stopped())
        return;
      check(b == G.goal || G.h[b] < q.cost_leave + 1e-3, "path-end", what + ": the path ends at " + G.str(b) + strf(" with estimate %.4f", G.h[b]));
      check(expect || edge, "found-unreachable", what + ": a path was found although the goal can't be reached");
      const double sub = c - (D[b] - D[a]);
      check(sub > -tol * (1 + c), "cheaper-than-optimal", what + strf(": cost %.6f is less than the optimum %.6f", c, D[b] - D[a]));
      if (q.tasks == 1 && G.consistent && !q.queue_limit)
        check(sub <= tol * (1 + c), "suboptimal", what + strf(": cost %.6f, optimum %.6f", c, D[b] - D[a]));
      if (q.tasks > 1 && G.consistent && !q.queue_limit)
      {
        double me = 0;
        for (int i = 0; i < G.n; ++i)
          G.edges(i, [&](int, float e) { me = std::max<double>(me, e); });
        check(sub <= me * std::min<size_t>(q.tasks, 16) + tol * (1 + c), "far-from-optimal", what + strf(": cost %.6f, optimum %.6f, largest move %.6f", c, D[b] - D[a], me));
      }
    }
    else
    {
      check(aborted || q.queue_limit || !expect || edge, "not-found", what + strf(": no path was found although the goal can be reached at cost %.4f", D[G.goal]));
      if (q.best)
      {
        check(ok, "best-broken", what + ": the best effort path is broken: " + why);
        if (ok && !aborted && !q.queue_limit)
        {
          if (hmin >= INF)
            check(path.size() == 1, "best-moves", what + ": no start has an estimate but the best effort path moves");
          else
            check(G.h[b] <= hmin + 1e-3 * (1 + hmin), "best-far", what + strf(": the best effort path ends at estimate %.4f although %.4f was reached", G.h[b], hmin));
        }
      }
      else
        check(path.empty(), "path-without-result", what + ": a path was returned by a failed search");
    }
  }
};
void searchScenario(Run& r)
{
  Sim& s = r.sim;
  const ns_t T = s.now;
  auto w = std::make_shared<SearchWorld>(r);
  Rng g = r.rng("searches");
  const int n = static_cast<int>(g.i(1, 5));
  for (int i = 0; i < n; ++i)
  {
    const bool fresh = g.p(0.5);
    const uint64_t sd = g.u64();
    r.op(T + (i + 1) * MS, strf("search %s", fresh ? "on a new grid" : "again"), [w, fresh, sd] { w->todo.push_back([w, fresh, sd] { w->search(Rng(sd, "search"), fresh); }); });
  }
  s.spawn("/search", [w](int, char**) {
    for (auto& f : w->todo)
      f();
    return 0;
  }, {}, T + 100 * MS);
  s.run(T + 200 * SEC);
}
// ---------------------------------------------------------------- P14
struct DmWorld
{
  Run& r;
  Sim& s;
  Ctx ctx;
  DmParams p;
  std::vector<std::function<void()>> todo;
  std::vector<signed char> map, bbf;
  int sx = 0, sy = 0, ex = 0, ey = 0;
  bool valid = false;
  int nop = 0;
  struct Diff
  {
    int dx, dy;
    double euclid, g2l;
    std::vector<std::pair<int, int>> pos;
  };
  std::vector<Diff> diffs;
  explicit DmWorld(Run& rr) : r(rr), s(rr.sim) {}
  void makeDiffs()
  {
    diffs.clear();
    for (int x = -4; x <= 4; ++x)
      for (int y = -4; y <= 4; ++y)
      {
        if ((!x && !y) || x * x + y * y > 16)
          continue;
        Diff d;
        d.dx = x;
        d.dy = y;
        const float l = std::sqrt(static_cast<float>(x * x + y * y));
        const int n = static_cast<int>(l);
        d.euclid = l * p.ec;
        d.g2l = l / n;
        float fx = 0, fy = 0;
        for (int i = 0; i < n; ++i)
        {
          const std::pair<int, int> c(std::lround(fx), std::lround(fy));
          if (d.pos.empty() || d.pos.back() != c)
            d.pos.push_back(c);
          fx += static_cast<float>(x) / n;
          fy += static_cast<float>(y) / n;
        }
        diffs.push_back(d);
      }
  }
  // cost of a move, < 0: blocked or out of the map
  double move(int x, int y, const Diff& d) const
  {
    const int nx = x + d.dx, ny = y + d.dy;
    if (nx < 0 || ny < 0 || nx >= p.w || ny >= p.h)
      return -1;
    double sum = 0, sh = 0;
    for (auto& c : d.pos)
    {
      const int i = x + c.first + (y + c.second) * p.w;
      if (map[i] > 99)
        return -1;
      sum += map[i];
      sh += bbf[i];
    }
    return d.euclid + p.resolution / 100.0 * d.g2l * (sum * p.weight_costmap + sh * p.weight_remembered);
  }
  std::vector<double> dijkstra() const
  {
    const int n = p.w * p.h;
    std::vector<double> d(n, INF);
    using Q = std::pair<double, int>;
    std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
    const int e = ex + ey * p.w;
    d[e] = -p.ec * 0.5;
    q.push({d[e], e});
    while (!q.empty())
    {
      const auto [c, a] = q.top();
      q.pop();
      if (c > d[a])
        continue;
      const int x = a % p.w, y = a / p.w;
      for (auto& m : diffs)
      {
        const double k = move(x, y, m);
        if (k < 0)
          continue;
        const int b = x + m.dx + (y + m.dy) * p.w;
        if (c + k < d[b])
        {
          d[b] = c + k;
          q.push({d[b], b});
        }
      }
    }
    d[e] = 0;
    return d;
  }
  void compare(const std::string& what, bool created)
  {
    const auto D = dijkstra();
    const double reach = D[sx + sy * p.w] + p.ec * (p.range + p.local_range + p.longcut);
    int n = 0;
    for (int y = 0; y < p.h && !r.stopped(); ++y)
      for (int x = 0; x < p.w && !r.stopped(); ++x)
      {
        const int i = x + y * p.w;
        const double v = ctx.dm->at(x, y), d = D[i];
        const double tol = 2e-4 * (1 + std::abs(d < INF ? d : 0));
        const bool inf = v == FMAX;
        if (d >= INF)
        {
          r.expect(inf, "P14", "unreachable-has-cost", [&] { return what + strf(": cell (%d,%d) can't reach the goal but its cost is %.4f", x, y, v); });
          continue;
        }
        r.expect(inf || v > d - tol, "P14", "too-low", [&] { return what + strf(": cost of (%d,%d) is %.5f, shortest %.5f", x, y, v, d); });
        if (d > reach - tol)
          continue;
        ++n;
        r.expect(!inf, "P14", created ? "lost" : "lost-after-update", [&] { return what + strf(": cell (%d,%d) is unreachable, shortest %.5f", x, y, d); });
        r.expect(v < d + tol, "P14", created ? "too-high" : "too-high-after-update", [&] {
          return what + strf(": cost of (%d,%d) is %s, shortest %.5f, start costs %.5f", x, y, inf ? "infinite" : strf("%.5f", v).c_str(), d, D[sx + sy * p.w]);
        });
      }
    if (n > 10 && !created)
      r.nontrivial = true;
  }
  void randomCells(Rng& g, int x0, int y0, int x1, int y1, bool first)
  {
    const int kind = static_cast<int>(g.i(0, 4));
    const double dens = g.uni(0, 0.5);
    const int cx = static_cast<int>(g.i(x0, x1)), cy = static_cast<int>(g.i(y0, y1));
    const int gap = g.p(0.5) ? -1 : static_cast<int>(g.i(std::min(x0, y0), std::max(x1, y1)));
    for (int y = y0; y <= y1; ++y)
      for (int x = x0; x <= x1; ++x)
      {
        signed char& c = map[x + y * p.w];
        if (kind == 0)
          c = 0;
        else if (kind == 1)
          c = g.p(dens) ? 100 : static_cast<signed char>(g.i(0, 99));
        else if (kind == 2)
          c = g.p(dens * 0.3) ? 100 : 0;
        else if (kind == 3)
          c = ((x == cx && y != gap) || (y == cy && x != gap)) ? 100 : first ? 0 : c;
        else
          c = (std::abs(x - cx) - std::abs(y - cy)) % 7 == 0 ? 100 : c == 100 ? static_cast<signed char>(g.i(0, 50)) : c;
        if (p.weight_remembered > 0)
          bbf[x + y * p.w] = g.p(0.2) ? static_cast<signed char>(g.i(0, 100)) : 0;
      }
  }
  void init(Rng& g)
  {
    DmParams o = p;
    const bool again = valid || ctx.dm;
    p.ec = static_cast<float>(g.uni(0.3, 3));
    p.range = static_cast<int>(g.i(0, 8));
    p.local_range = static_cast<int>(g.p(0.4) ? 0 : g.i(1, 12));
    p.longcut = static_cast<int>(g.p(0.5) ? 0 : g.i(1, 20));
    if (g.p(0.25))
      p.longcut = 1000;
    if (!again || g.p(0.5))
    {
      p.w = static_cast<int>(g.i(2, 36));
      p.h = static_cast<int>(g.i(2, 30));
    }
    p.resolution = static_cast<float>(g.uni(0.05, 1));
    p.weight_costmap = g.p(0.2) ? 0 : static_cast<float>(g.logu(0.5, 100));
    p.weight_remembered = g.p(0.5) ? 0 : static_cast<float>(g.logu(0.5, 100));
    p.tasks = static_cast<int>(g.p(0.3) ? 1 : g.logu(2, 300));
    if (!ctx.dm)
    {
      ctx.kind = 3;
      char* a[1] = {reinterpret_cast<char*>(&ctx)};
      astar_sut_main(1, a);
    }
    ctx.dm->init(p);
    makeDiffs();
    map.assign(p.w * p.h, 0);
    bbf.assign(p.w * p.h, 0);
    randomCells(g, 0, 0, p.w - 1, p.h - 1, true);
    ctx.dm->setMap(map, bbf);
    sx = static_cast<int>(g.i(0, p.w - 1));
    sy = static_cast<int>(g.i(0, p.h - 1));
    ex = static_cast<int>(g.i(0, p.w - 1));
    ey = static_cast<int>(g.i(0, p.h - 1));
    valid = true;
  }
  void step(Rng g)
  {
    if (r.stopped())
      return;
    ++nop;
    bool created = false;
    std::string what;
    const double u = g.uni();
    if (!valid || u < 0.08)
    {
      init(g);
      what = "initialised, ";
      created = true;
    }
    const Sched sc = randomSched(g, r);
    int x0 = 1, y0 = 1, x1 = 0, y1 = 0;
    if (!created)
    {
      if (g.p(0.6))
      {
        if (g.p(0.6))
        {
          sx = std::min(p.w - 1, std::max(0, sx + static_cast<int>(g.i(-3, 3))));
          sy = std::min(p.h - 1, std::max(0, sy + static_cast<int>(g.i(-3, 3))));
        }
        else
        {
          sx = static_cast<int>(g.i(0, p.w - 1));
          sy = static_cast<int>(g.i(0, p.h - 1));
        }
        what += "start moved, ";
      }
      if (g.p(0.1))
      {
        ex = static_cast<int>(g.i(0, p.w - 1));
        ey = static_cast<int>(g.i(0, p.h - 1));
        what += "goal moved, ";
      }
      if (g.p(0.75))
      {
        x0 = static_cast<int>(g.i(0, p.w - 1));
        y0 = static_cast<int>(g.i(0, p.h - 1));
        x1 = std::min<int>(p.w - 1, x0 + static_cast<int>(g.i(0, g.p(0.5) ? 5 : 30)));
        y1 = std::min<int>(p.h - 1, y0 + static_cast<int>(g.i(0, g.p(0.5) ? 5 : 30)));
        randomCells(g, x0, y0, x1, y1, false);
        ctx.dm->setMap(map, bbf);
        // the area reported may be larger than the change
        if (g.p(0.3))
        {
          x0 = std::max(0, x0 - static_cast<int>(g.i(0, 4)));
          y1 = std::min(p.h - 1, y1 + static_cast<int>(g.i(0, 4)));
        }
        what += strf("map changed in (%d,%d)-(%d,%d), ", x0, y0, x1, y1);
      }
      if (g.p(0.15))
      {
        created = true;
        what += "created again, ";
      }
    }
    const std::string desc = strf("step %d, map %dx%d, ", nop, p.w, p.h) + what + strf("start (%d,%d), goal (%d,%d), %d threads, %d tasks, preemption %lu%s", sx, sy, ex, ey, sc.threads, p.tasks,
                                                                                   (unsigned long)sc.preempt, sc.bias ? " biased" : "");
    s.trace(desc);
    apply(r, sc);
    omp_race_check = true;
    omp_on_race = [&](uintptr_t, bool was_w, bool is_w, void*, void*) {
      r.expect(false, "P14", "data-race", [&] { return desc + strf(": two worker threads access the same memory without synchronisation (%s, then %s)", was_w ? "write" : "read", is_w ? "write" : "read"); });
    };
    if (created && g.p(0.7))
      ctx.dm->create(sc.threads, sx, sy, ex, ey);
    else if (created)
      ctx.dm->update(sc.threads, sx, sy, ex, ey, 0, 0, p.w - 1, p.h - 1), created = false;
    else
      ctx.dm->update(sc.threads, sx, sy, ex, ey, x0, y0, x1, y1);
    omp_race_check = false;
    omp_on_race = nullptr;
    omp_preempt_mean = 0;
    if (!r.stopped())
      compare(desc, created);
  }
};
void distmapScenario(Run& r)
{
  Sim& s = r.sim;
  const ns_t T = s.now;
  auto w = std::make_shared<DmWorld>(r);
  Rng g = r.rng("steps");
  const int n = static_cast<int>(g.i(2, 14));
  for (int i = 0; i < n; ++i)
  {
    const uint64_t sd = g.u64();
    r.op(T + (i + 1) * MS, "distance map step", [w, sd] { w->todo.push_back([w, sd] { w->step(Rng(sd, "step")); }); });
  }
  s.spawn("/distmap", [w](int, char**) {
    for (auto& f : w->todo)
      f();
    return 0;
  }, {}, T + 100 * MS);
  s.run(T + 200 * SEC);
}
struct Init
{
  Init()
  {
    harness().real = "GridAstar<2,2>, <3,2>, <2,0> and DistanceMap (all memory accesses instrumented; OpenMP workers are scheduled one access at a time)";
    harness().stub = "OpenMP runtime (cooperative workers), monotonic clock, ROS logging, grid models";
  }
} init_;
Register r1("search", {{"P13", 1}}, searchScenario);
Register r2("distmap", {{"P14", 1}}, distmapScenario);
}  // namespace
