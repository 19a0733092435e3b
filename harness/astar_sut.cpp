#include <astar_sut.h>
#include <cmath>
#include <limits>
#include <list>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <omp.h>
#include <ros/ros.h>
#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <planner_cspace/grid_astar.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include <planner_cspace/planner_3d/distance_map.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
using namespace astar_sut;
namespace
{
template <int D, int N>
V3 toV(const planner_cspace::CyclicVecInt<D, N>& v)
{
  V3 o{{0, 0, 0}};
  for (int i = 0; i < D; ++i)
    o[i] = v[i];
  return o;
}
template <int D, int N>
planner_cspace::CyclicVecInt<D, N> fromV(const V3& v)
{
  planner_cspace::CyclicVecInt<D, N> o;
  for (int i = 0; i < D; ++i)
    o[i] = v[i];
  return o;
}
template <int D, int N>
struct WrapModel : public planner_cspace::GridAstarModelBase<D, N>
{
  using Base = planner_cspace::GridAstarModelBase<D, N>;
  using Vec = typename Base::Vec;
  using VecWithCost = typename Base::VecWithCost;
  Model* m;
  std::unordered_map<const void*, std::unique_ptr<std::vector<Vec>>> lists;
  // searchGrids may be called by several workers: the lists are converted beforehand
  std::function<const std::vector<Vec>&(const V3&)> grids_fn;
  float cost(const Vec& cur, const Vec& next, const std::vector<VecWithCost>&, const Vec&) const override
  {
    return m->cost(toV<D, N>(cur), toV<D, N>(next));
  }
  float costEstim(const Vec& cur, const Vec& next) const override { return m->estim(toV<D, N>(cur), toV<D, N>(next)); }
  const std::vector<Vec>& searchGrids(const Vec& cur, const std::vector<VecWithCost>&, const Vec&) const override
  {
    return *lists.at(&m->grids(toV<D, N>(cur)));
  }
  void prepare(const V3& size)
  {
    for (int x = 0; x < size[0]; ++x)
      for (int y = 0; y < size[1]; ++y)
        for (int z = 0; z < std::max(1, size[2]); ++z)
        {
          const std::vector<V3>& l = m->grids(V3{{x, y, z}});
          if (lists.count(&l))
            continue;
          auto v = std::make_unique<std::vector<Vec>>();
          for (auto& d : l)
            v->push_back(fromV<D, N>(d));
          lists[&l] = std::move(v);
        }
  }
};
template <int D, int N>
struct SearcherImpl : public Searcher
{
  using A = planner_cspace::GridAstar<D, N>;
  std::unique_ptr<A> a;
  V3 size;
  explicit SearcherImpl(const Ctx& c)
  {
    size = c.size;
    if (c.sized_ctor)
      a.reset(new A(fromV<D, N>(c.size)));
    else
    {
      a.reset(new A());
      a->reset(fromV<D, N>(c.size));
    }
  }
  bool search(const Req& q, std::vector<V3>& path) override
  {
    omp_set_num_threads(q.threads);
    if (q.set_tasks)
      a->setSearchTaskNum(q.tasks);
    a->setQueueSizeLimit(q.queue_limit);
    if (q.reset)
    {
      size = q.size;
      a->reset(fromV<D, N>(q.size));
    }
    auto wm = std::make_shared<WrapModel<D, N>>();
    wm->m = q.model;
    wm->prepare(size);
    std::vector<typename planner_cspace::GridAstarModelBase<D, N>::VecWithCost> ss;
    for (auto& s : q.starts)
      ss.emplace_back(fromV<D, N>(s.first), s.second);
    std::list<typename A::Vec> out;
    auto cb = [&q](const std::list<typename A::Vec>& p, const planner_cspace::SearchStats& st)
    {
      std::vector<V3> v;
      for (auto& e : p)
        v.push_back(toV<D, N>(e));
      return q.progress ? q.progress(v, Stats{st.num_loop, st.num_search_queue, st.num_prev_updates, st.num_total_updates}) : true;
    };
    const typename planner_cspace::GridAstarModelBase<D, N>::Ptr mp = wm;
    const bool r = a->search(ss, fromV<D, N>(q.goal), out, mp, cb, q.cost_leave, q.interval, q.best);
    path.clear();
    for (auto& e : out)
      path.push_back(toV<D, N>(e));
    return r;
  }
};
using planner_cspace::planner_3d::CostmapBBF;
using planner_cspace::planner_3d::DistanceMap;
using planner_cspace::planner_3d::GridAstarModel3D;
using Astar = planner_cspace::GridAstar<3, 2>;
struct PlainBBF : public CostmapBBF
{
  std::vector<signed char> c;
  int w = 0;
  void reset(const Vec&) override {}
  void clear() override {}
  char getCost(const Vec& p) const override { return c[p[0] + p[1] * w]; }
  void remember(const planner_cspace::BlockMemGridmapBase<char, 3, 2>* const, const Vec&, const float, const float, const int, const int) override {}
  void updateCostmap() override {}
  void forEach(const std::function<void(const Vec&, planner_cspace::bbf::BinaryBayesFilter&)>) override {}
};
struct DistMapImpl : public DistMap
{
  Astar::Gridmap<char, 0x80> rough, hyst;
  Astar::Gridmap<char, 0x40> cm;
  std::shared_ptr<PlainBBF> bbf = std::make_shared<PlainBBF>();
  DistanceMap dm;
  DmParams p;
  DistMapImpl() : dm(rough, bbf) {}
  planner_cspace::planner_3d::CostCoeff cc() const
  {
    planner_cspace::planner_3d::CostCoeff c;
    c.weight_costmap_ = p.weight_costmap;
    c.weight_remembered_ = p.weight_remembered;
    c.angle_resolution_aspect_ = 1;
    c.max_vel_ = c.max_ang_vel_ = 1;
    return c;
  }
  void init(const DmParams& pp) override
  {
    p = pp;
    costmap_cspace_msgs::MapMetaData3D mi;
    mi.width = p.w;
    mi.height = p.h;
    mi.angle = 4;
    mi.linear_resolution = p.resolution;
    mi.angular_resolution = M_PI * 2 / 4;
    const Astar::Vec size2(p.w, p.h, 1), size3(p.w, p.h, 4);
    cm.reset(size3);
    hyst.reset(size3);
    rough.reset(size2);
    cm.clear(0);
    hyst.clear(0);
    rough.clear(0);
    bbf->w = p.w;
    bbf->c.assign(static_cast<size_t>(p.w) * p.h, 0);
    const Astar::Vecf ec(p.ec, p.ec, 0.1f);
    dm.setParams(cc(), p.tasks);
    GridAstarModel3D::Ptr model(new GridAstarModel3D(mi, ec, 0, dm.gridmap(), cm, hyst, rough, cc(), 1));
    dm.init(model, DistanceMap::Params{ec, p.range, p.local_range, p.longcut, size2, p.resolution});
  }
  void setParams(const DmParams& pp) override
  {
    p.tasks = pp.tasks;
    p.weight_costmap = pp.weight_costmap;
    p.weight_remembered = pp.weight_remembered;
    dm.setParams(cc(), p.tasks);
  }
  void setMap(const std::vector<signed char>& r, const std::vector<signed char>& b) override
  {
    for (int y = 0; y < p.h; ++y)
      for (int x = 0; x < p.w; ++x)
        rough[Astar::Vec(x, y, 0)] = r[x + y * p.w];
    bbf->c = b;
  }
  void create(int threads, int sx, int sy, int ex, int ey) override
  {
    omp_set_num_threads(threads);
    dm.create(Astar::Vec(sx, sy, 0), Astar::Vec(ex, ey, 0));
  }
  void update(int threads, int sx, int sy, int ex, int ey, int x0, int y0, int x1, int y1) override
  {
    omp_set_num_threads(threads);
    dm.update(Astar::Vec(sx, sy, 0), Astar::Vec(ex, ey, 0), DistanceMap::Rect(Astar::Vec(x0, y0, 0), Astar::Vec(x1, y1, 0)));
  }
  float at(int x, int y) const override { return dm[Astar::Vec(x, y, 0)]; }
};
}  // namespace
int main(int, char** a)
{
  Ctx& c = *reinterpret_cast<Ctx*>(a[0]);
  if (c.kind == 0)
    c.searcher = new SearcherImpl<2, 2>(c);
  else if (c.kind == 1)
    c.searcher = new SearcherImpl<3, 2>(c);
  else if (c.kind == 2)
    c.searcher = new SearcherImpl<2, 0>(c);
  else
    c.dm = new DistMapImpl();
  return 0;
}
