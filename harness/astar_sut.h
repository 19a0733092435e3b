// Direct calls into GridAstar and DistanceMap; the code behind is compiled with instrumented memory accesses.
#ifndef ASTAR_SUT_H
#define ASTAR_SUT_H
#include <array>
#include <functional>
#include <vector>
namespace astar_sut
{
using V3 = std::array<int, 3>;  // unused dimensions are 0
struct Model
{
  std::function<float(const V3&, const V3&)> cost;  // next may be given before or after the cycle
  std::function<float(const V3&, const V3&)> estim;
  std::function<const std::vector<V3>&(const V3&)> grids;
};
struct Stats
{
  size_t num_loop, num_search_queue, num_prev_updates, num_total_updates;
};
struct Req
{
  int threads = 1;
  size_t tasks = 1, queue_limit = 0;
  bool set_tasks = true;
  bool reset = false;
  V3 size;
  std::vector<std::pair<V3, float>> starts;
  V3 goal;
  float cost_leave = 0, interval = 1e9;
  bool best = false;
  Model* model = nullptr;
  std::function<bool(const std::vector<V3>&, const Stats&)> progress;
};
struct Searcher
{
  virtual ~Searcher() {}
  virtual bool search(const Req& q, std::vector<V3>& path) = 0;
};
struct DmParams
{
  float ec;
  int range, local_range, longcut;
  int w, h;
  float resolution;
  float weight_costmap, weight_remembered;
  int tasks;
};
struct DistMap
{
  virtual ~DistMap() {}
  virtual void init(const DmParams& p) = 0;
  virtual void setParams(const DmParams& p) = 0;
  virtual void setMap(const std::vector<signed char>& rough, const std::vector<signed char>& bbf) = 0;
  virtual void create(int threads, int sx, int sy, int ex, int ey) = 0;
  virtual void update(int threads, int sx, int sy, int ex, int ey, int x0, int y0, int x1, int y1) = 0;
  virtual float at(int x, int y) const = 0;
};
struct Ctx
{
  int kind = 0;            // 0: <2,2>, 1: <3,2>, 2: <2,0>, 3: distance map
  bool sized_ctor = false; // construct with size
  V3 size{{0, 0, 0}};
  Searcher* searcher = nullptr;
  DistMap* dm = nullptr;
};
}  // namespace astar_sut
int astar_sut_main(int, char**);
#endif
