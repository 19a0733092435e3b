// Cooperative OpenMP: the threads of a parallel region are fibers of the node, interleaved by the seeded scheduler.
#ifndef SIM_OMP_H
#define SIM_OMP_H
#include <cstdint>
#include <functional>
#include <string>
#include <sim/core.h>
namespace sim
{
struct OmpStats
{
  uint64_t regions = 0, workers = 0, switches = 0, accesses = 0;
};
extern OmpStats omp_stats;
/// Mean number of instrumented memory accesses between two preemptions of a worker (0: never preempt at accesses).
extern uint64_t omp_preempt_mean;
/// Called on a conflict of two workers which no synchronisation orders: (address, was write, is write).
extern std::function<void(uintptr_t, bool, bool, void* pc_prev, void* pc_now)> omp_on_race;
extern bool omp_race_check;
/// Workers get unequal shares of the processor, redrawn at each barrier.
extern bool omp_bias;
/// Memory newly allocated by a worker has no history for the race check (called by a replaced operator new).
void ompAlloc(void* p, size_t n);
/// Mixes the seed of the execution; called by the runner before each execution.
void ompReset(uint64_t seed);
/// Stack bounds registered by the harness are not shared between workers; used by the race check.
}
namespace sim
{
/// Time charged to the running node by each look at the monotonic clock (a search loop's turn).
extern std::function<ns_t()> mono_cost;
}
#endif
