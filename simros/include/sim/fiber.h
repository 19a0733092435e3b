#ifndef SIM_FIBER_H
#define SIM_FIBER_H
#include <cstdint>
#include <functional>
#include <string>
namespace sim
{
struct NodeAbort
{
  std::string why;
};
struct Fiber
{
  enum State { READY, RUNNING, WAIT_Q, SLEEP, DONE };
  State state = READY;
  void* ctx = nullptr;
  void* caller = nullptr;
  char* stack = nullptr;
  size_t size = 0;
  uint64_t wake_gen = 0;
  bool abandoned = false;
  std::function<void()> fn;
  uint64_t eh[2] = {0, 0};
  uint64_t caller_eh[2] = {0, 0};
};
Fiber* fiberCreate(std::function<void()> fn, size_t stack = 16u << 20);
void fiberSwitchIn(Fiber* f);
void fiberSwitchOut(Fiber* f);
void fiberDestroy(Fiber* f);
void fiberAbandon(Fiber* f);
Fiber* fiberCurrent();
}
#endif
