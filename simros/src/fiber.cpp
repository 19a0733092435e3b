#include <sim/fiber.h>
#include <boost/context/detail/fcontext.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <sys/mman.h>
#include <vector>

namespace sim
{
namespace bc = boost::context::detail;
static std::vector<Fiber*> g_cur;
static std::vector<char*> g_free_stacks;

Fiber* fiberCurrent() { return g_cur.empty() ? nullptr : g_cur.back(); }
static void entry(bc::transfer_t t)
{
  Fiber* f = static_cast<Fiber*>(t.data);
  f->caller = t.fctx;
  f->fn();
  f->state = Fiber::DONE;
  bc::jump_fcontext(f->caller, f);
  abort();
}
Fiber* fiberCreate(std::function<void()> fn, size_t size)
{
  Fiber* f = new Fiber();
  f->fn = std::move(fn);
  f->size = size;
  if (size == (16u << 20) && !g_free_stacks.empty())
  {
    f->stack = g_free_stacks.back();
    g_free_stacks.pop_back();
  }
  else
  {
    f->stack = static_cast<char*>(mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (f->stack == MAP_FAILED)
    {
      perror("fiber stack");
      _exit(99);
    }
    mprotect(f->stack, 4096, PROT_NONE);
  }
  f->ctx = bc::make_fcontext(f->stack + size, size - 8192, entry);
  return f;
}
static void ehSave(uint64_t* d) { memcpy(d, abi::__cxa_get_globals(), 16); }
static void ehLoad(const uint64_t* d) { memcpy(static_cast<void*>(abi::__cxa_get_globals()), d, 16); }
void fiberSwitchIn(Fiber* f)
{
  ehSave(f->caller_eh);
  ehLoad(f->eh);
  g_cur.push_back(f);
  bc::transfer_t t = bc::jump_fcontext(f->ctx, f);
  g_cur.pop_back();
  f->ctx = t.fctx;
  ehSave(f->eh);
  ehLoad(f->caller_eh);
}
void fiberSwitchOut(Fiber* f)
{
  bc::transfer_t t = bc::jump_fcontext(f->caller, f);
  f->caller = t.fctx;
}
void fiberDestroy(Fiber* f)
{
  if (f->size == (16u << 20))
    g_free_stacks.push_back(f->stack);
  else
    munmap(f->stack, f->size);
  delete f;
}
void fiberAbandon(Fiber* f)
{
  // The stack is kept: objects on it may still be referenced (shared pointers held by the killed process).
  f->abandoned = true;
}
}  // namespace sim
