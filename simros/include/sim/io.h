// File operations of nodes: every open/read/write/close a node performs on a file is offered to a hook which may
// fail, shorten or tear it, or crash the node in the middle.
#ifndef SIM_IO_H
#define SIM_IO_H
#include <cstdint>
#include <functional>
#include <string>
#include <sim/core.h>
namespace sim
{
struct IoOp
{
  enum Kind { OPEN, READ, WRITE, CLOSE } kind;
  std::string path;  // base name
  std::string mode;  // of open
  Node* node;
  uint64_t n;        // operations on files by this node so far
  uint64_t off;      // bytes transferred through this descriptor so far
  size_t len;
};
struct IoAct
{
  int err = 0;          // errno, 0: ok
  size_t len = SIZE_MAX;  // transfer at most this much
  bool crash = false;   // the node dies (SIGKILL) after the transfer
};
extern std::function<IoAct(const IoOp&)> io_hook;
extern uint64_t io_ops;
}  // namespace sim
#endif
