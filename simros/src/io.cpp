#include <sim/io.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <map>
namespace sim
{
std::function<IoAct(const IoOp&)> io_hook;
uint64_t io_ops = 0;
namespace
{
struct F
{
  std::string path;
  uint64_t off = 0;
};
std::map<int, F>* g_fd = nullptr;
std::map<int, F>& fds()
{
  if (!g_fd)
    g_fd = new std::map<int, F>();
  return *g_fd;
}
bool active() { return Sim::g && Sim::g->cur && Sim::g->cur != Sim::g->world; }
std::string base(const char* p)
{
  const char* s = strrchr(p, '/');
  return s ? s + 1 : p;
}
IoAct ask(IoOp::Kind k, const std::string& path, const std::string& mode, uint64_t off, size_t len)
{
  IoAct a;
  IoOp o{k, path, mode, Sim::g->cur, io_ops++, off, len};
  if (io_hook)
    a = io_hook(o);
  static const char* const kn[] = {"open", "read", "write", "close"};
  if (Sim::g->verbose)
    Sim::g->trace(strf("%s io %s %s %s off %llu len %zu -> err %d len %zd%s", Sim::g->cur->name.c_str(), kn[k], path.c_str(), mode.c_str(),
                       static_cast<unsigned long long>(off), len, a.err, static_cast<ssize_t>(a.len), a.crash ? " crash" : ""));
  if (a.err)
    Sim::g->countFault(std::string("io_") + kn[k] + "_" + strerrorname_np(a.err));
  else if (a.len < len)
    Sim::g->countFault(std::string("io_") + kn[k] + (a.crash ? "_torn" : "_short"));
  if (a.crash)
    Sim::g->countFault("io_crash");
  Sim::g->mixHash(hashStr(path) ^ (static_cast<uint64_t>(k) * 7919) ^ off ^ (len << 20) ^ (static_cast<uint64_t>(a.err) << 50));
  return a;
}
void die(const IoAct& a)
{
  if (a.crash)
    Sim::g->kill(Sim::g->cur);
}
ssize_t rawWrite(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }
ssize_t rawRead(int fd, void* p, size_t n) { return syscall(SYS_read, fd, p, n); }
ssize_t doWrite(int fd, F& f, const void* p, size_t n)
{
  const IoAct a = ask(IoOp::WRITE, f.path, "", f.off, n);
  if (a.err)
  {
    die(a);
    errno = a.err;
    return -1;
  }
  const ssize_t r = rawWrite(fd, p, std::min(n, a.len));
  if (r > 0)
    f.off += static_cast<uint64_t>(r);
  die(a);
  return r;
}
ssize_t doRead(int fd, F& f, void* p, size_t n)
{
  const IoAct a = ask(IoOp::READ, f.path, "", f.off, n);
  if (a.err)
  {
    die(a);
    errno = a.err;
    return -1;
  }
  const ssize_t r = rawRead(fd, p, std::min(n, a.len));
  if (r > 0)
    f.off += static_cast<uint64_t>(r);
  die(a);
  return r;
}
int doClose(const std::string& path, uint64_t off)
{
  const IoAct a = ask(IoOp::CLOSE, path, "", off, 0);
  die(a);
  return a.err;
}
FILE* realOpen(const char* path, const char* mode)
{
  static auto fn = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen64"));
  return fn(path, mode);
}
struct Cookie
{
  int fd;
  F f;
};
ssize_t ckRead(void* c, char* b, size_t n) { auto k = static_cast<Cookie*>(c); return doRead(k->fd, k->f, b, n); }
ssize_t ckWrite(void* c, const char* b, size_t n)
{
  auto k = static_cast<Cookie*>(c);
  size_t n_done = 0;
  while (n_done < n)  // as stdio does for a file descriptor
  {
    const ssize_t r = doWrite(k->fd, k->f, b + n_done, n - n_done);
    if (r <= 0)
      return static_cast<ssize_t>(n_done);  // a short count signals an error
    n_done += static_cast<size_t>(r);
  }
  return static_cast<ssize_t>(n_done);
}
int ckSeek(void* c, off64_t* o, int w)
{
  auto k = static_cast<Cookie*>(c);
  const off64_t r = lseek64(k->fd, *o, w);
  if (r < 0)
    return -1;
  *o = r;
  return 0;
}
int ckClose(void* c)
{
  auto k = static_cast<Cookie*>(c);
  const int e = active() ? doClose(k->f.path, k->f.off) : 0;
  syscall(SYS_close, k->fd);
  delete k;
  if (e)
  {
    errno = e;
    return -1;
  }
  return 0;
}
}  // namespace
}  // namespace sim
using namespace sim;
extern "C"
{
// C stdio in node code (linked with --wrap=fopen)
FILE* __wrap_fopen(const char* path, const char* mode)
{
  if (!active())
    return realOpen(path, mode);
  const IoAct a = ask(IoOp::OPEN, base(path), mode, 0, 0);
  die(a);
  if (a.err)
  {
    errno = a.err;
    return nullptr;
  }
  const bool plus = strchr(mode, '+');
  const int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
  const int fd = ::open(path, fl, 0644);
  if (fd < 0)
    return nullptr;
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  auto* c = new Cookie{fd, F{base(path), 0}};
  return fopencookie(c, mode, io);
}
// used by libstdc++'s file streams (either name, depending on how it was built)
static FILE* streamOpen(const char* path, const char* mode)
{
  if (!active())
    return realOpen(path, mode);
  const IoAct a = ask(IoOp::OPEN, base(path), mode, 0, 0);
  die(a);
  if (a.err)
  {
    errno = a.err;
    return nullptr;
  }
  FILE* f = realOpen(path, mode);
  if (f)
    fds()[fileno(f)] = F{base(path), 0};
  return f;
}
FILE* fopen64(const char* path, const char* mode) { return streamOpen(path, mode); }
FILE* fopen(const char* path, const char* mode) { return streamOpen(path, mode); }
int fclose(FILE* f)
{
  static auto fn = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
  int e = 0;
  if (active())
  {
    const int fd = fileno(f);
    auto it = fd < 0 ? fds().end() : fds().find(fd);
    if (it != fds().end())
    {
      const F k = it->second;
      fds().erase(it);
      e = doClose(k.path, k.off);
    }
  }
  const int r = fn(f);
  if (e)
  {
    errno = e;
    return EOF;
  }
  return r;
}
ssize_t write(int fd, const void* p, size_t n)
{
  if (active())
  {
    const auto it = fds().find(fd);
    if (it != fds().end())
      return doWrite(fd, it->second, p, n);
  }
  return rawWrite(fd, p, n);
}
ssize_t read(int fd, void* p, size_t n)
{
  if (active())
  {
    const auto it = fds().find(fd);
    if (it != fds().end())
      return doRead(fd, it->second, p, n);
  }
  return rawRead(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  if (active())
  {
    const auto it = fds().find(fd);
    if (it != fds().end())
    {
      std::string b;
      for (int i = 0; i < c; ++i)
        b.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
      return doWrite(fd, it->second, b.data(), b.size());
    }
  }
  return syscall(SYS_writev, fd, v, c);
}
}
// std::random_device
extern "C" unsigned int __wrap__ZNSt13random_device9_M_getvalEv(void*)
{
  static uint64_t n;
  static sim::Sim* last;
  if (last != sim::Sim::g)
    n = 0, last = sim::Sim::g;
  return static_cast<unsigned int>(sim::Sim::g->key("random_device", ++n));
}
