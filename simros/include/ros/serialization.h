#ifndef SIMROS_SERIALIZATION_H
#define SIMROS_SERIALIZATION_H
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/array.hpp>
#include <boost/shared_array.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/time.h>

namespace ros
{
class Exception : public std::runtime_error
{
public:
  explicit Exception(const std::string& s) : std::runtime_error(s) {}
};
namespace serialization
{
class StreamOverrunException : public ros::Exception
{
public:
  explicit StreamOverrunException(const std::string& w) : Exception(w) {}
};
inline void throwStreamOverrun() { throw StreamOverrunException("Buffer Overrun"); }

template <class D>
struct StreamOps
{
  D& self() { return *static_cast<D*>(this); }
};

struct OStream
{
  uint8_t* data_;
  uint32_t left_;
  OStream(uint8_t* d, uint32_t n) : data_(d), left_(n) {}
  uint8_t* getData() { return data_; }
  uint32_t getLength() const { return left_; }
  uint8_t* advance(uint32_t n)
  {
    if (n > left_)
      throwStreamOverrun();
    uint8_t* p = data_;
    data_ += n;
    left_ -= n;
    return p;
  }
  void raw(const void* p, size_t n)
  {
    if (n)
      memcpy(advance(static_cast<uint32_t>(n)), p, n);
  }
  template <class T> void next(const T& t);
  template <class T> OStream& operator<<(const T& t) { next(t); return *this; }
  static const bool reading = false;
};
struct LStream
{
  uint32_t n_ = 0;
  uint32_t getLength() const { return n_; }
  void raw(const void*, size_t n) { n_ += static_cast<uint32_t>(n); }
  template <class T> void next(const T& t);
  static const bool reading = false;
};
struct HStream
{
  uint64_t h_ = 1469598103934665603ull;
  void raw(const void* p, size_t n)
  {
    const uint8_t* b = static_cast<const uint8_t*>(p);
    uint64_t h = h_ ^ n;
    while (n >= 8)
    {
      uint64_t w;
      memcpy(&w, b, 8);
      h = (h ^ w) * 0x9E3779B97F4A7C15ull;
      h ^= h >> 29;
      b += 8;
      n -= 8;
    }
    while (n--)
      h = (h ^ *b++) * 1099511628211ull;
    h_ = h;
  }
  template <class T> void next(const T& t);
  static const bool reading = false;
};
struct IStream
{
  uint8_t* data_;
  uint32_t left_;
  IStream(uint8_t* d, uint32_t n) : data_(d), left_(n) {}
  uint8_t* getData() { return data_; }
  uint32_t getLength() const { return left_; }
  uint8_t* advance(uint32_t n)
  {
    if (n > left_)
      throwStreamOverrun();
    uint8_t* p = data_;
    data_ += n;
    left_ -= n;
    return p;
  }
  void raw(void* p, size_t n)
  {
    if (n > 0xffffffffull)
      throwStreamOverrun();
    if (n)
      memcpy(p, advance(static_cast<uint32_t>(n)), n);
  }
  template <class T> void next(T& t);
  template <class T> IStream& operator>>(T& t) { next(t); return *this; }
  static const bool reading = true;
};

template <class T, class Enable = void>
struct Ser
{
  template <class S> static void io(S& s, const T& t) { T::__io(s, t); }
  template <class S> static void io(S& s, T& t) { T::__io(s, t); }
};
template <class T>
struct Ser<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
{
  template <class S> static void io(S& s, const T& t) { s.raw(&t, sizeof(T)); }
  template <class S> static void io(S& s, T& t) { s.raw(&t, sizeof(T)); }
};
template <>
struct Ser<ros::Time>
{
  template <class S, class M> static void io(S& s, M& t) { s.next(t.sec); s.next(t.nsec); }
};
template <>
struct Ser<ros::Duration>
{
  template <class S, class M> static void io(S& s, M& t) { s.next(t.sec); s.next(t.nsec); }
};
template <>
struct Ser<std::string>
{
  template <class S> static void io(S& s, const std::string& t)
  {
    uint32_t n = static_cast<uint32_t>(t.size());
    s.next(n);
    s.raw(t.data(), n);
  }
  static void io(IStream& s, std::string& t)
  {
    uint32_t n;
    s.next(n);
    if (n > 0)
      t = std::string(reinterpret_cast<char*>(s.advance(n)), n);
    else
      t.clear();
  }
};
template <class T>
struct Ser<std::vector<T>>
{
  template <class S> static void io(S& s, const std::vector<T>& v)
  {
    uint32_t n = static_cast<uint32_t>(v.size());
    s.next(n);
    if (std::is_arithmetic<T>::value)
      s.raw(v.data(), n * sizeof(T));
    else
      for (auto& e : v)
        s.next(e);
  }
  static void io(IStream& s, std::vector<T>& v)
  {
    uint32_t n;
    s.next(n);
    v.resize(n);
    if (std::is_arithmetic<T>::value)
    {
      if (n > 0)
      {
        const size_t b = static_cast<size_t>(n) * sizeof(T);
        if (b > 0xffffffffull)
          throwStreamOverrun();
        memcpy(static_cast<void*>(v.data()), s.advance(static_cast<uint32_t>(b)), b);
      }
    }
    else
      for (auto& e : v)
        s.next(e);
  }
};
template <class T, size_t N>
struct Ser<boost::array<T, N>>
{
  template <class S, class M> static void io(S& s, M& v)
  {
    for (auto& e : v)
      s.next(e);
  }
};
template <class T> void OStream::next(const T& t) { Ser<T>::io(*this, t); }
template <class T> void LStream::next(const T& t) { Ser<T>::io(*this, t); }
template <class T> void HStream::next(const T& t) { Ser<T>::io(*this, t); }
template <class T> void IStream::next(T& t) { Ser<T>::io(*this, t); }

template <class T> struct Serializer
{
  template <class S> static void write(S& s, const T& t) { s.next(t); }
  template <class S> static void read(S& s, T& t) { s.next(t); }
  static uint32_t serializedLength(const T& t) { LStream l; l.next(t); return l.getLength(); }
};
template <class T, class Stream> void serialize(Stream& s, const T& t) { s.next(t); }
template <class T, class Stream> void deserialize(Stream& s, T& t) { s.next(t); }
template <class T> uint32_t serializationLength(const T& t)
{
  LStream l;
  l.next(t);
  return l.getLength();
}
}  // namespace serialization
class SerializedMessage
{
public:
  boost::shared_array<uint8_t> buf;
  size_t num_bytes = 0;
  uint8_t* message_start = nullptr;
};
namespace serialization
{
template <class M> SerializedMessage serializeMessage(const M& m)
{
  SerializedMessage r;
  const uint32_t n = serializationLength(m);
  r.num_bytes = n + 4;
  r.buf.reset(new uint8_t[r.num_bytes]);
  OStream s(r.buf.get(), static_cast<uint32_t>(r.num_bytes));
  s.next(n);
  r.message_start = s.getData();
  s.next(m);
  return r;
}
}
}  // namespace ros
#endif
