#ifndef SIMROS_ROS_TIME_H
#define SIMROS_ROS_TIME_H
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>

namespace ros
{
inline void normalizeSecNSec(int64_t& sec, int64_t& nsec)
{
  int64_t s = sec + nsec / 1000000000L;
  int64_t n = nsec % 1000000000L;
  if (n < 0)
  {
    n += 1000000000L;
    --s;
  }
  sec = s;
  nsec = n;
}

template <class T>
class DurationBase
{
public:
  int32_t sec, nsec;
  DurationBase() : sec(0), nsec(0) {}
  DurationBase(int32_t s, int32_t n) : sec(0), nsec(0) { setNN(s, n); }
  explicit DurationBase(double t) : sec(0), nsec(0) { fromSec(t); }
  void setNN(int64_t s, int64_t n)
  {
    normalizeSecNSec(s, n);
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = static_cast<int32_t>(s);
    nsec = static_cast<int32_t>(n);
  }
  T& fromSec(double d)
  {
    if (!(d >= -2147483648.0 && d < 2147483648.0))
      throw std::runtime_error("Duration is out of dual 32-bit range");
    int64_t s = static_cast<int64_t>(std::floor(d));
    int64_t n = static_cast<int64_t>(std::round((d - s) * 1000000000.0));
    setNN(s, n);
    return *static_cast<T*>(this);
  }
  T& fromNSec(int64_t t)
  {
    setNN(t / 1000000000L, t % 1000000000L);
    return *static_cast<T*>(this);
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000L + static_cast<int64_t>(nsec); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  T operator+(const T& r) const { T t; t.setNN(static_cast<int64_t>(sec) + r.sec, static_cast<int64_t>(nsec) + r.nsec); return t; }
  T operator-(const T& r) const { T t; t.setNN(static_cast<int64_t>(sec) - r.sec, static_cast<int64_t>(nsec) - r.nsec); return t; }
  T operator-() const { T t; t.setNN(-static_cast<int64_t>(sec), -static_cast<int64_t>(nsec)); return t; }
  T operator*(double k) const { T t; t.fromSec(toSec() * k); return t; }
  T& operator+=(const T& r) { *static_cast<T*>(this) = *this + r; return *static_cast<T*>(this); }
  T& operator-=(const T& r) { *static_cast<T*>(this) = *this - r; return *static_cast<T*>(this); }
  T& operator*=(double k) { fromSec(toSec() * k); return *static_cast<T*>(this); }
  bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
  bool operator!=(const T& r) const { return !(*this == r); }
  bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
  bool operator>(const T& r) const { return r < *static_cast<const T*>(this); }
  bool operator<=(const T& r) const { return !(*this > r); }
  bool operator>=(const T& r) const { return !(*this < r); }
};

class Rate;
class Duration : public DurationBase<Duration>
{
public:
  Duration() {}
  Duration(int32_t s, int32_t n) : DurationBase<Duration>(s, n) {}
  explicit Duration(double t) { fromSec(t); }
  explicit Duration(const Rate&);
  bool sleep() const;
};
class WallRate;
class WallDuration : public DurationBase<WallDuration>
{
public:
  WallDuration() {}
  WallDuration(int32_t s, int32_t n) : DurationBase<WallDuration>(s, n) {}
  explicit WallDuration(double t) { fromSec(t); }
  bool sleep() const;
};
typedef WallDuration SteadyDuration;

template <class T, class D>
class TimeBase
{
public:
  uint32_t sec, nsec;
  TimeBase() : sec(0), nsec(0) {}
  TimeBase(uint32_t s, uint32_t n) : sec(0), nsec(0) { setNN(s, n); }
  explicit TimeBase(double t) : sec(0), nsec(0) { fromSec(t); }
  void setNN(int64_t s, int64_t n)
  {
    normalizeSecNSec(s, n);
    if (s < 0 || s > std::numeric_limits<uint32_t>::max())
      throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(s);
    nsec = static_cast<uint32_t>(n);
  }
  T& fromSec(double t)
  {
    if (!(t >= 0 && t < 4294967296.0))
      throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t s = static_cast<int64_t>(std::floor(t));
    setNN(s, static_cast<int64_t>(std::round((t - s) * 1e9)));
    return *static_cast<T*>(this);
  }
  T& fromNSec(uint64_t t)
  {
    setNN(t / 1000000000UL, t % 1000000000UL);
    return *static_cast<T*>(this);
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000UL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  D operator-(const T& r) const { D d; d.setNN(static_cast<int64_t>(sec) - r.sec, static_cast<int64_t>(nsec) - r.nsec); return d; }
  T operator+(const D& r) const { T t; t.setNN(static_cast<int64_t>(sec) + r.sec, static_cast<int64_t>(nsec) + r.nsec); return t; }
  T operator-(const D& r) const { T t; t.setNN(static_cast<int64_t>(sec) - r.sec, static_cast<int64_t>(nsec) - r.nsec); return t; }
  T& operator+=(const D& r) { *static_cast<T*>(this) = *this + r; return *static_cast<T*>(this); }
  T& operator-=(const D& r) { *static_cast<T*>(this) = *this - r; return *static_cast<T*>(this); }
  bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
  bool operator!=(const T& r) const { return !(*this == r); }
  bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
  bool operator>(const T& r) const { return r < *static_cast<const T*>(this); }
  bool operator<=(const T& r) const { return !(*this > r); }
  bool operator>=(const T& r) const { return !(*this < r); }
};

class Time : public TimeBase<Time, Duration>
{
public:
  Time() {}
  Time(uint32_t s, uint32_t n) : TimeBase<Time, Duration>(s, n) {}
  explicit Time(double t) { fromSec(t); }
  static Time now();
  static bool sleepUntil(const Time& end);
  static void init() {}
  static void shutdown() {}
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool isSimTime();
  static bool isSystemTime() { return !isSimTime(); }
  static bool useSystemTime() { return !isSimTime(); }
};
class WallTime : public TimeBase<WallTime, WallDuration>
{
public:
  WallTime() {}
  WallTime(uint32_t s, uint32_t n) : TimeBase<WallTime, WallDuration>(s, n) {}
  explicit WallTime(double t) { fromSec(t); }
  static WallTime now();
  static bool sleepUntil(const WallTime& end);
  static bool isSystemTime() { return true; }
};
class SteadyTime : public TimeBase<SteadyTime, WallDuration>
{
public:
  SteadyTime() {}
  SteadyTime(uint32_t s, uint32_t n) : TimeBase<SteadyTime, WallDuration>(s, n) {}
  explicit SteadyTime(double t) { fromSec(t); }
  static SteadyTime now();
};
const Duration DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999);
const Duration DURATION_MIN(std::numeric_limits<int32_t>::min(), 0);
const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
const Time TIME_MIN(0, 1);

inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const WallTime& t) { return o << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& o, const WallDuration& t) { return o << t.toSec(); }

class Rate
{
public:
  explicit Rate(double frequency);
  explicit Rate(const Duration& d);
  bool sleep();
  void reset();
  Duration cycleTime() const { return actual_; }
  Duration expectedCycleTime() const { return expected_; }

private:
  Time start_;
  Duration expected_, actual_;
};
class WallRate
{
public:
  explicit WallRate(double frequency);
  bool sleep();
  void reset();
  WallDuration cycleTime() const { return actual_; }
  WallDuration expectedCycleTime() const { return expected_; }

private:
  WallTime start_;
  WallDuration expected_, actual_;
};
inline Duration::Duration(const Rate& r) { *this = r.expectedCycleTime(); }
}  // namespace ros
#endif
