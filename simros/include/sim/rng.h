#ifndef SIM_RNG_H
#define SIM_RNG_H
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
namespace sim
{
inline uint64_t mix64(uint64_t z)
{
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const char* s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s)
    h = (h ^ static_cast<uint8_t>(*s)) * 1099511628211ull;
  return h;
}
inline uint64_t hashStr(const std::string& s) { return hashStr(s.c_str()); }
inline uint64_t comb(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b)); }
inline double u01(uint64_t h) { return (h >> 11) * (1.0 / 9007199254740992.0); }

/// Splittable generator: every consumer has its own stream keyed by a name, so that removing an
/// operation or a fault during minimisation never shifts the values seen by anything else.
class Rng
{
public:
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
  Rng(uint64_t seed, const std::string& name) : s(comb(seed, hashStr(name))) {}
  uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
  Rng fork(const std::string& n) const { return Rng(comb(s, hashStr(n))); }
  double uni() { return u01(u64()); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  int64_t i(int64_t a, int64_t b) { return b <= a ? a : a + static_cast<int64_t>(u64() % static_cast<uint64_t>(b - a + 1)); }
  bool p(double q) { return uni() < q; }
  double gauss() { double u = 1.0 - uni(), v = uni(); return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[static_cast<size_t>(u64() % v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + static_cast<size_t>(u64() % v.size())); }
};
}  // namespace sim
#endif
