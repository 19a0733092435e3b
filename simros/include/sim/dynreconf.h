#ifndef SIM_DYNRECONF_H
#define SIM_DYNRECONF_H
#include <cstdint>
#include <limits>
#include <string>
namespace sim
{
template <class T> T cfg_lowest() { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest(); }
template <class T> T cfg_highest() { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
template <class T> T cfg_clamp(T v, T lo, T hi) { return v < lo ? lo : hi < v ? hi : v; }
}
#endif
