#ifndef SIM_MF_SYNC_H
#define SIM_MF_SYNC_H
#include <vector>
#include <boost/bind.hpp>
#include <boost/bind/placeholders.hpp>
#include <boost/function.hpp>
#include <message_filters/subscriber.h>
namespace message_filters
{
template <class Policy>
class Synchronizer
{
public:
  typedef boost::function<void(const typename Policy::P0&, const typename Policy::P1&)> Callback;
  template <class F0, class F1>
  Synchronizer(const Policy& p, F0& f0, F1& f1) : p_(p)
  {
    f0.registerCallback([this](const typename Policy::P0& m) { p_.add0(m, [this](const typename Policy::P0& a, const typename Policy::P1& b) { fire(a, b); }); });
    f1.registerCallback([this](const typename Policy::P1& m) { p_.add1(m, [this](const typename Policy::P0& a, const typename Policy::P1& b) { fire(a, b); }); });
  }
  Synchronizer(const Synchronizer&) = delete;
  Synchronizer& operator=(const Synchronizer&) = delete;
  template <class C>
  void registerCallback(const C& c)
  {
    cbs_.push_back(Callback(c));
  }

private:
  Policy p_;
  std::vector<Callback> cbs_;
  void fire(const typename Policy::P0& a, const typename Policy::P1& b)
  {
    for (auto& c : cbs_)
      c(a, b);
  }
};
}  // namespace message_filters
#endif
