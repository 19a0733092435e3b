#ifndef SIM_DYNRECONF_SERVER_H
#define SIM_DYNRECONF_SERVER_H
#include <boost/function.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <ros/ros.h>
namespace dynamic_reconfigure
{
template <class C>
class Server
{
public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  explicit Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh), m_(own_) { init(); }
  explicit Server(boost::recursive_mutex& m, const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh), m_(m) { init(); }
  ~Server() { *alive_ = false; }
  void setCallback(const CallbackType& cb)
  {
    cb_ = cb;
    call(cfg_, ~0u);
    store();
  }
  void clearCallback() { cb_.clear(); }
  void updateConfig(const C& c) { cfg_ = c; store(); }
  void getConfigDefault(C& c) { c = C::__getDefault__(); }

private:
  ros::NodeHandle nh_;
  boost::recursive_mutex own_;
  boost::recursive_mutex& m_;
  C cfg_;
  CallbackType cb_;
  std::shared_ptr<bool> alive_ = std::make_shared<bool>(true);
  struct FromParam
  {
    const ros::NodeHandle& nh;
    template <class T> void operator()(const char* n, T& v, const T& , uint32_t) { T x; if (nh.getParam(n, x)) v = x; }
    template <class T> void operator()(const char* n, T& v, T&& , uint32_t) { T x; if (nh.getParam(n, x)) v = x; }
  };
  struct Clamp
  {
    template <class T> void operator()(const char*, T& v, const T& c, uint32_t) { v = T(c); }
    template <class T> void operator()(const char*, T& v, T&& c, uint32_t) { v = c; }
  };
  static void parse(const std::string& s, double& v) { v = std::stod(s); }
  static void parse(const std::string& s, int& v) { v = std::stoi(s); }
  static void parse(const std::string& s, bool& v) { v = s == "1" || s == "true"; }
  static void parse(const std::string& s, std::string& v) { v = s; }
  struct FromMap
  {
    const std::map<std::string, std::string>& m;
    uint32_t& level;
    template <class T> void set(const char* n, T& v, uint32_t lv)
    {
      auto it = m.find(n);
      if (it == m.end())
        return;
      T x;
      parse(it->second, x);
      if (!(x == v))
        level |= lv;
      v = x;
    }
    template <class T> void operator()(const char* n, T& v, const T& , uint32_t lv) { set(n, v, lv); }
    template <class T> void operator()(const char* n, T& v, T&& , uint32_t lv) { set(n, v, lv); }
  };
  void init()
  {
    cfg_ = C::__getDefault__();
    cfg_.__each(FromParam{nh_});
    cfg_.__each(Clamp());
    auto alive = alive_;
    sim::Sim* s = sim::Sim::g;
    (s->cur ? s->cur : s->world)->reconf.push_back([this, alive](std::map<std::string, std::string> m) {
      if (!*alive)
        return;
      boost::recursive_mutex::scoped_lock lock(m_);
      C n = cfg_;
      uint32_t level = 0;
      n.__each(FromMap{m, level});
      n.__each(Clamp());
      call(n, level);
      cfg_ = n;
      store();
    });
  }
  void call(C& c, uint32_t level)
  {
    if (cb_)
      cb_(c, level);
  }
  struct ToParam
  {
    const ros::NodeHandle& nh;
    template <class T> void operator()(const char* n, T& v, const T& , uint32_t) { nh.setParam(n, v); }
    template <class T> void operator()(const char* n, T& v, T&& , uint32_t) { nh.setParam(n, v); }
  };
  void store() { cfg_.__each(ToParam{nh_}); }
};
}
#endif
