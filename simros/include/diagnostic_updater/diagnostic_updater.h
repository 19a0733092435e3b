#ifndef SIM_DIAG_H
#define SIM_DIAG_H
#include <cstdarg>
#include <diagnostic_msgs/DiagnosticArray.h>
#include <diagnostic_msgs/DiagnosticStatus.h>
#include <ros/ros.h>
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::DiagnosticStatus
{
public:
  void summary(unsigned char lvl, const std::string s) { level = lvl; message = s; }
  void summaryf(unsigned char lvl, const char* fmt, ...)
  {
    va_list ap;
    va_start(ap, fmt);
    char b[1000];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    summary(lvl, b);
  }
  void clearSummary() { summary(0, ""); }
  void mergeSummary(unsigned char lvl, const std::string s)
  {
    if ((lvl > 0) && (level > 0)) { if (!message.empty()) message += "; "; message += s; }
    else if (lvl > level) message = s;
    if (lvl > level) level = lvl;
  }
  template <class T> void add(const std::string& k, const T& v)
  {
    std::stringstream ss;
    ss << v;
    diagnostic_msgs::KeyValue kv;
    kv.key = k;
    kv.value = ss.str();
    values.push_back(kv);
  }
  void add(const std::string& k, bool v) { add(k, std::string(v ? "True" : "False")); }
  void addf(const std::string& k, const char* fmt, ...)
  {
    va_list ap;
    va_start(ap, fmt);
    char b[1000];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    add(k, std::string(b));
  }
};
typedef boost::function<void(DiagnosticStatusWrapper&)> TaskFunction;
class Updater
{
public:
  explicit Updater(ros::NodeHandle h = ros::NodeHandle(), ros::NodeHandle = ros::NodeHandle("~"), std::string name = ros::this_node::getName())
    : next_(ros::Time::now()), period_(1.0), name_(name)
  {
    pub_ = h.advertise<diagnostic_msgs::DiagnosticArray>("/diagnostics", 1);
  }
  void setHardwareID(const std::string& h) { hwid_ = h; }
  void setHardwareIDf(const char* f, ...) { hwid_ = f; }
  void add(const std::string& n, TaskFunction f) { tasks_.emplace_back(n, f); }
  template <class T> void add(const std::string n, T* c, void (T::*f)(DiagnosticStatusWrapper&))
  {
    add(n, TaskFunction([c, f](DiagnosticStatusWrapper& s) { (c->*f)(s); }));
  }
  void update()
  {
    const ros::Time now = ros::Time::now();
    if (now < next_)
      return;
    force_update();
  }
  void force_update()
  {
    next_ = ros::Time::now() + ros::Duration(period_);
    diagnostic_msgs::DiagnosticArray a;
    for (auto& t : tasks_)
    {
      DiagnosticStatusWrapper s;
      s.name = t.first;
      s.level = 2;
      s.message = "No message was set";
      s.hardware_id = hwid_;
      t.second(s);
      a.status.push_back(s);
    }
    for (auto& s : a.status)
      s.name = name_.substr(1) + ": " + s.name;
    a.header.stamp = ros::Time::now();
    pub_.publish(a);
  }
  double getPeriod() { return period_; }
  void setPeriod(double p) { next_ += ros::Duration(p - period_); period_ = p; }
  void broadcast(int, const std::string) {}

private:
  ros::Publisher pub_;
  ros::Time next_;
  double period_;
  std::string name_, hwid_;
  std::vector<std::pair<std::string, TaskFunction>> tasks_;
};
}
#endif
