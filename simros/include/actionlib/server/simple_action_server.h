// actionlib's ActionServer and SimpleActionServer (callback interface), following the state machine of the library.
#ifndef SIM_SIMPLE_ACTION_SERVER_H
#define SIM_SIMPLE_ACTION_SERVER_H
#include <list>
#include <memory>
#include <string>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <actionlib_msgs/GoalID.h>
#include <actionlib_msgs/GoalStatus.h>
#include <actionlib_msgs/GoalStatusArray.h>
#include <ros/ros.h>
#include <std_msgs/Empty.h>
namespace actionlib
{
template <class A>
class ActionServerImpl
{
public:
  typedef typename A::_action_goal_type ActionGoal;
  typedef typename A::_action_result_type ActionResult;
  typedef typename A::_action_feedback_type ActionFeedback;
  typedef typename A::Goal Goal;
  typedef typename A::Result Result;
  typedef typename A::Feedback Feedback;
  typedef actionlib_msgs::GoalStatus GS;
  struct Tracker
  {
    boost::shared_ptr<const ActionGoal> goal;
    GS status;
    std::weak_ptr<void> handle;
    ros::Time destroyed;
    uint64_t seq = 0;
  };
  struct Handle
  {
    typename std::list<Tracker>::iterator it;
    std::shared_ptr<void> token;
    ActionServerImpl* as = nullptr;
    bool valid() const { return as != nullptr && it->goal; }
    bool operator==(const Handle& o) const
    {
      if (!valid() || !o.valid())
        return !valid() && !o.valid();
      return it->status.goal_id.id == o.it->status.goal_id.id;
    }
    bool operator!=(const Handle& o) const { return !(*this == o); }
    uint8_t st() const { return it->status.status; }
    ros::Time stamp() const { return it->status.goal_id.stamp; }
    void set(uint8_t s, const std::string& text)
    {
      it->status.status = s;
      it->status.text = text;
    }
    void setAccepted(const std::string& text)
    {
      if (st() == GS::PENDING)
        set(GS::ACTIVE, text);
      else if (st() == GS::RECALLING)
        set(GS::PREEMPTING, text);
      else
        return;
      as->publishStatus();
    }
    void setCanceled(const Result& r, const std::string& text)
    {
      if (st() == GS::PENDING || st() == GS::RECALLING)
        set(GS::RECALLED, text);
      else if (st() == GS::ACTIVE || st() == GS::PREEMPTING)
        set(GS::PREEMPTED, text);
      else
      {
        ROS_ERROR("To transition to a cancelled state, the goal must be in a pending, recalling, active, or preempting state, it is currently in state: %d", st());
        return;
      }
      as->publishResult(it->status, r);
    }
    void setTerminal(uint8_t s, const Result& r, const std::string& text)
    {
      if (st() == GS::ACTIVE || st() == GS::PREEMPTING)
        set(s, text);
      else
      {
        ROS_ERROR("To transition to a terminal state, the goal must be in a preempting or active state, it is currently in state: %d", st());
        return;
      }
      as->publishResult(it->status, r);
    }
    bool setCancelRequested()
    {
      if (st() == GS::PENDING)
        set(GS::RECALLING, "RECALLING");
      else if (st() == GS::ACTIVE)
        set(GS::PREEMPTING, "");
      else
        return false;
      as->publishStatus();
      return true;
    }
  };

  ros::NodeHandle nh_;
  ros::Publisher result_pub_, feedback_pub_, status_pub_;
  ros::Subscriber goal_sub_, cancel_sub_;
  ros::Timer status_timer_;
  ros::Duration timeout_;
  ros::Time last_cancel_;
  std::list<Tracker> list_;
  bool started_ = false;
  uint64_t n_goal_ = 0, n_token_ = 0;
  boost::function<void(Handle)> goal_cb_, cancel_cb_;

  ActionServerImpl(ros::NodeHandle n, const std::string& name) : nh_(n, name), timeout_(5.0) {}
  void start()
  {
    started_ = true;
    result_pub_ = nh_.template advertise<ActionResult>("result", 50);
    feedback_pub_ = nh_.template advertise<ActionFeedback>("feedback", 50);
    status_pub_ = nh_.template advertise<actionlib_msgs::GoalStatusArray>("status", 50, true);
    status_timer_ = nh_.createTimer(ros::Duration(0.2), &ActionServerImpl::cbTimer, this);
    goal_sub_ = nh_.subscribe("goal", 50, &ActionServerImpl::goalCallback, this);
    cancel_sub_ = nh_.subscribe("cancel", 50, &ActionServerImpl::cancelCallback, this);
    publishStatus();
  }
  void cbTimer(const ros::TimerEvent&) { publishStatus(); }
  Handle makeHandle(typename std::list<Tracker>::iterator it)
  {
    Handle h;
    h.it = it;
    h.as = this;
    h.token = it->handle.lock();
    if (!h.token)
    {
      const uint64_t seq = ++n_token_;
      it->seq = seq;
      // The tracker is kept until the timeout after the last handle is gone.
      h.token = std::shared_ptr<void>(new int(0), [this, seq](void* p) {
        delete static_cast<int*>(p);
        for (auto& t : list_)
          if (t.seq == seq)
            t.destroyed = ros::Time::now();
      });
      it->handle = h.token;
    }
    return h;
  }
  void goalCallback(const boost::shared_ptr<const ActionGoal>& goal)
  {
    if (!started_)
      return;
    for (auto& t : list_)
    {
      if (goal->goal_id.id == t.status.goal_id.id)
      {
        if (t.status.status == GS::RECALLING)
        {
          t.status.status = GS::RECALLED;
          publishResult(t.status, Result());
        }
        if (t.handle.expired())
          t.destroyed = goal->goal_id.stamp;
        return;
      }
    }
    Tracker t;
    t.goal = goal;
    t.status.goal_id = goal->goal_id;
    t.status.status = GS::PENDING;
    if (t.status.goal_id.id.empty())
      t.status.goal_id.id = ros::this_node::getName() + sim::strf("-%llu", static_cast<unsigned long long>(++n_goal_));
    if (t.status.goal_id.stamp == ros::Time())
      t.status.goal_id.stamp = ros::Time::now();
    list_.push_back(t);
    Handle h = makeHandle(std::prev(list_.end()));
    if (goal->goal_id.stamp != ros::Time() && goal->goal_id.stamp <= last_cancel_)
      h.setCanceled(Result(), "This goal handle was canceled by the action server because its timestamp is before the timestamp of the last cancel request");
    else
      goal_cb_(h);
  }
  void cancelCallback(const boost::shared_ptr<const actionlib_msgs::GoalID>& id)
  {
    if (!started_)
      return;
    bool found = false;
    for (auto it = list_.begin(); it != list_.end(); ++it)
    {
      if ((id->id.empty() && id->stamp == ros::Time()) || id->id == it->status.goal_id.id ||
          (id->stamp != ros::Time() && it->status.goal_id.stamp <= id->stamp))
      {
        if (id->id == it->status.goal_id.id)
          found = true;
        Handle h = makeHandle(it);
        if (h.setCancelRequested())
          cancel_cb_(h);
      }
    }
    if (!id->id.empty() && !found)
    {
      Tracker t;
      t.status.goal_id = *id;
      t.status.status = GS::RECALLING;
      t.destroyed = id->stamp;
      if (t.status.goal_id.stamp == ros::Time())
        t.status.goal_id.stamp = ros::Time::now();
      list_.push_back(t);
    }
    if (id->stamp > last_cancel_)
      last_cancel_ = id->stamp;
  }
  void publishResult(const GS& s, const Result& r)
  {
    ActionResult m;
    m.header.stamp = ros::Time::now();
    m.status = s;
    m.result = r;
    result_pub_.publish(m);
    publishStatus();
  }
  void publishStatus()
  {
    actionlib_msgs::GoalStatusArray a;
    const ros::Time now = ros::Time::now();
    a.header.stamp = now;
    for (auto it = list_.begin(); it != list_.end();)
    {
      a.status_list.push_back(it->status);
      if (it->destroyed != ros::Time() && it->handle.expired() && it->destroyed + timeout_ < now)
        it = list_.erase(it);
      else
        ++it;
    }
    status_pub_.publish(a);
  }
};
template <class A>
class SimpleActionServer
{
  typedef ActionServerImpl<A> Impl;
  typedef typename Impl::Handle Handle;
  typedef typename Impl::GS GS;

public:
  typedef typename A::Goal Goal;
  typedef typename A::Result Result;
  typedef typename A::Feedback Feedback;
  typedef boost::shared_ptr<const Goal> GoalConstPtr;
  SimpleActionServer(ros::NodeHandle n, std::string name, bool auto_start) : as_(new Impl(n, name))
  {
    as_->goal_cb_ = [this](Handle h) { goalCallback(h); };
    as_->cancel_cb_ = [this](Handle h) { preemptCallback(h); };
    if (auto_start)
      as_->start();
  }
  SimpleActionServer(std::string name, bool auto_start) : SimpleActionServer(ros::NodeHandle(), name, auto_start) {}
  void start() { as_->start(); }
  void registerGoalCallback(boost::function<void()> cb) { goal_callback_ = cb; }
  void registerPreemptCallback(boost::function<void()> cb) { preempt_callback_ = cb; }
  GoalConstPtr acceptNewGoal()
  {
    if (!new_goal_ || !next_.valid())
    {
      ROS_ERROR("Attempting to accept the next goal when a new goal is not available");
      return GoalConstPtr();
    }
    if (isActive() && cur_.valid() && cur_ != next_)
      cur_.setCanceled(Result(), "This goal was canceled because another goal was received by the simple action server");
    cur_ = next_;
    new_goal_ = false;
    preempt_request_ = new_goal_preempt_request_;
    new_goal_preempt_request_ = false;
    cur_.setAccepted("This goal has been accepted by the simple action server");
    return GoalConstPtr(cur_.it->goal, &cur_.it->goal->goal);
  }
  bool isNewGoalAvailable() { return new_goal_; }
  bool isPreemptRequested() { return preempt_request_; }
  bool isActive()
  {
    if (!cur_.valid())
      return false;
    return cur_.st() == GS::ACTIVE || cur_.st() == GS::PREEMPTING;
  }
  void setSucceeded(const Result& r = Result(), const std::string& text = std::string("")) { cur_.setTerminal(GS::SUCCEEDED, r, text); }
  void setAborted(const Result& r = Result(), const std::string& text = std::string("")) { cur_.setTerminal(GS::ABORTED, r, text); }
  void setPreempted(const Result& r = Result(), const std::string& text = std::string("")) { cur_.setCanceled(r, text); }
  void publishFeedback(const Feedback& f)
  {
    typename A::_action_feedback_type m;
    m.header.stamp = ros::Time::now();
    m.status = cur_.it->status;
    m.feedback = f;
    as_->feedback_pub_.publish(m);
  }

private:
  void goalCallback(Handle g)
  {
    if ((!cur_.valid() || g.stamp() >= cur_.stamp()) && (!next_.valid() || g.stamp() >= next_.stamp()))
    {
      if (next_.valid() && (!cur_.valid() || next_ != cur_))
        next_.setCanceled(Result(), "This goal was canceled because another goal was received by the simple action server");
      next_ = g;
      new_goal_ = true;
      new_goal_preempt_request_ = false;
      if (isActive())
      {
        preempt_request_ = true;
        if (preempt_callback_)
          preempt_callback_();
      }
      if (goal_callback_)
        goal_callback_();
    }
    else
      g.setCanceled(Result(), "This goal was canceled because another goal was received by the simple action server");
  }
  void preemptCallback(Handle p)
  {
    if (p == cur_)
    {
      preempt_request_ = true;
      if (preempt_callback_)
        preempt_callback_();
    }
    else if (p == next_)
      new_goal_preempt_request_ = true;
  }
  std::shared_ptr<Impl> as_;
  Handle cur_, next_;
  bool new_goal_ = false, preempt_request_ = false, new_goal_preempt_request_ = false;
  boost::function<void()> goal_callback_, preempt_callback_;
};
}  // namespace actionlib
#endif
