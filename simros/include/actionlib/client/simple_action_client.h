// actionlib's SimpleActionClient (global callback queue), following the client state machine of the library.
#ifndef SIM_SIMPLE_ACTION_CLIENT_H
#define SIM_SIMPLE_ACTION_CLIENT_H
#include <memory>
#include <string>
#include <boost/function.hpp>
#include <actionlib_msgs/GoalID.h>
#include <actionlib_msgs/GoalStatusArray.h>
#include <ros/ros.h>
namespace actionlib
{
class SimpleClientGoalState
{
public:
  enum StateEnum { PENDING, ACTIVE, RECALLED, REJECTED, PREEMPTED, ABORTED, SUCCEEDED, LOST };
  StateEnum state_;
  std::string text_;
  SimpleClientGoalState(const StateEnum& s, const std::string& t = std::string("")) : state_(s), text_(t) {}
  bool operator==(const SimpleClientGoalState& o) const { return state_ == o.state_; }
  bool operator==(const StateEnum& o) const { return state_ == o; }
  bool operator!=(const SimpleClientGoalState& o) const { return !(state_ == o.state_); }
  bool operator!=(const StateEnum& o) const { return !(state_ == o); }
  bool isDone() const { return state_ != PENDING && state_ != ACTIVE; }
  std::string getText() const { return text_; }
  std::string toString() const
  {
    static const char* const n[] = {"PENDING", "ACTIVE", "RECALLED", "REJECTED", "PREEMPTED", "ABORTED", "SUCCEEDED", "LOST"};
    return n[state_];
  }
};
template <class A>
class SimpleActionClient
{
  typedef typename A::_action_goal_type ActionGoal;
  typedef typename A::_action_result_type ActionResult;
  typedef actionlib_msgs::GoalStatus GS;
  enum Comm { WAITING_FOR_GOAL_ACK, C_PENDING, C_ACTIVE, WAITING_FOR_RESULT, WAITING_FOR_CANCEL_ACK, RECALLING, PREEMPTING, DONE };

public:
  typedef typename A::Goal Goal;
  typedef typename A::Result Result;
  typedef boost::function<void(const SimpleClientGoalState&, const boost::shared_ptr<const Result>&)> SimpleDoneCallback;
  typedef boost::function<void()> SimpleActiveCallback;
  explicit SimpleActionClient(const std::string& name, bool = true) : nh_(name) { init(); }
  SimpleActionClient(ros::NodeHandle& n, const std::string& name, bool = true) : nh_(n, name) { init(); }
  void sendGoal(const Goal& g, SimpleDoneCallback done = SimpleDoneCallback())
  {
    ActionGoal m;
    m.header.stamp = ros::Time::now();
    m.goal_id.stamp = ros::Time::now();
    m.goal_id.id = ros::this_node::getName() + sim::strf("-%d-%.9f", ++count_, m.goal_id.stamp.toSec());
    m.goal = g;
    id_ = m.goal_id.id;
    comm_ = WAITING_FOR_GOAL_ACK;
    simple_ = SimpleClientGoalState::PENDING;
    have_ = true;
    latest_ = GS();
    done_ = done;
    goal_pub_.publish(m);
  }
  void cancelAllGoals()
  {
    actionlib_msgs::GoalID m;
    cancel_pub_.publish(m);
  }
  void cancelGoal()
  {
    if (!have_ || comm_ == DONE)
      return;
    actionlib_msgs::GoalID m;
    m.id = id_;
    cancel_pub_.publish(m);
    comm_ = WAITING_FOR_CANCEL_ACK;
  }
  bool isServerConnected() const
  {
    const bool conn = goal_pub_.getNumSubscribers() > 0 && cancel_pub_.getNumSubscribers() > 0 && result_sub_.getNumPublishers() > 0;
    if (!conn)
      connected_ = false;  // until the first status of the next server
    return conn && connected_;
  }
  SimpleClientGoalState getState() const
  {
    typedef SimpleClientGoalState S;
    if (!have_)
    {
      ROS_ERROR("Trying to getState() when no goal is running. You are incorrectly using SimpleActionClient");
      return S(S::LOST);
    }
    switch (comm_)
    {
      case WAITING_FOR_GOAL_ACK:
      case C_PENDING:
      case RECALLING:
        return S(S::PENDING);
      case C_ACTIVE:
      case PREEMPTING:
        return S(S::ACTIVE);
      case DONE:
        switch (latest_.status)
        {
          case GS::RECALLED: return S(S::RECALLED, latest_.text);
          case GS::REJECTED: return S(S::REJECTED, latest_.text);
          case GS::PREEMPTED: return S(S::PREEMPTED, latest_.text);
          case GS::ABORTED: return S(S::ABORTED, latest_.text);
          case GS::SUCCEEDED: return S(S::SUCCEEDED, latest_.text);
          default: return S(S::LOST, latest_.text);
        }
      case WAITING_FOR_RESULT:
      case WAITING_FOR_CANCEL_ACK:
        return S(simple_);
    }
    return S(S::LOST);
  }

private:
  void init()
  {
    status_sub_ = nh_.subscribe("status", 1, &SimpleActionClient::statusCb, this);
    result_sub_ = nh_.subscribe("result", 1, &SimpleActionClient::resultCb, this);
    goal_pub_ = nh_.template advertise<ActionGoal>("goal", 10);
    cancel_pub_ = nh_.template advertise<actionlib_msgs::GoalID>("cancel", 10);
  }
  void to(Comm c)
  {
    comm_ = c;
    if (c == C_ACTIVE || c == PREEMPTING)
      simple_ = SimpleClientGoalState::ACTIVE;
  }
  void update(const GS& s)
  {
    latest_ = s;
    switch (comm_)
    {
      case WAITING_FOR_GOAL_ACK:
        switch (s.status)
        {
          case GS::PENDING: to(C_PENDING); break;
          case GS::ACTIVE: to(C_ACTIVE); break;
          case GS::REJECTED:
          case GS::RECALLED: to(WAITING_FOR_RESULT); break;
          case GS::RECALLING: to(RECALLING); break;
          case GS::PREEMPTING: to(PREEMPTING); break;
          case GS::PREEMPTED:
          case GS::SUCCEEDED:
          case GS::ABORTED: to(C_ACTIVE); to(WAITING_FOR_RESULT); break;
        }
        break;
      case C_PENDING:
        switch (s.status)
        {
          case GS::ACTIVE: to(C_ACTIVE); break;
          case GS::REJECTED:
          case GS::RECALLED: to(WAITING_FOR_RESULT); break;
          case GS::RECALLING: to(RECALLING); break;
          case GS::PREEMPTING: to(PREEMPTING); break;
          case GS::PREEMPTED:
          case GS::SUCCEEDED:
          case GS::ABORTED: to(C_ACTIVE); to(WAITING_FOR_RESULT); break;
        }
        break;
      case C_ACTIVE:
        switch (s.status)
        {
          case GS::PREEMPTING: to(PREEMPTING); break;
          case GS::PREEMPTED:
          case GS::SUCCEEDED:
          case GS::ABORTED: to(WAITING_FOR_RESULT); break;
        }
        break;
      case WAITING_FOR_CANCEL_ACK:
        switch (s.status)
        {
          case GS::REJECTED:
          case GS::RECALLED:
          case GS::PREEMPTED:
          case GS::SUCCEEDED:
          case GS::ABORTED: to(WAITING_FOR_RESULT); break;
          case GS::RECALLING: to(RECALLING); break;
          case GS::PREEMPTING: to(PREEMPTING); break;
        }
        break;
      case RECALLING:
        switch (s.status)
        {
          case GS::REJECTED:
          case GS::RECALLED:
          case GS::PREEMPTED:
          case GS::SUCCEEDED:
          case GS::ABORTED: to(WAITING_FOR_RESULT); break;
          case GS::PREEMPTING: to(PREEMPTING); break;
        }
        break;
      case PREEMPTING:
        switch (s.status)
        {
          case GS::PREEMPTED:
          case GS::SUCCEEDED:
          case GS::ABORTED: to(WAITING_FOR_RESULT); break;
        }
        break;
      default:
        break;
    }
  }
  void statusCb(const boost::shared_ptr<const actionlib_msgs::GoalStatusArray>& m)
  {
    connected_ = true;
    if (!have_ || comm_ == DONE)
      return;
    for (const auto& s : m->status_list)
    {
      if (s.goal_id.id == id_)
      {
        update(s);
        return;
      }
    }
    if (comm_ != WAITING_FOR_GOAL_ACK && comm_ != WAITING_FOR_RESULT)
    {
      ROS_WARN("Transitioning goal to LOST");
      latest_.status = GS::LOST;
      finish();
    }
  }
  void resultCb(const boost::shared_ptr<const ActionResult>& r)
  {
    if (!have_ || r->status.goal_id.id != id_ || comm_ == DONE)
      return;
    update(r->status);
    latest_ = r->status;
    result_ = r;
    finish();
  }
  void finish()
  {
    comm_ = DONE;
    if (done_)
      done_(getState(), result_ ? boost::shared_ptr<const Result>(result_, &result_->result) : boost::shared_ptr<const Result>());
  }
  ros::NodeHandle nh_;
  ros::Subscriber status_sub_, result_sub_;
  ros::Publisher goal_pub_, cancel_pub_;
  int count_ = 0;
  std::string id_;
  Comm comm_ = DONE;
  SimpleClientGoalState::StateEnum simple_ = SimpleClientGoalState::PENDING;
  bool have_ = false;
  mutable bool connected_ = false;
  GS latest_;
  boost::shared_ptr<const ActionResult> result_;
  SimpleDoneCallback done_;
};
}  // namespace actionlib
#endif
