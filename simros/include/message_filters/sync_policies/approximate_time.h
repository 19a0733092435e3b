// Re-implementation of message_filters::sync_policies::ApproximateTime for two topics (the algorithm of ROS, step by step).
#ifndef SIM_MF_APPROX_H
#define SIM_MF_APPROX_H
#include <deque>
#include <tuple>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <ros/time.h>
namespace message_filters
{
namespace sync_policies
{
template <class M0, class M1>
class ApproximateTime
{
public:
  typedef M0 Msg0;
  typedef M1 Msg1;
  typedef boost::shared_ptr<M0 const> P0;
  typedef boost::shared_ptr<M1 const> P1;
  explicit ApproximateTime(uint32_t queue_size) : queue_size_(queue_size) {}
  void setAgePenalty(double p) { age_penalty_ = p; }
  template <class F>
  void add0(const P0& m, const F& out)
  {
    add<0>(d0_, p0_, m, out);
  }
  template <class F>
  void add1(const P1& m, const F& out)
  {
    add<1>(d1_, p1_, m, out);
  }

private:
  uint32_t queue_size_;
  double age_penalty_ = 0.1;
  std::deque<P0> d0_;
  std::deque<P1> d1_;
  std::vector<P0> p0_;
  std::vector<P1> p1_;
  P0 c0_;
  P1 c1_;
  int pivot_ = -1;
  ros::Time start_, end_, pivot_time_;
  bool dropped_[2] = {false, false};
  int nonEmpty() const { return (d0_.empty() ? 0 : 1) + (d1_.empty() ? 0 : 1); }
  template <class D, class P>
  static void recover(D& d, P& p, int n)
  {
    for (int i = 0; i < n; ++i)
    {
      d.push_front(p.back());
      p.pop_back();
    }
  }
  template <int I, class D, class P, class M, class F>
  void add(D& d, P& p, const M& m, const F& out)
  {
    d.push_back(m);
    if (d.size() == 1 && nonEmpty() == 2)
      process(out);
    if (d.size() + p.size() > queue_size_)
    {
      recover(d0_, p0_, static_cast<int>(p0_.size()));
      recover(d1_, p1_, static_cast<int>(p1_.size()));
      d.pop_front();
      dropped_[I] = true;
      if (pivot_ != -1)
      {
        c0_.reset();
        c1_.reset();
        pivot_ = -1;
        process(out);
      }
    }
  }
  void delFront(int i)
  {
    if (i == 0)
      d0_.pop_front();
    else
      d1_.pop_front();
  }
  void toPast(int i)
  {
    if (i == 0)
    {
      p0_.push_back(d0_.front());
      d0_.pop_front();
    }
    else
    {
      p1_.push_back(d1_.front());
      d1_.pop_front();
    }
  }
  void makeCandidate()
  {
    c0_ = d0_.front();
    c1_ = d1_.front();
    p0_.clear();
    p1_.clear();
  }
  template <class F>
  void publish(const F& out)
  {
    const P0 a = c0_;
    const P1 b = c1_;
    c0_.reset();
    c1_.reset();
    pivot_ = -1;
    recover(d0_, p0_, static_cast<int>(p0_.size()));
    recover(d1_, p1_, static_cast<int>(p1_.size()));
    d0_.pop_front();
    d1_.pop_front();
    out(a, b);
  }
  ros::Time virtualTime(int i) const
  {
    if (i == 0 ? d0_.empty() : d1_.empty())
    {
      const ros::Time last = i == 0 ? p0_.back()->header.stamp : p1_.back()->header.stamp;
      return last > pivot_time_ ? last : pivot_time_;
    }
    return i == 0 ? d0_.front()->header.stamp : d1_.front()->header.stamp;
  }
  template <class F>
  void process(const F& out)
  {
    while (nonEmpty() == 2)
    {
      const ros::Time t0 = d0_.front()->header.stamp, t1 = d1_.front()->header.stamp;
      const int end_i = t1 >= t0 ? 1 : 0, start_i = t1 < t0 ? 1 : 0;
      const ros::Time et = t1 >= t0 ? t1 : t0, st = t1 < t0 ? t1 : t0;
      for (int i = 0; i < 2; ++i)
        if (i != end_i)
          dropped_[i] = false;
      if (pivot_ == -1)
      {
        if (dropped_[end_i])
        {
          delFront(start_i);
          continue;
        }
        makeCandidate();
        start_ = st;
        end_ = et;
        pivot_ = end_i;
        pivot_time_ = et;
        toPast(start_i);
      }
      else if ((et - end_).toSec() * (1 + age_penalty_) >= (st - start_).toSec())
        toPast(start_i);
      else
      {
        makeCandidate();
        start_ = st;
        end_ = et;
        toPast(start_i);
      }
      if (start_i == pivot_)
        publish(out);
      else if ((et - end_).toSec() * (1 + age_penalty_) >= (pivot_time_ - start_).toSec())
        publish(out);
      else if (nonEmpty() < 2)
      {
        int moves[2] = {0, 0};
        while (true)
        {
          const ros::Time v0 = virtualTime(0), v1 = virtualTime(1);
          const int si = v1 < v0 ? 1 : 0;
          const ros::Time ve = v1 >= v0 ? v1 : v0, vs = v1 < v0 ? v1 : v0;
          if ((ve - end_).toSec() * (1 + age_penalty_) >= (pivot_time_ - start_).toSec())
          {
            publish(out);
            break;
          }
          if ((ve - end_).toSec() * (1 + age_penalty_) < (vs - start_).toSec())
          {
            recover(d0_, p0_, moves[0]);
            recover(d1_, p1_, moves[1]);
            break;
          }
          if (si == 0 ? d0_.empty() : d1_.empty())
          {
            // unreachable in ROS (asserted there); streams with stamps going back get here
            recover(d0_, p0_, moves[0]);
            recover(d1_, p1_, moves[1]);
            break;
          }
          toPast(si);
          ++moves[si];
        }
      }
    }
  }
};
}  // namespace sync_policies
}  // namespace message_filters
#endif
