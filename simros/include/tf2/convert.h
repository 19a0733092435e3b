#ifndef SIM_TF2_CONVERT_H
#define SIM_TF2_CONVERT_H
#include <string>
#include <geometry_msgs/TransformStamped.h>
#include <tf2/exceptions.h>
#include <tf2/transform_datatypes.h>
namespace tf2
{
template <class T> void doTransform(const T& in, T& out, const geometry_msgs::TransformStamped& tf);
template <class T> const ros::Time& getTimestamp(const T& t) { return t.header.stamp; }
template <class T> const std::string& getFrameId(const T& t) { return t.header.frame_id; }
template <class P> const ros::Time& getTimestamp(const tf2::Stamped<P>& t) { return t.stamp_; }
template <class P> const std::string& getFrameId(const tf2::Stamped<P>& t) { return t.frame_id_; }
// convert: whichever direction a conversion function exists for
template <class A, class B> auto convertImpl(const A& a, B& b, int) -> decltype(fromMsg(a, b), void()) { fromMsg(a, b); }
template <class A, class B> auto convertImpl(const A& a, B& b, long) -> decltype(b = toMsg(a), void()) { b = toMsg(a); }
template <class A, class B> auto convertImpl(const A& a, B& b, char) -> decltype(toMsg(a, b), void()) { toMsg(a, b); }
template <class A, class B> void convert(const A& a, B& b) { convertImpl(a, b, 0); }
template <class A> void convert(const A& a, A& b) { b = a; }
}
#endif
