#ifndef SIM_TF2_DATATYPES_H
#define SIM_TF2_DATATYPES_H
#include <string>
#include <ros/time.h>
namespace tf2
{
template <typename T>
class Stamped : public T
{
public:
  ros::Time stamp_;
  std::string frame_id_;
  Stamped() : frame_id_("NO_ID_STAMPED_DEFAULT_CONSTRUCTION") {}
  Stamped(const T& i, const ros::Time& t, const std::string& f) : T(i), stamp_(t), frame_id_(f) {}
  Stamped(const Stamped& s) = default;
  Stamped& operator=(const Stamped& s) = default;
  void setData(const T& i) { *static_cast<T*>(this) = i; }
};
}
#endif
