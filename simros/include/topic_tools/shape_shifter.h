#ifndef SIMROS_SHAPE_SHIFTER_H
#define SIMROS_SHAPE_SHIFTER_H
#include <ros/ros.h>
namespace topic_tools
{
class ShapeShifterException : public ros::Exception
{
public:
  explicit ShapeShifterException(const std::string& m) : ros::Exception(m) {}
};
class ShapeShifter
{
public:
  typedef boost::shared_ptr<ShapeShifter> Ptr;
  typedef boost::shared_ptr<ShapeShifter const> ConstPtr;
  sim::MsgRef ref;
  std::string getDataType() const { return ref.ti ? ref.ti->datatype : ""; }
  std::string getMD5Sum() const { return getDataType(); }
  std::string getMessageDefinition() const { return getDataType(); }
  void morph(const std::string&, const std::string&, const std::string&, const std::string&) {}
  ros::Publisher advertise(ros::NodeHandle& nh, const std::string& topic, uint32_t q, bool latch = false,
                           const boost::function<void()>& = boost::function<void()>()) const
  {
    (void)q;
    return nh.adv(topic, getDataType(), latch);
  }
  template <class M>
  boost::shared_ptr<M> instantiate() const
  {
    if (!ref.ti || std::string(ref.ti->datatype) != M::__datatype())
      throw ShapeShifterException("Tried to instantiate message without matching type");
    return boost::make_shared<M>(*static_cast<const M*>(ref.p.get()));
  }
  uint32_t size() const
  {
    std::vector<uint8_t> b;
    if (ref.ti)
      ref.ti->ser(ref.p.get(), b);
    return static_cast<uint32_t>(b.size());
  }
  template <typename Stream>
  void write(Stream& s) const
  {
    std::vector<uint8_t> b;
    if (ref.ti)
      ref.ti->ser(ref.p.get(), b);
    if (!b.empty())
      memcpy(s.advance(static_cast<uint32_t>(b.size())), b.data(), b.size());
  }
};
}  // namespace topic_tools
namespace sim
{
template <>
struct MsgTraits<topic_tools::ShapeShifter>
{
  static const char* datatype() { return "*"; }
  static boost::shared_ptr<const topic_tools::ShapeShifter> fromRef(const MsgRef& r)
  {
    auto p = boost::make_shared<topic_tools::ShapeShifter>();
    p->ref = r;
    return p;
  }
  static MsgRef toRef(const topic_tools::ShapeShifter& m) { return m.ref; }
};
}  // namespace sim
#endif
