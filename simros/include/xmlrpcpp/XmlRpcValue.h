#ifndef SIM_XMLRPCVALUE_H
#define SIM_XMLRPCVALUE_H
#include <cstdlib>
#include <map>
#include <ostream>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;
  XmlRpcValue() {}
  XmlRpcValue(bool v) : t_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : t_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : t_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : t_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : t_(TypeString), s_(v) {}
  const Type& getType() const { return t_; }
  bool valid() const { return t_ != TypeInvalid; }
  int size() const
  {
    if (t_ == TypeArray) return static_cast<int>(a_.size());
    if (t_ == TypeStruct) return static_cast<int>(m_.size());
    if (t_ == TypeString) return static_cast<int>(s_.size());
    throw XmlRpcException("type error");
  }
  /// Arrays and numbers only.
  bool fromXml(const std::string& x, int* off)
  {
    size_t p = static_cast<size_t>(*off);
    const bool ok = parse(x, p);
    *off = static_cast<int>(p);
    return ok;
  }
  void setSize(int n) { as(TypeArray); a_.resize(n); }
  bool hasMember(const std::string& n) const { return t_ == TypeStruct && m_.count(n); }
  operator bool&() { as(TypeBoolean); return b_; }
  operator int&() { as(TypeInt); return i_; }
  operator double&() { as(TypeDouble); return d_; }
  operator std::string&() { as(TypeString); return s_; }
  operator const bool&() const { is(TypeBoolean); return b_; }
  operator const int&() const { is(TypeInt); return i_; }
  operator const double&() const { is(TypeDouble); return d_; }
  operator const std::string&() const { is(TypeString); return s_; }
  XmlRpcValue& operator[](int i) { as(TypeArray); if (i >= static_cast<int>(a_.size())) a_.resize(i + 1); return a_.at(i); }
  XmlRpcValue const& operator[](int i) const { is(TypeArray); return a_.at(i); }
  XmlRpcValue& operator[](const std::string& k) { as(TypeStruct); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { as(TypeStruct); return m_[k]; }
  iterator begin() { as(TypeStruct); return m_.begin(); }
  iterator end() { as(TypeStruct); return m_.end(); }

private:
  static bool eat(const std::string& x, size_t& p, const char* t)
  {
    while (p < x.size() && (x[p] == ' ' || x[p] == '\n'))
      ++p;
    const std::string s(t);
    if (x.compare(p, s.size(), s) != 0)
      return false;
    p += s.size();
    return true;
  }
  bool parse(const std::string& x, size_t& p)
  {
    if (!eat(x, p, "<value>"))
      return false;
    if (eat(x, p, "<array>"))
    {
      eat(x, p, "<data>");
      as(TypeArray);
      for (;;)
      {
        XmlRpcValue v;
        if (!v.parse(x, p))
          break;
        a_.push_back(v);
      }
      return eat(x, p, "</data>") && eat(x, p, "</array>") && eat(x, p, "</value>");
    }
    if (!eat(x, p, "<double>"))
      return false;
    as(TypeDouble);
    d_ = atof(x.c_str() + p);
    p = x.find('<', p);
    return eat(x, p, "</double>") && eat(x, p, "</value>");
  }
  void as(Type t)
  {
    if (t_ == TypeInvalid)
      t_ = t;
    else if (t_ != t)
      throw XmlRpcException("type error");
  }
  void is(Type t) const { if (t_ != t) throw XmlRpcException("type error"); }
  Type t_ = TypeInvalid;
  bool b_ = false;
  int i_ = 0;
  double d_ = 0;
  std::string s_;
  ValueArray a_;
  ValueStruct m_;
};
}
#endif
