// The part of yaml-cpp (>= 0.5 API) the nodes use: block maps of scalars and flow/block sequences, with its exception classes.
#ifndef SIM_YAML_H
#define SIM_YAML_H
#include <istream>
#include <fstream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace YAML
{
class Exception : public std::runtime_error { public: explicit Exception(const std::string& s) : std::runtime_error("yaml-cpp: error: " + s) {} };
class ParserException : public Exception { public: using Exception::Exception; };
class RepresentationException : public Exception { public: using Exception::Exception; };
class InvalidScalar : public RepresentationException { public: using RepresentationException::RepresentationException; };
class KeyNotFound : public RepresentationException { public: using RepresentationException::RepresentationException; };
class InvalidNode : public RepresentationException { public: using RepresentationException::RepresentationException; };
class BadConversion : public RepresentationException { public: using RepresentationException::RepresentationException; };
class BadSubscript : public RepresentationException { public: using RepresentationException::RepresentationException; };
class BadFile : public Exception { public: using Exception::Exception; };
template <class T>
class TypedBadConversion : public BadConversion { public: using BadConversion::BadConversion; };
class Node
{
public:
  enum Kind { ZOMBIE, NUL, SCALAR, SEQ, MAP };
  Kind k = NUL;
  std::string s;
  std::vector<Node> seq;
  std::vector<std::pair<std::string, Node>> map;
  Node() {}
  bool IsDefined() const { return k != ZOMBIE; }
  bool IsNull() const { return k == NUL; }
  bool IsScalar() const { return k == SCALAR; }
  bool IsSequence() const { return k == SEQ; }
  bool IsMap() const { return k == MAP; }
  explicit operator bool() const { return IsDefined(); }
  bool operator!() const { return !IsDefined(); }
  size_t size() const { return k == SEQ ? seq.size() : k == MAP ? map.size() : 0; }
  const std::string& Scalar() const { return s; }
  static Node zombie() { Node n; n.k = ZOMBIE; return n; }
  Node operator[](const std::string& key) const
  {
    check();
    for (auto& p : map)
      if (p.first == key)
        return p.second;
    return zombie();
  }
  Node operator[](const char* key) const { return (*this)[std::string(key)]; }
  Node operator[](int i) const
  {
    check();
    return k == SEQ && i >= 0 && static_cast<size_t>(i) < seq.size() ? seq[static_cast<size_t>(i)] : zombie();
  }
  Node operator[](size_t i) const { return (*this)[static_cast<int>(i)]; }
  template <class T>
  T as() const
  {
    if (k == ZOMBIE)
      throw InvalidNode("invalid node; this may result from using a map iterator as a sequence iterator, or vice-versa");
    T o;
    if (!conv(o))
      throw TypedBadConversion<T>("bad conversion");
    return o;
  }
  template <class T, class D>
  T as(const D& d) const
  {
    T o;
    return k != ZOMBIE && conv(o) ? o : T(d);
  }

private:
  void check() const
  {
    if (k == ZOMBIE)
      throw InvalidNode("invalid node");
    if (k == SCALAR)
      throw BadSubscript("operator[] call on a scalar");
  }
  bool conv(std::string& o) const
  {
    o = s;
    return k == SCALAR;
  }
  bool conv(bool& o) const
  {
    if (k != SCALAR)
      return false;
    if (s == "true" || s == "True" || s == "yes" || s == "on" || s == "y")
      o = true;
    else if (s == "false" || s == "False" || s == "no" || s == "off" || s == "n")
      o = false;
    else
      return false;
    return true;
  }
  template <class T>
  bool conv(T& o) const
  {
    if (k != SCALAR)
      return false;
    if (s == ".nan" || s == ".NaN") { o = static_cast<T>(__builtin_nan("")); return true; }
    if (s == ".inf" || s == "+.inf") { o = static_cast<T>(__builtin_inf()); return true; }
    if (s == "-.inf") { o = static_cast<T>(-__builtin_inf()); return true; }
    std::stringstream st(s);
    st.unsetf(std::ios::dec);
    st >> std::noskipws >> o;
    return !st.fail() && (st >> std::ws).eof();
  }
};
namespace detail
{
inline std::string trim(const std::string& a)
{
  const size_t b = a.find_first_not_of(" \t\r"), e = a.find_last_not_of(" \t\r");
  return b == std::string::npos ? "" : a.substr(b, e - b + 1);
}
inline Node value(const std::string& in)
{
  Node n;
  std::string v = trim(in);
  if (v.empty() || v == "~" || v == "null")
    return n;
  if (v[0] == '[')
  {
    if (v.back() != ']')
      throw ParserException("end of sequence flow not found");
    n.k = Node::SEQ;
    std::string c;
    const std::string b = v.substr(1, v.size() - 2);
    if (trim(b).empty())
      return n;
    for (size_t i = 0; i <= b.size(); ++i)
      if (i == b.size() || b[i] == ',')
      {
        if (!(i == b.size() && trim(c).empty()))
          n.seq.push_back(value(c));
        c.clear();
      }
      else
        c += b[i];
    return n;
  }
  if (v[0] == '{' || v[0] == '}' || v[0] == ']' || v[0] == '&' || v[0] == '%' || v[0] == '@' || v[0] == '`')
    throw ParserException("unexpected character");
  n.k = Node::SCALAR;
  if (v[0] == '"' || v[0] == '\'')
  {
    if (v.size() < 2 || v.back() != v[0])
      throw ParserException("end of quoted scalar not found");
    n.s = v.substr(1, v.size() - 2);
  }
  else
    n.s = v;
  return n;
}
}  // namespace detail
inline Node Load(const std::string& in)
{
  Node n;
  std::stringstream ss(in);
  std::string l;
  while (std::getline(ss, l))
  {
    size_t c = std::string::npos;
    for (size_t i = 0; i < l.size(); ++i)
      if (l[i] == '#' && (i == 0 || l[i - 1] == ' ' || l[i - 1] == '\t'))
      {
        c = i;
        break;
      }
    if (c != std::string::npos)
      l = l.substr(0, c);
    const std::string t = detail::trim(l);
    if (t.empty() || t == "---")
      continue;
    if (t == "...")
      break;
    if (l[0] == '\t')
      throw ParserException("tab in indentation");
    size_t p = t.find(": ");
    if (p == std::string::npos && t.back() == ':')
      p = t.size() - 1;
    if (p == std::string::npos || p == 0)
    {
      if (t.size() >= 2 && t[0] == '-' && t[1] == ' ' && n.k == Node::MAP && !n.map.empty() && n.map.back().second.k != Node::SCALAR)
      {
        n.map.back().second.k = Node::SEQ;
        n.map.back().second.seq.push_back(detail::value(t.substr(2)));
        continue;
      }
      if (n.k == Node::NUL)
      {
        n = detail::value(t);
        continue;
      }
      throw ParserException("illegal map value");
    }
    if (n.k == Node::SCALAR || n.k == Node::SEQ)
      throw ParserException("end of map not found");
    n.k = Node::MAP;
    const Node key = detail::value(t.substr(0, p));
    n.map.emplace_back(key.s, detail::value(t.substr(p + 1)));
  }
  return n;
}
inline Node Load(const char* in) { return Load(std::string(in)); }
inline Node Load(std::istream& in)
{
  // like yaml-cpp's Stream: the first bytes by get(), which only marks the stream bad on an error, the rest in blocks
  // from the stream buffer, which throws
  std::string d;
  const int c = in.get();
  if (!in.good())
    return Load(d);
  d += static_cast<char>(c);
  char b[2048];
  for (std::streamsize n; (n = in.rdbuf()->sgetn(b, sizeof b)) > 0;)
    d.append(b, static_cast<size_t>(n));
  return Load(d);
}
inline Node LoadFile(const std::string& f)
{
  std::ifstream i(f.c_str());
  if (!i)
    throw BadFile("bad file: " + f);
  return Load(i);
}
}  // namespace YAML
#endif
