#ifndef SIM_PC2_ITERATOR_H
#define SIM_PC2_ITERATOR_H
#include <cstdarg>
#include <stdexcept>
#include <sensor_msgs/PointCloud2.h>
namespace sensor_msgs
{
class PointCloud2Modifier
{
public:
  explicit PointCloud2Modifier(PointCloud2& m) : m_(m) {}
  size_t size() const { return m_.point_step ? m_.data.size() / m_.point_step : 0; }
  void resize(size_t n)
  {
    m_.data.resize(n * m_.point_step);
    m_.width = n;
    m_.height = 1;
    m_.row_step = n * m_.point_step;
  }
  void reserve(size_t n) { m_.data.reserve(n * m_.point_step); }
  void clear() { m_.data.clear(); m_.width = 0; }
  void setPointCloud2FieldsByString(int, ...)
  {
    m_.fields.clear();
    const char* names[3] = {"x", "y", "z"};
    for (int k = 0; k < 3; ++k)
      add(names[k], 4 * k);
    m_.point_step = 16;
    resize(static_cast<size_t>(m_.width) * m_.height);
  }
  void setPointCloud2Fields(int n, ...)
  {
    va_list ap;
    va_start(ap, n);
    m_.fields.clear();
    uint32_t off = 0;
    for (int i = 0; i < n; ++i)
    {
      const std::string name = va_arg(ap, char*);
      const int count = va_arg(ap, int);
      const int dt = va_arg(ap, int);
      static const int sz[] = {0, 1, 1, 2, 2, 4, 4, 4, 8};
      PointField f;
      f.name = name;
      f.offset = off;
      f.datatype = dt;
      f.count = count;
      m_.fields.push_back(f);
      off += sz[dt] * count;
    }
    va_end(ap);
    m_.point_step = off;
    resize(static_cast<size_t>(m_.width) * m_.height);
  }

private:
  PointCloud2& m_;
  void add(const std::string& n, uint32_t off)
  {
    PointField f;
    f.name = n;
    f.offset = off;
    f.datatype = 7;
    f.count = 1;
    m_.fields.push_back(f);
  }
};
namespace impl
{
template <class T, class C, class M>
class IterBase
{
public:
  IterBase(C& m, const std::string& field) : step_(m.point_step)
  {
    const PointField* f = nullptr;
    for (auto& g : m.fields)
      if (g.name == field)
        f = &g;
    if (!f)
      throw std::runtime_error("Field " + field + " does not exist");
    p_ = m.data.data() + f->offset;
    end_ = m.data.data() + m.data.size() + f->offset;
  }
  IterBase() {}
  T& operator*() const { return *reinterpret_cast<T*>(p_); }
  T& operator[](size_t i) const { return reinterpret_cast<T*>(p_)[i]; }
  IterBase& operator++() { p_ += step_; return *this; }
  IterBase operator+(int n) const { IterBase r = *this; r.p_ += static_cast<int64_t>(n) * step_; return r; }
  IterBase& operator+=(int n) { p_ += static_cast<int64_t>(n) * step_; return *this; }
  bool operator!=(const IterBase& o) const { return p_ != o.p_; }
  bool operator==(const IterBase& o) const { return p_ == o.p_; }
  bool operator<(const IterBase& o) const { return p_ < o.p_; }
  IterBase end() const { IterBase r = *this; r.p_ = end_; return r; }

protected:
  int step_ = 0;
  M* p_ = nullptr;
  M* end_ = nullptr;
};
}
template <class T>
class PointCloud2Iterator : public impl::IterBase<T, PointCloud2, uint8_t>
{
public:
  PointCloud2Iterator(PointCloud2& m, const std::string& f) : impl::IterBase<T, PointCloud2, uint8_t>(m, f) {}
};
template <class T>
class PointCloud2ConstIterator : public impl::IterBase<const T, const PointCloud2, const uint8_t>
{
public:
  PointCloud2ConstIterator(const PointCloud2& m, const std::string& f) : impl::IterBase<const T, const PointCloud2, const uint8_t>(m, f) {}
};
}
#endif
