#ifndef SIM_TF2_LINEARMATH_H
#define SIM_TF2_LINEARMATH_H
// Double precision subset of tf2 LinearMath (same formulas as the library).
#include <cmath>
typedef double tf2Scalar;
namespace tf2
{
inline double acosC(double x) { return std::acos(x < -1 ? -1.0 : x > 1 ? 1.0 : x); }
class Vector3
{
public:
  double m_floats[4];
  Vector3() : m_floats{0, 0, 0, 0} {}
  Vector3(const double& x, const double& y, const double& z) : m_floats{x, y, z, 0} {}
  const double& x() const { return m_floats[0]; }
  const double& y() const { return m_floats[1]; }
  const double& z() const { return m_floats[2]; }
  const double& getX() const { return m_floats[0]; }
  const double& getY() const { return m_floats[1]; }
  const double& getZ() const { return m_floats[2]; }
  void setZero() { m_floats[0] = m_floats[1] = m_floats[2] = 0; }
  void setX(double v) { m_floats[0] = v; }
  void setY(double v) { m_floats[1] = v; }
  void setZ(double v) { m_floats[2] = v; }
  void setValue(double x, double y, double z) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; }
  double& operator[](int i) { return m_floats[i]; }
  const double& operator[](int i) const { return m_floats[i]; }
  Vector3& operator+=(const Vector3& v) { for (int i = 0; i < 3; ++i) m_floats[i] += v.m_floats[i]; return *this; }
  Vector3& operator-=(const Vector3& v) { for (int i = 0; i < 3; ++i) m_floats[i] -= v.m_floats[i]; return *this; }
  Vector3& operator*=(double s) { for (int i = 0; i < 3; ++i) m_floats[i] *= s; return *this; }
  Vector3& operator/=(double s) { return *this *= 1.0 / s; }
  double dot(const Vector3& v) const { return x() * v.x() + y() * v.y() + z() * v.z(); }
  Vector3 cross(const Vector3& v) const { return Vector3(y() * v.z() - z() * v.y(), z() * v.x() - x() * v.z(), x() * v.y() - y() * v.x()); }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  double distance(const Vector3& v) const { return Vector3(v.x() - x(), v.y() - y(), v.z() - z()).length(); }
  Vector3& normalize() { return *this /= length(); }
  Vector3 normalized() const { Vector3 r = *this; return r.normalize(); }
  Vector3 lerp(const Vector3& v, double t) const { return Vector3(x() + (v.x() - x()) * t, y() + (v.y() - y()) * t, z() + (v.z() - z()) * t); }
  double angle(const Vector3& v) const { return acosC(dot(v) / std::sqrt(length2() * v.length2())); }
  bool operator==(const Vector3& o) const { return x() == o.x() && y() == o.y() && z() == o.z(); }
  Vector3 operator-() const { return Vector3(-x(), -y(), -z()); }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b) { return Vector3(a.x() + b.x(), a.y() + b.y(), a.z() + b.z()); }
inline Vector3 operator-(const Vector3& a, const Vector3& b) { return Vector3(a.x() - b.x(), a.y() - b.y(), a.z() - b.z()); }
inline Vector3 operator*(const Vector3& a, double s) { return Vector3(a.x() * s, a.y() * s, a.z() * s); }
inline Vector3 operator*(double s, const Vector3& a) { return a * s; }
inline Vector3 operator/(const Vector3& a, double s) { return a * (1.0 / s); }

class Quaternion
{
public:
  double m_floats[4];
  Quaternion() : m_floats{0, 0, 0, 0} {}
  Quaternion(double x, double y, double z, double w) : m_floats{x, y, z, w} {}
  Quaternion(const Vector3& axis, double angle) { setRotation(axis, angle); }
  const double& x() const { return m_floats[0]; }
  const double& y() const { return m_floats[1]; }
  const double& z() const { return m_floats[2]; }
  const double& w() const { return m_floats[3]; }
  const double& getX() const { return m_floats[0]; }
  const double& getY() const { return m_floats[1]; }
  const double& getZ() const { return m_floats[2]; }
  const double& getW() const { return m_floats[3]; }
  void setValue(double x, double y, double z, double w) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = w; }
  void setX(double v) { m_floats[0] = v; }
  void setY(double v) { m_floats[1] = v; }
  void setZ(double v) { m_floats[2] = v; }
  void setW(double v) { m_floats[3] = v; }
  void setRotation(const Vector3& axis, double angle)
  {
    const double d = axis.length();
    const double s = std::sin(angle * 0.5) / d;
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  double dot(const Quaternion& q) const { return x() * q.x() + y() * q.y() + z() * q.z() + w() * q.w(); }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion& operator*=(double s) { for (double& f : m_floats) f *= s; return *this; }
  Quaternion& operator/=(double s) { return *this *= 1.0 / s; }
  Quaternion& operator*=(const Quaternion& q)
  {
    setValue(w() * q.x() + x() * q.w() + y() * q.z() - z() * q.y(), w() * q.y() + y() * q.w() + z() * q.x() - x() * q.z(),
             w() * q.z() + z() * q.w() + x() * q.y() - y() * q.x(), w() * q.w() - x() * q.x() - y() * q.y() - z() * q.z());
    return *this;
  }
  Quaternion& normalize() { return *this /= length(); }
  Quaternion normalized() const { Quaternion r = *this; return r.normalize(); }
  Quaternion operator*(double s) const { return Quaternion(x() * s, y() * s, z() * s, w() * s); }
  Quaternion operator/(double s) const { return *this * (1.0 / s); }
  Quaternion operator-() const { return Quaternion(-x(), -y(), -z(), -w()); }
  Quaternion operator+(const Quaternion& q) const { return Quaternion(x() + q.x(), y() + q.y(), z() + q.z(), w() + q.w()); }
  Quaternion operator-(const Quaternion& q) const { return Quaternion(x() - q.x(), y() - q.y(), z() - q.z(), w() - q.w()); }
  bool operator==(const Quaternion& q) const { return x() == q.x() && y() == q.y() && z() == q.z() && w() == q.w(); }
  double angle(const Quaternion& q) const { return acosC(dot(q) / std::sqrt(length2() * q.length2())); }
  double angleShortestPath(const Quaternion& q) const
  {
    const double s = std::sqrt(length2() * q.length2());
    if (dot(q) < 0)
      return acosC(dot(-q) / s) * 2.0;
    return acosC(dot(q) / s) * 2.0;
  }
  double getAngle() const { return 2.0 * std::acos(w() < -1 ? -1 : w() > 1 ? 1 : w()); }
  double getAngleShortestPath() const
  {
    double s;
    if (dot(Quaternion(0, 0, 0, 1)) < 0)
      s = -w();
    else
      s = w();
    return 2.0 * std::acos(s < -1 ? -1 : s > 1 ? 1 : s);
  }
  Vector3 getAxis() const
  {
    const double s2 = 1.0 - w() * w();
    if (s2 < 10.0 * 2.220446e-16)
      return Vector3(1, 0, 0);
    const double s = std::sqrt(s2);
    return Vector3(x() / s, y() / s, z() / s);
  }
  Quaternion inverse() const { return Quaternion(-x(), -y(), -z(), w()); }
  Quaternion nearest(const Quaternion& q) const
  {
    const Quaternion diff = *this - q, sum = *this + q;
    return diff.dot(diff) < sum.dot(sum) ? q : -q;
  }
  Quaternion slerp(const Quaternion& q, double t) const
  {
    const double theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0)
    {
      const double d = 1.0 / std::sin(theta);
      const double s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta);
      if (dot(q) < 0)
        return Quaternion((x() * s0 + -q.x() * s1) * d, (y() * s0 + -q.y() * s1) * d, (z() * s0 + -q.z() * s1) * d, (w() * s0 + -q.w() * s1) * d);
      return Quaternion((x() * s0 + q.x() * s1) * d, (y() * s0 + q.y() * s1) * d, (z() * s0 + q.z() * s1) * d, (w() * s0 + q.w() * s1) * d);
    }
    return *this;
  }
  static const Quaternion& getIdentity() { static const Quaternion q(0, 0, 0, 1); return q; }
};
inline Quaternion operator*(const Quaternion& a, const Quaternion& b) { Quaternion r = a; r *= b; return r; }
inline Quaternion operator*(const Quaternion& q, const Vector3& v)
{
  return Quaternion(q.w() * v.x() + q.y() * v.z() - q.z() * v.y(), q.w() * v.y() + q.z() * v.x() - q.x() * v.z(),
                    q.w() * v.z() + q.x() * v.y() - q.y() * v.x(), -q.x() * v.x() - q.y() * v.y() - q.z() * v.z());
}
inline Vector3 quatRotate(const Quaternion& r, const Vector3& v)
{
  Quaternion q = r * v;
  q *= r.inverse();
  return Vector3(q.x(), q.y(), q.z());
}

class Matrix3x3
{
  Vector3 m_el[3];

public:
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  Matrix3x3(double xx, double xy, double xz, double yx, double yy, double yz, double zx, double zy, double zz)
  {
    m_el[0].setValue(xx, xy, xz);
    m_el[1].setValue(yx, yy, yz);
    m_el[2].setValue(zx, zy, zz);
  }
  Vector3 getColumn(int i) const { return Vector3(m_el[0][i], m_el[1][i], m_el[2][i]); }
  const Vector3& getRow(int i) const { return m_el[i]; }
  Vector3& operator[](int i) { return m_el[i]; }
  const Vector3& operator[](int i) const { return m_el[i]; }
  void setRotation(const Quaternion& q)
  {
    const double d = q.length2();
    const double s = 2.0 / d;
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m_el[0].setValue(1.0 - (yy + zz), xy - wz, xz + wy);
    m_el[1].setValue(xy + wz, 1.0 - (xx + zz), yz - wx);
    m_el[2].setValue(xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void setRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); setRotation(q); }
  void setIdentity() { *this = Matrix3x3(1, 0, 0, 0, 1, 0, 0, 0, 1); }
  static const Matrix3x3& getIdentity() { static const Matrix3x3 m(1, 0, 0, 0, 1, 0, 0, 0, 1); return m; }
  void getRotation(Quaternion& q) const
  {
    const double trace = m_el[0].x() + m_el[1].y() + m_el[2].z();
    double t[4];
    if (trace > 0.0)
    {
      double s = std::sqrt(trace + 1.0);
      t[3] = s * 0.5;
      s = 0.5 / s;
      t[0] = (m_el[2].y() - m_el[1].z()) * s;
      t[1] = (m_el[0].z() - m_el[2].x()) * s;
      t[2] = (m_el[1].x() - m_el[0].y()) * s;
    }
    else
    {
      const int i = m_el[0].x() < m_el[1].y() ? (m_el[1].y() < m_el[2].z() ? 2 : 1) : (m_el[0].x() < m_el[2].z() ? 2 : 0);
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m_el[i][i] - m_el[j][j] - m_el[k][k] + 1.0);
      t[i] = s * 0.5;
      s = 0.5 / s;
      t[3] = (m_el[k][j] - m_el[j][k]) * s;
      t[j] = (m_el[j][i] + m_el[i][j]) * s;
      t[k] = (m_el[k][i] + m_el[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  void getEulerYPR(double& yaw, double& pitch, double& roll, unsigned int sol = 1) const
  {
    double y[2], p[2], r[2];
    if (std::fabs(m_el[2].x()) >= 1)
    {
      y[0] = y[1] = 0;
      const double delta = std::atan2(m_el[2].y(), m_el[2].z());
      if (m_el[2].x() < 0)
      {
        p[0] = p[1] = M_PI / 2.0;
        r[0] = r[1] = delta;
      }
      else
      {
        p[0] = p[1] = -M_PI / 2.0;
        r[0] = r[1] = delta;
      }
    }
    else
    {
      p[0] = -std::asin(m_el[2].x());
      p[1] = M_PI - p[0];
      for (int i = 0; i < 2; ++i)
      {
        const double c = std::cos(p[i]);
        r[i] = std::atan2(m_el[2].y() / c, m_el[2].z() / c);
        y[i] = std::atan2(m_el[1].x() / c, m_el[0].x() / c);
      }
    }
    const int k = sol == 1 ? 0 : 1;
    yaw = y[k];
    pitch = p[k];
    roll = r[k];
  }
  void getRPY(double& r, double& p, double& y, unsigned int sol = 1) const { getEulerYPR(y, p, r, sol); }
  Matrix3x3 transpose() const
  {
    return Matrix3x3(m_el[0].x(), m_el[1].x(), m_el[2].x(), m_el[0].y(), m_el[1].y(), m_el[2].y(), m_el[0].z(), m_el[1].z(), m_el[2].z());
  }
  Matrix3x3 inverse() const { return transpose(); }  // rotations only
  double tdotx(const Vector3& v) const { return m_el[0].x() * v.x() + m_el[1].x() * v.y() + m_el[2].x() * v.z(); }
  double tdoty(const Vector3& v) const { return m_el[0].y() * v.x() + m_el[1].y() * v.y() + m_el[2].y() * v.z(); }
  double tdotz(const Vector3& v) const { return m_el[0].z() * v.x() + m_el[1].z() * v.y() + m_el[2].z() * v.z(); }
};
inline Vector3 operator*(const Matrix3x3& m, const Vector3& v) { return Vector3(m[0].dot(v), m[1].dot(v), m[2].dot(v)); }
inline Matrix3x3 operator*(const Matrix3x3& a, const Matrix3x3& b)
{
  return Matrix3x3(b.tdotx(a[0]), b.tdoty(a[0]), b.tdotz(a[0]), b.tdotx(a[1]), b.tdoty(a[1]), b.tdotz(a[1]), b.tdotx(a[2]), b.tdoty(a[2]), b.tdotz(a[2]));
}
class Transform
{
  Matrix3x3 m_basis;
  Vector3 m_origin;

public:
  Transform() {}
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : m_basis(q), m_origin(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0)) : m_basis(b), m_origin(c) {}
  Vector3 operator()(const Vector3& x) const { return Vector3(m_basis[0].dot(x) + m_origin.x(), m_basis[1].dot(x) + m_origin.y(), m_basis[2].dot(x) + m_origin.z()); }
  Vector3 operator*(const Vector3& x) const { return (*this)(x); }
  Quaternion operator*(const Quaternion& q) const { return getRotation() * q; }
  Transform operator*(const Transform& t) const { return Transform(m_basis * t.m_basis, (*this)(t.m_origin)); }
  Transform& operator*=(const Transform& t) { m_origin += m_basis * t.m_origin; m_basis = m_basis * t.m_basis; return *this; }
  Matrix3x3& getBasis() { return m_basis; }
  const Matrix3x3& getBasis() const { return m_basis; }
  Vector3& getOrigin() { return m_origin; }
  const Vector3& getOrigin() const { return m_origin; }
  Quaternion getRotation() const { Quaternion q; m_basis.getRotation(q); return q; }
  void setOrigin(const Vector3& o) { m_origin = o; }
  void setBasis(const Matrix3x3& b) { m_basis = b; }
  void setRotation(const Quaternion& q) { m_basis.setRotation(q); }
  void setIdentity() { m_basis.setIdentity(); m_origin.setValue(0, 0, 0); }
  Transform inverseTimes(const Transform& t) const { return inverse() * t; }
  Transform inverse() const { const Matrix3x3 inv = m_basis.transpose(); return Transform(inv, inv * -m_origin); }
  static const Transform& getIdentity() { static const Transform t(Matrix3x3::getIdentity()); return t; }
};
}  // namespace tf2
#endif
