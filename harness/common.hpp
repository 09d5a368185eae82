// Reference mathematics shared by the harnesses, written independently of /repo.
#pragma once
#include "sx.h"
#include <Eigen/Geometry>
#include <cmath>
namespace ref
{
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector4d V4; // x y z w
inline M3 skew(const V3 & v)
{
  M3 m;
  m(0, 0) = 0; m(0, 1) = -v(2); m(0, 2) = v(1);
  m(1, 0) = v(2); m(1, 1) = 0; m(1, 2) = -v(0);
  m(2, 0) = -v(1); m(2, 1) = v(0); m(2, 2) = 0;
  return m;
}
inline V3 cross(const V3 & a, const V3 & b)
{
  V3 r;
  r(0) = a(1) * b(2) - a(2) * b(1);
  r(1) = a(2) * b(0) - a(0) * b(2);
  r(2) = a(0) * b(1) - a(1) * b(0);
  return r;
}
// unit quaternion input (x,y,z,w), w dependent
inline V4 unitQuat(const std::string & n)
{
  V4 q;
  q(0) = sx::var(n + "x", -1, 1);
  q(1) = sx::var(n + "y", -1, 1);
  q(2) = sx::var(n + "z", -1, 1);
  q(3) = sx_unit_dep_((n + "w").c_str(), q.data(), 3);
  return q;
}
inline V3 unitVec(const std::string & n)
{
  V3 q;
  q(0) = sx::var(n + "x", -1, 1);
  q(1) = sx::var(n + "y", -1, 1);
  q(2) = sx_unit_dep_((n + "z").c_str(), q.data(), 2);
  return q;
}
inline M3 quatToMat(const V4 & q)
{
  double x = q(0), y = q(1), z = q(2), w = q(3);
  M3 m;
  m(0, 0) = w * w + x * x - y * y - z * z;
  m(0, 1) = 2 * (x * y - w * z);
  m(0, 2) = 2 * (x * z + w * y);
  m(1, 0) = 2 * (x * y + w * z);
  m(1, 1) = w * w - x * x + y * y - z * z;
  m(1, 2) = 2 * (y * z - w * x);
  m(2, 0) = 2 * (x * z - w * y);
  m(2, 1) = 2 * (y * z + w * x);
  m(2, 2) = w * w - x * x - y * y + z * z;
  return m;
}
// Hamilton product a*b
inline V4 quatMul(const V4 & a, const V4 & b)
{
  V4 r;
  r(3) = a(3) * b(3) - a(0) * b(0) - a(1) * b(1) - a(2) * b(2);
  r(0) = a(3) * b(0) + a(0) * b(3) + a(1) * b(2) - a(2) * b(1);
  r(1) = a(3) * b(1) - a(0) * b(2) + a(1) * b(3) + a(2) * b(0);
  r(2) = a(3) * b(2) + a(0) * b(1) - a(1) * b(0) + a(2) * b(3);
  return r;
}
inline V4 quatConj(const V4 & a)
{
  V4 r;
  r(0) = -a(0); r(1) = -a(1); r(2) = -a(2); r(3) = a(3);
  return r;
}
// exponential of the rotation vector as a quaternion (x y z w), generic branch |v| > 0
inline V4 expQuat(const V3 & v)
{
  double n = std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2));
  double s = std::sin(n / 2) / n;
  V4 q;
  q(0) = v(0) * s; q(1) = v(1) * s; q(2) = v(2) * s;
  q(3) = std::cos(n / 2);
  return q;
}
inline Eigen::Quaterniond Q(const V4 & c) { return Eigen::Quaterniond(c(3), c(0), c(1), c(2)); }
inline V4 C(const Eigen::Quaterniond & q) { return V4(q.x(), q.y(), q.z(), q.w()); }
inline M3 rotX(double c, double s) { M3 m; m << 1, 0, 0, 0, c, -s, 0, s, c; return m; }
inline M3 rotY(double c, double s) { M3 m; m << c, 0, s, 0, 1, 0, -s, 0, c; return m; }
inline M3 rotZ(double c, double s) { M3 m; m << c, -s, 0, s, c, 0, 0, 0, 1; return m; }
// rotation vector with lo2 < |v|^2 < hi2
inline V3 rotVec(const std::string & n, double lo2, double hi2)
{
  V3 v = sx::vec3(n);
  sx::assumeLt(lo2, v.squaredNorm());
  sx::assumeLt(v.squaredNorm(), hi2);
  return v;
}
inline M3 expMat(const V3 & v) { return quatToMat(expQuat(v)); }
// product written out so that it does not go through Eigen's evaluators of the code under test
inline M3 mul(const M3 & a, const M3 & b)
{
  M3 r;
  for(int i = 0; i < 3; ++i)
    for(int j = 0; j < 3; ++j) r(i, j) = a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j);
  return r;
}
inline V3 mulv(const M3 & a, const V3 & b)
{
  V3 r;
  for(int i = 0; i < 3; ++i) r(i) = a(i, 0) * b(0) + a(i, 1) * b(1) + a(i, 2) * b(2);
  return r;
}
inline M3 tr(const M3 & a)
{
  M3 r;
  for(int i = 0; i < 3; ++i)
    for(int j = 0; j < 3; ++j) r(i, j) = a(j, i);
  return r;
}
} // namespace ref
