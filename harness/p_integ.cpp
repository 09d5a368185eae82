// Integration of velocities/accelerations and the finite differences that undo it.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using ref::M3; using ref::V3; using ref::V4;
SX_SCENARIO(linear)
{
  double dt = sx::var("dt");
  Vector3 p = sx::vec3("p"), v = sx::vec3("v"), a = sx::vec3("a");
  Vector3 x = p, y = v;
  kine::integrateKinematics(x, v, dt);
  sx::eqm(x, p + v * dt, "constant velocity");
  x = p;
  kine::integrateKinematics(x, y, a, dt);
  sx::eqm(x, p + v * dt + a * (dt * dt / 2), "constant acceleration: position");
  sx::eqm(y, v + a * dt, "constant acceleration: velocity");
}
static Vector3 increment(const std::string & n, double dt, Vector3 & w)
{
  w = sx::vec3(n);
  Vector3 d = w * dt;
  sx::assumeLt(1e-12, d.squaredNorm());
  return d;
}
SX_SCENARIO(rotation_matrix)
{
  double dt = sx::var("dt");
  Vector3 w, al = sx::vec3("al");
  Vector3 d = increment("w", dt, w);
  M3 R = ref::quatToMat(ref::unitQuat("q"));
  Matrix3 A = R;
  kine::integrateKinematics(A, w, dt);
  sx::eqm(A, ref::mul(ref::expMat(d), R), "R+ = exp(w dt) R");
  Vector3 d2 = d + al * (dt * dt / 2);
  sx::assumeLt(1e-12, d2.squaredNorm());
  A = R;
  Vector3 y = w;
  kine::integrateKinematics(A, y, al, dt);
  sx::eqm(A, ref::mul(ref::expMat(d2), R), "R+ = exp(w dt + al dt^2/2) R");
  sx::eqm(y, w + al * dt, "w+");
}
SX_SCENARIO(rotation_quaternion)
{
  double dt = sx::var("dt");
  Vector3 w, al = sx::vec3("al");
  Vector3 d = increment("w", dt, w);
  V4 c = ref::unitQuat("q");
  Quaternion q = ref::Q(c);
  kine::integrateKinematics(q, w, dt);
  sx::eqm(q.coeffs(), ref::quatMul(ref::expQuat(d), c), "q+ = exp(w dt) q");
  sx::eq(q.squaredNorm(), 1, "unit");
  Vector3 d2 = d + al * (dt * dt / 2);
  sx::assumeLt(1e-12, d2.squaredNorm());
  q = ref::Q(c);
  Vector3 y = w;
  kine::integrateKinematics(q, y, al, dt);
  sx::eqm(q.coeffs(), ref::quatMul(ref::expQuat(d2), c), "q+ = exp(w dt + al dt^2/2) q");
  sx::eqm(y, w + al * dt, "w+");
}
SX_SCENARIO(full_overloads)
{
  double dt = sx::var("dt");
  Vector3 p = sx::vec3("p"), v = sx::vec3("v"), a = sx::vec3("a"), w, al = sx::vec3("al");
  Vector3 d = increment("w", dt, w);
  Vector3 d2 = d + al * (dt * dt / 2);
  sx::assumeLt(1e-12, d2.squaredNorm());
  V4 c = ref::unitQuat("q");
  M3 R = ref::quatToMat(c);
  bool mat = sx_choice("matrix", 2), acc = sx_choice("acceleration", 2);
  Vector3 x = p, y = v, z = w;
  Matrix3 A = R;
  Quaternion q = ref::Q(c);
  if(acc)
  {
    if(mat) kine::integrateKinematics(x, y, a, A, z, al, dt);
    else kine::integrateKinematics(x, y, a, q, z, al, dt);
    sx::eqm(x, p + v * dt + a * (dt * dt / 2), "position");
    sx::eqm(y, v + a * dt, "velocity");
    sx::eqm(z, w + al * dt, "angular velocity");
  }
  else
  {
    if(mat) kine::integrateKinematics(x, v, A, w, dt);
    else kine::integrateKinematics(x, v, q, w, dt);
    sx::eqm(x, p + v * dt, "position");
  }
  Vector3 e = acc ? d2 : d;
  if(mat) sx::eqm(A, ref::mul(ref::expMat(e), R), "orientation matrix");
  else sx::eqm(q.coeffs(), ref::quatMul(ref::expQuat(e), c), "orientation quaternion");
}
SX_SCENARIO(fd_quaternion)
{
  double dt = sx::var("dt", 0.001, 1);
  Vector3 d = ref::rotVec("d", 1e-12, 9.8);
  V4 c = ref::unitQuat("q");
  Quaternion q1 = ref::Q(c), q2 = ref::Q(ref::quatMul(ref::expQuat(d), c));
  sx::eqm(kine::derivateRotationFD(q1, q2, dt) * dt, d, "angular velocity from two quaternions");
}
SX_SCENARIO(fd_then_integrate)
{
  // the finite-difference velocity carries the first orientation onto the second one, for any two orientations
  double dt = sx::var("dt", 0.001, 1);
  V4 c1 = ref::unitQuat("q"), rel = ref::unitQuat("r");
  V4 c2 = ref::quatMul(rel, c1);
  sx::assumeLt(1e-6, rel.head<3>().squaredNorm());
  Vector3 w = kine::derivateRotationFD(ref::Q(c1), ref::Q(c2), dt);
  Matrix3 D = kine::rotationVectorToRotationMatrix(w * dt);
  sx::eqm(D, ref::quatToMat(rel), "exp(w dt) = R2 R1^T");
}
// The rate between two rotation vectors is the rate between the two quaternions they stand for (the latter is decided
// by fd_quaternion and fd_then_integrate).
static void carries(const Vector3 & w, double dt, const Vector3 & o1, const Vector3 & o2, const std::string & l)
{
  Vector3 r = kine::derivateRotationFD(ref::Q(ref::expQuat(o1)), ref::Q(ref::expQuat(o2)), dt);
  sx::eqm(w, r, l);
}
static void twoRotVec(Vector3 & o1, Vector3 & o2)
{
#ifdef SX_THOROUGH
  o1 = ref::rotVec("o", 1e-6, 1000), o2 = ref::rotVec("r", 1e-6, 1000);
#else
  // about two different coordinate axes: their composition is a general rotation
  int i = sx_choice("axis", 3), j = (i + 1 + sx_choice("other", 2)) % 3;
  o1 = o2 = Vector3::Zero();
  o1(i) = sx::var("o", 0.1, 3);
  o2(j) = sx::var("r", 0.1, 3);
#endif
}
SX_SCENARIO(fd_rotation_vectors)
{
  double dt = sx::var("dt", 0.001, 1);
  Vector3 o1, o2;
  twoRotVec(o1, o2);
  carries(kine::derivateRotationFD(o1, o2, dt), dt, o1, o2, "rotation vectors");
}
SX_SCENARIO(fd_pose)
{
  double dt = sx::var("dt", 0.001, 1);
  Vector3 o1, o2;
  twoRotVec(o1, o2);
  Vector3 p = sx::vec3("p"), v = sx::vec3("v");
  Vector6 x, y;
  x << p, o1;
  y << p + v * dt, o2;
  Vector6 d = kine::derivatePoseThetaUFD(x, y, dt);
  sx::eqm(d.head<3>(), v, "linear");
  carries(d.tail<3>(), dt, o1, o2, "angular");
}
// trajectory reconstruction: N samples, any first index
SX_SCENARIO(reconstruct)
{
  double dt = sx::var("dt", 0.001, 1);
  const int N = 3;
  long k0 = sx_choice("k0", 3);
  Vector3 p[4], o[4];
  IndexedVectorArray po;
  for(int i = 0; i < N; ++i)
  {
    std::string n = std::to_string(i);
    // a rotation vector along the i-th axis, so that consecutive orientations differ by a general rotation
    o[i] = Vector3::Zero();
    o[i](i) = sx::var("o" + n, 0.1, 3);
    p[i] = sx::vec3("p" + n + "_");
    Vector x(6);
    x << p[i], o[i];
    po.setValue(x, k0 + i);
  }
  IndexedVectorArray a = kine::reconstructStateTrajectory(po, dt);
  sx::eqi(a.getFirstIndex(), k0, "first index");
  sx::eqi(a.size(), N, "size");
  for(int i = 0; i < N; ++i)
  {
    Vector s = a[k0 + i];
    sx::eqi(s.size(), 18, "state size");
    sx::eqm(s.segment<3>(0), p[i], "position");
    sx::eqm(s.segment<3>(3), o[i], "orientation");
    if(i + 1 < N)
    {
      sx::eqm(s.segment<3>(6) * dt, p[i + 1] - p[i], "linear velocity");
      carries(s.segment<3>(9), dt, o[i], o[i + 1], "angular velocity");
    }
    else sx::eqm(s.segment<6>(6), Vector::Zero(6), "no velocity for the last sample");
    if(i + 2 < N)
    {
      sx::eqm(s.segment<3>(12) * dt * dt, p[i + 2] - 2 * p[i + 1] + p[i], "linear acceleration");
      Vector t = a[k0 + i + 1];
      sx::eqm(s.segment<3>(15) * dt, t.segment<3>(9) - s.segment<3>(9), "angular acceleration");
    }
    else sx::eqm(s.segment<6>(12), Vector::Zero(6), "no acceleration for the last two samples");
  }
}
// multiplicative Jacobians
SX_SCENARIO(jacobian_delta)
{
  Vector3 v = ref::rotVec("v", 1e-6, 1000), u = sx::vec3("u");
  Matrix3 JR, Jd;
  kine::derivateRotationMultiplicative(v, JR, Jd);
  sx::eqm(JR, ref::expMat(v), "dR/dR = exp(delta)");
  // directional derivative of exp at v along u, from R = cos n I + sin n / n S(v) + (1-cos n)/n^2 v v^T
  double n = std::sqrt(v.squaredNorm()), c = std::cos(n), s = std::sin(n), dn = v.dot(u) / n;
  M3 dR = M3::Identity() * (-s * dn) + ref::skew(v) * ((c * n - s) * dn / (n * n)) + ref::skew(u) * (s / n)
          + (v * v.transpose()) * ((s * n - 2 * (1 - c)) * dn / (n * n * n))
          + (u * v.transpose() + v * u.transpose()) * ((1 - c) / (n * n));
  M3 W = ref::mul(dR, ref::tr(ref::expMat(v)));
  sx::eqm(W, ref::skew(ref::mulv(Jd, u)), "d exp(delta) exp(-delta) = S(J u)");
}
SX_SCENARIO(jacobian_delta_small)
{
  Vector3 v = sx::vec3("v", -1e-17, 1e-17);
  Matrix3 JR, Jd;
  kine::derivateRotationMultiplicative(v, JR, Jd);
  for(int i = 0; i < 3; ++i)
    for(int j = 0; j < 3; ++j)
    {
      sx::near(JR(i, j), i == j, 1e-6, "dR/dR near identity");
      sx::near(Jd(i, j), i == j, 1e-6, "dR/ddelta near identity");
    }
}
SX_SCENARIO(jacobian_rtv)
{
  V4 c = ref::unitQuat("q");
  M3 R = ref::quatToMat(c);
  Vector3 v = sx::vec3("v"), e = sx::vec3("e");
  Matrix3 J = kine::derivateRtvMultiplicative(R, v);
  // R -> (1 + S(e)) R to first order
  sx::eqm(J * e, ref::mulv(ref::mul(ref::tr(R), ref::tr(ref::skew(e))), v), "d(R^T v) for a world-frame rotation of the frame");
}
