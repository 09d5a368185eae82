// Homogeneous matrices, 6d pose vectors, inversion of poses and of kinematic states, fixed-point constraint.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using ref::M3; using ref::V3;
static Matrix4 homo(const M3 & R, const V3 & t)
{
  Matrix4 m = Matrix4::Identity();
  for(int i = 0; i < 3; ++i)
  {
    for(int j = 0; j < 3; ++j) m(i, j) = R(i, j);
    m(i, 3) = t(i);
  }
  return m;
}
SX_SCENARIO(vector6_to_homogeneous)
{
  Vector6 v;
  Vector3 o = ref::rotVec("o", 1e-12, 1000), p = sx::vec3("p");
  v << p, o;
  Matrix4 M = kine::vector6ToHomogeneousMatrix(v);
  sx::eqm(M, homo(ref::expMat(o), p), "homogeneous matrix of (p,theta u)");
}
SX_SCENARIO(vector6_roundtrip)
{
  sx_abs_fork(1);
  Vector6 v;
  Vector3 o = ref::rotVec("o", 1e-6, 9.8), p = sx::vec3("p");
  v << p, o;
  Matrix4 M = homo(ref::expMat(o), p);
  Vector6 w = kine::homogeneousMatrixToVector6(M);
  sx::eqm(w.head<3>(), p, "position");
  sx::eqm(w.tail<3>(), o, "rotation vector");
}
SX_SCENARIO(homogeneous_inverse)
{
  M3 R = ref::quatToMat(ref::unitQuat("q"));
  Vector3 p = sx::vec3("p");
  Matrix4 M = homo(R, p);
  Matrix4 N = kine::invertHomoMatrix(M);
  sx::eqm(M * N, Matrix4::Identity(), "M*inv(M)=1");
  sx::eqm(N * M, Matrix4::Identity(), "inv(M)*M=1");
  sx::eqm(kine::invertHomoMatrix(N), M, "inverse of the inverse");
}
// invertState: the inverted state is the kinematics of the inverse motion. Checked against the time derivatives of
// x2 = -R^T t, R2 = R^T, written out by hand.
SX_SCENARIO(invert_state)
{
  Vector3 t = sx::vec3("t"), o = ref::rotVec("o", 1e-12, 1000), v = sx::vec3("v"), w = sx::vec3("w"), a = sx::vec3("a"),
          al = sx::vec3("al");
  Vector s(18);
  s << t, o, v, w, a, al;
  Vector r = kine::invertState(s);
  M3 Rt = ref::tr(ref::expMat(o));
  using ref::cross; using ref::mulv;
  sx::eqm(r.segment<3>(0), -mulv(Rt, t), "position");
  sx::eqm(r.segment<3>(3), -o, "orientation");
  // d/dt(R^T x) = R^T (x' - w x x)
  V3 d1 = v - cross(w, t);
  sx::eqm(r.segment<3>(6), -mulv(Rt, d1), "linear velocity");
  V3 d2 = a - cross(al, t) - cross(w, v) - cross(w, d1);
  sx::eqm(r.segment<3>(12), -mulv(Rt, d2), "linear acceleration");
  sx::eqm(r.segment<3>(9), -mulv(Rt, w), "angular velocity");
  sx::eqm(r.segment<3>(15), -mulv(Rt, al), "angular acceleration"); // R^T(al - w x w)
  Vector rr = kine::invertState(r);
  sx::eqm(rr, s, "inverting twice");
}
SX_SCENARIO(fixed_point)
{
  M3 R = ref::quatToMat(ref::unitQuat("q"));
  Vector3 w = sx::vec3("w"), al = sx::vec3("al"), f = sx::vec3("f"), t, v, a;
  kine::fixedPointRotationToTranslation(R, w, al, f, t, v, a);
  // the point of the body that is at f when unrotated stays at f : R f + t = f, with its two time derivatives zero
  V3 Rf = ref::mulv(R, f);
  sx::eqm(Rf + t, f, "fixed point position");
  sx::eqm(ref::cross(w, Rf) + v, V3::Zero(), "fixed point velocity");
  sx::eqm(ref::cross(al, Rf) + ref::cross(w, ref::cross(w, Rf)) + a, V3::Zero(), "fixed point acceleration");
}
SX_SCENARIO(homogeneous_fd)
{
  sx_abs_fork(1);
  // second pose = first pose moved during dt at constant velocities: finite differences give the velocities back
  double dt = sx::var("dt", 0.001, 1);
  M3 R = ref::quatToMat(ref::unitQuat("q"));
  Vector3 p = sx::vec3("p"), v = sx::vec3("v"), wdt = ref::rotVec("wdt", 1e-6, 9.8);
  Matrix4 m1 = homo(R, p), m2 = homo(ref::mul(ref::expMat(wdt), R), p + v * dt);
  Vector6 d = kine::derivateHomogeneousMatrixFD(m1, m2, dt);
  sx::eqm(d.head<3>(), v, "linear velocity");
  sx::eqm(d.tail<3>() * dt, wdt, "angular velocity");
}
SX_SCENARIO(homogeneous_fd_planar)
{
  // same with the rotation expressed at the identity, for every rotation vector
  sx_abs_fork(1);
  double dt = sx::var("dt", 0.001, 1);
  Vector3 p = sx::vec3("p"), v = sx::vec3("v"), wdt = ref::rotVec("wdt", 1e-6, 9.8);
  Matrix4 m1 = homo(M3::Identity(), p), m2 = homo(ref::expMat(wdt), p + v * dt);
  Vector6 d = kine::derivateHomogeneousMatrixFD(m1, m2, dt), e = kine::derivateHomogeneousMatrixFD(m2, m1, dt);
  sx::eqm(d.head<3>(), v, "linear velocity");
  sx::eqm(d.tail<3>() * dt, wdt, "angular velocity");
  sx::eqm(e.tail<3>() * dt, -wdt, "angular velocity reversed");
}
