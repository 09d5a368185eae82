// Dynamical systems of an IMU on a free rigid body: rotation-vector state (with or without magnetometer), multiplicative state.
#include "common.hpp"
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#undef IMU_DYNAMICAL_SYSTEM_HPP // both headers use the same guard
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/noise/noise-base.hpp>
using namespace stateObservation;
using namespace ref;
struct Noise : NoiseBase
{
  double a;
  Noise(double a) : a(a) {}
  virtual Vector getNoisy(const Vector & v)
  {
    Vector r = v;
    for(int i = 0; i < r.size(); ++i) r(i) += a * (i + 1);
    return r;
  }
};
static V3 G() { return V3(0, 0, 9.8); }
static V3 nonzero(const std::string & n)
{
  V3 v = sx::vec3(n);
  sx::assumeLt(1e-4, v.squaredNorm());
  return v;
}
struct State
{
  V3 p, o, v, w, a, al; // o : rotation vector
  V4 q; // quaternion
  static State rv(const std::string & n, bool zeroOri = false)
  {
    State s;
    if(zeroOri)
    {
      s.o.setZero();
      s.q << 0, 0, 0, 1;
    }
    else
    {
      s.o = nonzero(n + "o");
      s.q = expQuat(s.o);
    }
    s.rest(n);
    return s;
  }
  static State quat(const std::string & n)
  {
    State s;
    s.q = unitQuat(n + "q");
    s.o.setZero();
    s.rest(n);
    return s;
  }
  void rest(const std::string & n)
  {
    p = sx::vec3(n + "p");
    v = sx::vec3(n + "v");
    w = sx::vec3(n + "w");
    a = sx::vec3(n + "a");
    al = sx::vec3(n + "al");
  }
  Vector vecRv() const
  {
    Vector x(18);
    x << p, o, v, w, a, al;
    return x;
  }
  Vector vecQ() const
  {
    Vector x(19);
    x << p, q, v, w, a, al;
    return x;
  }
  Vector meas(bool magneto) const
  {
    M3 Rt = tr(quatToMat(q));
    Vector y(magneto ? 9 : 6);
    y.segment(0, 3) = mulv(Rt, V3(a + G()));
    y.segment(3, 3) = mulv(Rt, w);
    if(magneto) y.segment(6, 3) = mulv(Rt, V3(0, 28, -33.7));
    return y;
  }
};
// displacement over one sampling period
static V3 delta(const State & s, double dt)
{
  V3 d = s.w * dt + s.al * (dt * dt / 2);
  sx::assumeLt(1e-8, d.squaredNorm());
  return d;
}
// rotation vector of a quaternion away from a null or half-turn rotation, in one of its two signs
static V3 logQuat(const V4 & q, bool negative)
{
  double n2 = q(0) * q(0) + q(1) * q(1) + q(2) * q(2), w = q(3);
  sx::assumeLt(1e-8, n2);
  double n = std::sqrt(n2);
  double k;
  if(negative)
  {
    sx::assumeLt(w, -1e-4);
    k = -2 * std::atan2(n, -w) / n;
  }
  else
  {
    sx::assumeLt(1e-4, w);
    k = 2 * std::atan2(n, w) / n;
  }
  return V3(q(0) * k, q(1) * k, q(2) * k);
}
static Vector nextRv(const State & s, double dt, const V3 & ua, const V3 & ual)
{
  bool negative = sx_choice("next quaternion", 2);
  V3 d = delta(s, dt);
  V4 q = quatMul(expQuat(d), s.q);
  sx_define_unit_("next", q.data(), 4);
  V3 o = logQuat(q, negative);
  Vector e(18);
  e << V3(s.p + s.v * dt + s.a * (dt * dt / 2)), o, V3(s.v + s.a * dt), V3(s.w + s.al * dt), ua, ual;
  return e;
}
static Vector noisy(Vector e, double noise)
{
  for(int i = 0; i < e.size(); ++i) e(i) += noise * (i + 1);
  return e;
}
template<class Sys>
static void rvSystem(bool magneto)
{
  sx_abs_fork(1);
  Sys f;
  int m = magneto ? 9 : 6;
  sx::eqi(f.getStateSize(), 18, "state size");
  sx::eqi(f.getMeasurementSize(), m, "measurement size");
  sx::eqi(f.getInputSize(), magneto ? 0 : 6, "input size");
  Vector u = sx::vec("u", f.getInputSize());
  V3 ua, ual; // the system with magnetometer has constant velocities
  ua.setZero();
  ual.setZero();
  if(!magneto)
  {
    ua = u.head(3);
    ual = u.tail(3);
  }
  Noise pn(sx::var("pn")), mn(sx::var("mn"));
  double dt = 1;
  int what = sx_choice("what", 5);
  State s = State::rv("s"), t = State::rv("t", what == 3);
  // the first components of the orientations are different
  sx::assumeLt(0.01, s.o(0));
  if(what != 3)
  {
    sx::assumeLt(s.o(0) + 0.01, t.o(0));
    sx::assumeLt(s.o(0), t.o(0));
  }
  Vector y = s.meas(magneto);
  if(what == 0)
  {
    // dynamics then measurement, at first or after another state
    switch(sx_choice("sampling period", 3))
    {
      case 0: break;
      case 1: f.setSamplingPeriod(dt = 0.25); break;
      default:
        f.setSamplingPeriod(dt = sx::var("dt"));
        sx::assumeLt(0.001, dt);
    }
    Vector n = nextRv(s, dt, ua, ual);
    if(sx_choice("another state before", 2)) f.measureDynamics(t.vecRv(), u, 1);
    sx::yes(f.getProcessNoise() == 0x0 && f.getMeasurementNoise() == 0x0, "no noise");
    sx::eqm(f.stateDynamics(s.vecRv(), u, 3), n, "next state");
    sx::eqm(f.measureDynamics(s.vecRv(), u, 3), y, "measurement");
    return;
  }
  if(what == 1)
  {
    Vector n = nextRv(s, dt, ua, ual);
    f.setProcessNoise(&pn);
    f.setMeasurementNoise(&mn);
    sx::yes(f.getProcessNoise() == &pn && f.getMeasurementNoise() == &mn, "noises");
    sx::eqm(f.measureDynamics(s.vecRv(), u, 3), noisy(y, mn.a), "noisy measurement");
    sx::eqm(f.stateDynamics(s.vecRv(), u, 3), noisy(n, pn.a), "noisy next state");
    f.resetProcessNoise();
    f.resetMeasurementNoise();
    sx::yes(f.getProcessNoise() == 0x0 && f.getMeasurementNoise() == 0x0, "no noise any more");
    sx::eqm(f.measureDynamics(s.vecRv(), u, 3), y, "measurement without noise");
    sx::eqm(f.stateDynamics(s.vecRv(), u, 3), n, "next state without noise");
    return;
  }
  if(what == 2)
  {
    // same orientation, everything else different; then another orientation
    State r = t;
    r.o = s.o;
    r.q = s.q;
    sx::eqm(f.measureDynamics(s.vecRv(), u, 0), y, "first measurement");
    sx::eqm(f.measureDynamics(r.vecRv(), u, 0), r.meas(magneto), "measurement with the same orientation");
    sx::eqm(f.measureDynamics(t.vecRv(), u, 0), t.meas(magneto), "measurement of another state");
    return;
  }
  if(what == 3)
  {
    // null orientation, at first or later
    if(sx_choice("later", 2)) f.measureDynamics(s.vecRv(), u, 0);
    sx::eqm(f.measureDynamics(t.vecRv(), u, 0), t.meas(magneto), "measurement at the null orientation");
    return;
  }
  // orientations which differ by one component only
  int i = sx_choice("component", 3);
  State r = t;
  r.o = s.o;
  if(i == 0) r.o(0) = t.o(0);
  else
  {
    r.o(i) = s.o(i) + sx::var("change");
    sx::assumeLt(0.01, r.o(i) - s.o(i));
    sx::assumeLt(s.o(i), r.o(i));
  }
  sx::assumeLt(1e-4, r.o.squaredNorm());
  r.q = expQuat(r.o);
  sx::eqm(f.measureDynamics(s.vecRv(), u, 0), y, "measurement before the change");
  sx::eqm(f.measureDynamics(r.vecRv(), u, 0), r.meas(magneto), "measurement after the change of one component");
}
SX_SCENARIO(imu) { rvSystem<IMUDynamicalSystem>(false); }
SX_SCENARIO(imu_magnetometer) { rvSystem<IMUMagnetometerDynamicalSystem>(true); }
static void checkNextQ(const Vector & x, const State & s, double dt, const V3 & ua, const V3 & ual, double noise, const std::string & l)
{
  V3 d = delta(s, dt);
  Vector e(19);
  e << V3(s.p + s.v * dt + s.a * (dt * dt / 2)), quatMul(expQuat(d), s.q), V3(s.v + s.a * dt), V3(s.w + s.al * dt), ua, ual;
  for(int i = 0; i < 19; ++i) e(i) += noise * (i + 1);
  sx::eqm(x, e, l);
}
SX_SCENARIO(multiplicative)
{
  IMUMltpctiveDynamicalSystem f;
  sx::eqi(f.getStateSize(), 19, "state size");
  sx::eqi(f.getMeasurementSize(), 6, "measurement size");
  sx::eqi(f.getInputSize(), 6, "input size");
  double dt = 1;
  if(sx_choice("sampling period set", 2)) f.setSamplingPeriod(dt = sx::var("dt"));
  State s = State::quat("s");
  Vector u = sx::vec("u", 6);
  Noise pn(sx::var("pn")), mn(sx::var("mn"));
  double nz = 0;
  Vector y = s.meas(false);
  if(sx_choice("noises", 2))
  {
    f.setProcessNoise(&pn);
    f.setMeasurementNoise(&mn);
    sx::yes(f.getProcessNoise() == &pn && f.getMeasurementNoise() == &mn, "noises");
    nz = pn.a;
    for(int i = 0; i < 6; ++i) y(i) += mn.a * (i + 1);
  }
  sx::eqm(f.measureDynamics(s.vecQ(), u, 0), y, "measurement");
  checkNextQ(f.stateDynamics(s.vecQ(), u, 0), s, dt, V3(u.head(3)), V3(u.tail(3)), nz, "next state");
  f.resetProcessNoise();
  f.resetMeasurementNoise();
  sx::eqm(f.measureDynamics(s.vecQ(), u, 0), s.meas(false), "measurement after the noise");
  checkNextQ(f.stateDynamics(s.vecQ(), u, 0), s, dt, V3(u.head(3)), V3(u.tail(3)), 0, "next state after the noise");
}
SX_SCENARIO(multiplicative_A)
{
  IMUMltpctiveDynamicalSystem f;
  double dt = 1;
  if(sx_choice("sampling period set", 2)) f.setSamplingPeriod(dt = sx::var("dt"));
  if(sx_choice("another state first", 2)) f.getAMatrix(State::quat("t").vecQ());
  State s = State::quat("s");
  V3 d = delta(s, dt);
  sx::assumeLt(d.squaredNorm(), 9.8);
  // this function is checked against the derivative of the exponential in p_integ.cpp
  Matrix3 J, E;
  kine::derivateRotationMultiplicative(d, E, J);
  M3 I = M3::Identity();
  Matrix A = Matrix::Zero(18, 18);
  // pos, ori, linVel, angVel, linAcc, angAcc
  A.block(0, 0, 3, 3) = I;
  A.block(0, 6, 3, 3) = I * dt;
  A.block(0, 12, 3, 3) = I * (dt * dt / 2);
  A.block(3, 3, 3, 3) = E;
  A.block(3, 9, 3, 3) = J * dt;
  A.block(3, 15, 3, 3) = J * (dt * dt / 2);
  A.block(6, 6, 3, 3) = I;
  A.block(6, 12, 3, 3) = I * dt;
  A.block(9, 9, 3, 3) = I;
  A.block(9, 15, 3, 3) = I * dt;
  sx::eqm(f.getAMatrix(s.vecQ()), A, "A is the Jacobian of the state dynamics");
}
SX_SCENARIO(multiplicative_C)
{
  IMUMltpctiveDynamicalSystem f;
  if(sx_choice("another state first", 2)) f.getCMatrix(State::quat("t").vecQ());
  State s = State::quat("s");
  M3 Rt = tr(quatToMat(s.q));
  Matrix C = Matrix::Zero(6, 18);
  C.block(0, 3, 3, 3) = mul(Rt, skew(V3(s.a + G())));
  C.block(0, 12, 3, 3) = Rt;
  C.block(3, 3, 3, 3) = mul(Rt, skew(s.w));
  C.block(3, 9, 3, 3) = Rt;
  sx::eqm(f.getCMatrix(s.vecQ()), C, "C is the Jacobian of the measurement");
}
SX_SCENARIO(multiplicative_arithmetics)
{
  IMUMltpctiveDynamicalSystem f;
  State s = State::quat("s"), t = State::quat("t");
  V3 d = rotVec("d", 1e-6, 9.8);
  Vector e(18), r, x = s.vecQ();
  e << V3(t.p), d, t.v, t.w, t.a, t.al;
  if(sx_choice("reused output", 2)) r = sx::vec("r", 5);
  f.stateSum(x, e, r);
  Vector want(19);
  want << V3(s.p + t.p), quatMul(expQuat(d), s.q), V3(s.v + t.v), V3(s.w + t.w), V3(s.a + t.a), V3(s.al + t.al);
  sx::eqm(r, want, "sum");
  Vector back;
  f.stateDifference(r, x, back);
  sx::eqm(back, e, "the difference undoes the sum");
}
SX_SCENARIO(multiplicative_difference)
{
  IMUMltpctiveDynamicalSystem f;
  State s = State::quat("s"), t = State::quat("t");
  // s = exp(o) t , in one of its two quaternions
  V3 o = rotVec("o", 1e-6, 9.8);
  s.q = quatMul(expQuat(o), t.q);
  if(sx_choice("opposite quaternion", 2)) s.q = -s.q;
  Vector r;
  f.stateDifference(s.vecQ(), t.vecQ(), r);
  Vector want(18);
  want << V3(s.p - t.p), o, V3(s.v - t.v), V3(s.w - t.w), V3(s.a - t.a), V3(s.al - t.al);
  sx::eqm(r, want, "difference");
}
