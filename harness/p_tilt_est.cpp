// Tilt estimator: one step of the complementary filter, exactness on the true motion, histories.
#include "common.hpp"
#include <state-observation/observer/tilt-estimator.hpp>
using namespace stateObservation;
using namespace ref;
struct Cfg
{
  double al, be, ga, dt;
  V3 p, v, w, vc;
  M3 R;
  Cfg() : dt(0.005) { p.setZero(); v.setZero(); w.setZero(); vc.setZero(); R.setIdentity(); }
};
static void formula(const Cfg & c, const V3 & ya, const V3 & yg, const V3 & a, const V3 & b, const V3 & d, V3 & na, V3 & nb, V3 & nd)
{
  M3 Rt = tr(c.R);
  V3 w = mulv(Rt, c.w), p = mulv(Rt, c.p), vv = mulv(Rt, V3(c.vc + c.v)), rel = yg - w;
  V3 x1 = vv + cross(rel, p);
  V3 e = x1 - a;
  const double g = 9.8;
  na = a + c.dt * (cross(a, yg) - g * b + ya + c.al * e);
  nb = b + c.dt * (cross(b, yg) - c.be * e);
  V3 db = cross(d, b);
  V3 om = yg - c.ga * db;
  nd = d + c.dt * cross(d, om);
}
static void set(TiltEstimator & t, Cfg & c, int level)
{
  if(level >= 1)
  {
    t.setSamplingTime(c.dt = sx::var("dt"));
    t.setSensorPositionInC(c.p = sx::vec3("p"));
    t.setSensorLinearVelocityInC(c.v = sx::vec3("v"));
    t.setSensorAngularVelocityInC(c.w = sx::vec3("w"));
    t.setControlOriginVelocityInW(c.vc = sx::vec3("vc"));
  }
  if(level >= 2) t.setSensorOrientationInC(c.R = M3(sx::mat("R", 3, 3)));
}
// x/|x| : the result is the positive multiple of x of unit norm
static void direction(const V3 & got, const V3 & want, const std::string & l)
{
  double n = std::sqrt(want(0) * want(0) + want(1) * want(1) + want(2) * want(2));
  sx::eqm(got, V3(want / n), l);
  sx::eq(got(0) * got(0) + got(1) * got(1) + got(2) * got(2), 1, l + ": unit norm");
}
SX_SCENARIO(step)
{
  Cfg c;
  c.al = sx::var("alpha");
  c.be = sx::var("beta");
  c.ga = sx::var("gamma");
  int level = sx_choice("configuration", 3);
  bool later = sx_choice("gains set later", 2);
  TiltEstimator t(later ? 1 : c.al, later ? 2 : c.be, later ? 3 : c.ga);
  if(later)
  {
    t.setAlpha(c.al);
    t.setBeta(c.be);
    t.setGamma(c.ga);
  }
  set(t, c, level);
  sx::eq(t.getAlpha(), c.al, "alpha");
  sx::eq(t.getBeta(), c.be, "beta");
  sx::eq(t.getGamma(), c.ga, "gamma");
  sx::eq(t.getSamplingTime(), c.dt, "sampling time");
  sx::eqm(t.getSensorPositionInC(), c.p, "sensor position");
  sx::eqm(t.getSensorOrientationInC(), c.R, "sensor orientation");
  sx::eqm(t.getSensorLinearVelocityInC(), c.v, "sensor velocity");
  sx::eqm(t.getSensorAngularVelocityInC(), c.w, "sensor angular velocity");
  sx::eqm(t.getControlOriginVelocityInW(), c.vc, "control frame velocity");
  V3 a = sx::vec3("a"), b = sx::vec3("b"), d = sx::vec3("d"), ya = sx::vec3("ya"), yg = sx::vec3("yg");
  V3 na, nb, nd;
  formula(c, ya, yg, a, b, d, na, nb, nd);
  sx::assumeLt(0.01, nd(0) * nd(0) + nd(1) * nd(1) + nd(2) * nd(2));
  Vector x(9);
  x << a, b, d;
  long k = 3 * sx_choice("start", 2);
  t.setState(x, k);
  t.setMeasurement(ya, yg, k + 1);
  Vector xh = t.getEstimatedState(k + 1);
  sx::eqm(xh.segment<3>(0), na, "velocity estimate");
  sx::eqm(xh.segment<3>(3), nb, "fast tilt estimate");
  direction(xh.segment<3>(6), nd, "tilt estimate");
  sx::eqi(t.getCurrentTime(), k + 1, "time");
  sx::eqm(t.getCurrentEstimatedState(), xh, "recorded state");
}
// with the true state and perfect sensors, the estimate moves with the exact derivative of the true state
SX_SCENARIO(true_motion)
{
  Cfg c;
  TiltEstimator t(sx::var("alpha"), sx::var("beta"), sx::var("gamma"));
  set(t, c, 1);
  c.R = quatToMat(unitQuat("r"));
  t.setSensorOrientationInC(c.R);
  V3 tilt = unitVec("t"), om = sx::vec3("om"), dv = sx::vec3("dv");
  M3 Rt = tr(c.R);
  // sensor velocity in its own frame and its derivative dv; accelerometer = dv + om x v + g tilt
  V3 v = mulv(Rt, V3(c.v + c.vc)) + cross(V3(om - mulv(Rt, c.w)), mulv(Rt, c.p));
  V3 ya = dv + cross(om, v) + 9.8 * tilt;
  V3 nt = tilt + c.dt * cross(tilt, om);
  sx::assumeLt(0.9, nt(0) * nt(0) + nt(1) * nt(1) + nt(2) * nt(2)); // implied: the two terms are orthogonal
  Vector x(9);
  x << v, tilt, tilt;
  t.setState(x, 0);
  t.setMeasurement(ya, om, 1);
  Vector xh = t.getEstimatedState(1);
  sx::eqm(xh.segment<3>(0), V3(v + c.dt * dv), "velocity follows its derivative");
  sx::eqm(xh.segment<3>(3), nt, "fast tilt follows the rotation");
  direction(xh.segment<3>(6), nt, "tilt follows the rotation");
}
SX_SCENARIO(history)
{
  // concrete rotation rates and no tilt coupling, so that only the chaining of the steps is symbolic
  TiltEstimator t(5, 2, 0), s(5, 2, 0);
  V3 p = sx::vec3("p"), vc = sx::vec3("vc");
  for(TiltEstimator * e : {&t, &s})
  {
    e->setSensorPositionInC(p);
    e->setControlOriginVelocityInW(vc);
    e->setSamplingTime(0.125);
  }
  Vector x(9);
  x << sx::vec("x", 6), 0, 0, 1;
  V3 ya = sx::vec3("ya"), yg(1, 2, 0), za = sx::vec3("za"), zg(0, 2, 1);
  // second object restarted at another time from the intermediate estimate
  s.setState(x, 0);
  s.setMeasurement(ya, yg, 1);
  Vector mid = s.getEstimatedState(1);
  s.setState(mid, 10);
  s.setMeasurement(za, zg, 11);
  Vector last = s.getEstimatedState(11);
  t.setState(x, 0);
  t.setMeasurement(ya, yg, 1);
  t.setMeasurement(za, zg, 2);
  switch(sx_choice("how", 3))
  {
    case 0: sx::eqi(t.estimateState(), 2, "reached time"); break;
    case 1: t.getEstimatedState(1); break;
    case 2: sx::eqm(t.getEstimatedState(1), mid, "intermediate estimate"); break;
  }
  sx::eqm(t.getEstimatedState(2), last, "estimates chain");
}
