// Flexibility seen by an IMU with fixed contacts: dynamics, measurement, virtual measurements of the contacts.
#include "common.hpp"
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/noise/noise-base.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using namespace ref;
struct Noise : NoiseBase
{
  double a;
  Noise(double a) : a(a) {}
  virtual Vector getNoisy(const Vector & v)
  {
    Vector r = v;
    for(int i = 0; i < r.size(); ++i) r(i) += a * (i + 1);
    return r;
  }
};
static V3 G() { return V3(0, 0, 9.8); }
static V3 nonzero(const std::string & n)
{
  V3 v = sx::vec3(n);
  sx::assumeLt(1e-4, v.squaredNorm());
  return v;
}
struct State
{
  V3 p, o, v, w, a, al; // o : rotation vector
  V4 q; // quaternion
  static State rv(const std::string & n, bool zeroOri = false)
  {
    State s;
    if(zeroOri)
    {
      s.o.setZero();
      s.q << 0, 0, 0, 1;
    }
    else
    {
      s.o = nonzero(n + "o");
      s.q = expQuat(s.o);
    }
    s.rest(n);
    return s;
  }
  void rest(const std::string & n)
  {
    p = sx::vec3(n + "p");
    v = sx::vec3(n + "v");
    w = sx::vec3(n + "w");
    a = sx::vec3(n + "a");
    al = sx::vec3(n + "al");
  }
  Vector vecRv() const
  {
    Vector x(18);
    x << p, o, v, w, a, al;
    return x;
  }
};
// displacement over one sampling period
static V3 delta(const State & s, double dt)
{
  V3 d = s.w * dt + s.al * (dt * dt / 2);
  sx::assumeLt(1e-8, d.squaredNorm());
  return d;
}
// rotation vector of a quaternion away from a null or half-turn rotation, in one of its two signs
static V3 logQuat(const V4 & q, bool negative)
{
  double n2 = q(0) * q(0) + q(1) * q(1) + q(2) * q(2), w = q(3);
  sx::assumeLt(1e-8, n2);
  double n = std::sqrt(n2);
  double k;
  if(negative)
  {
    sx::assumeLt(w, -1e-4);
    k = -2 * std::atan2(n, -w) / n;
  }
  else
  {
    sx::assumeLt(1e-4, w);
    k = 2 * std::atan2(n, w) / n;
  }
  return V3(q(0) * k, q(1) * k, q(2) * k);
}
static Vector nextRv(const State & s, double dt)
{
  bool negative = sx_choice("next quaternion", 2);
  V3 d = delta(s, dt);
  V4 q = quatMul(expQuat(d), s.q);
  sx_define_unit_("next", q.data(), 4);
  V3 o = logQuat(q, negative);
  Vector e(18);
  e << V3(s.p + s.v * dt + s.a * (dt * dt / 2)), o, V3(s.v + s.a * dt), V3(s.w + s.al * dt), s.a, s.al;
  return e;
}
static Vector noisy(Vector e, double noise)
{
  for(int i = 0; i < e.size(); ++i) e(i) += noise * (i + 1);
  return e;
}

// kinematics of the IMU in the control frame
struct Control
{
  V3 p, o, v, w, a;
  V4 q;
  Control(const std::string & n, bool zeroOri = false)
  {
    if(zeroOri)
    {
      o.setZero();
      q << 0, 0, 0, 1;
    }
    else
    {
      o = nonzero(n + "o");
      q = expQuat(o);
    }
    p = sx::vec3(n + "p");
    v = sx::vec3(n + "v");
    w = sx::vec3(n + "w");
    a = sx::vec3(n + "a");
  }
  Vector vec() const
  {
    Vector u(15);
    u << p, o, v, w, a;
    return u;
  }
};
typedef std::vector<V3> Contacts;
static Vector meas(const State & s, const Control & u, const Contacts & c, double noise = 0)
{
  M3 R = quatToMat(s.q), Rt = tr(quatToMat(quatMul(s.q, u.q)));
  V3 p = mulv(R, u.p), v = mulv(R, u.v);
  // acceleration of a point moving in a moving frame: transport, centrifugal, Coriolis and relative terms
  V3 a = s.a + cross(s.al, p) + cross(s.w, cross(s.w, p)) + 2 * cross(s.w, v) + mulv(R, u.a);
  V3 w = s.w + mulv(R, u.w);
  Vector y(6 + 3 * c.size());
  y.segment(0, 3) = mulv(Rt, V3(a + G()));
  y.segment(3, 3) = mulv(Rt, w);
  for(int i = 0; i < 6; ++i) y(i) += noise * (i + 1);
  for(unsigned i = 0; i < c.size(); ++i) y.segment(6 + 3 * i, 3) = mulv(R, c[i]) + s.p - c[i];
  return y;
}
template<class Sys>
static void setContacts(Sys & f, const Contacts & c)
{
  f.setContactsNumber(c.size());
  for(unsigned i = 0; i < c.size(); ++i) f.setContactPosition(i, c[i]);
  sx::eqi(f.getMeasurementSize(), 6 + 3 * c.size(), "measurement size");
}
static Contacts contacts(int n)
{
  Contacts c;
  for(int i = 0; i < n; ++i) c.push_back(sx::vec3("c" + std::to_string(i)));
  return c;
}
static void differ(const V3 & a, const V3 & b)
{
  sx::assumeLt(a(0) + 0.01, b(0));
  sx::assumeLt(a(0), b(0));
}
// the accelerations used by the stable system, whose values are checked in the scenario below
static void stabilize(State &, IMUFixedContactDynamicalSystem &) {}
static void stabilize(State & s, StableIMUFixedContactDynamicalSystem & f)
{
  s.a = f.stabilizeAccelerationLinear(s.p, s.v);
  s.al = f.stabilizeAccelerationAngular(s.o, s.w);
}
template<class Sys>
static void dynamics()
{
  sx_abs_fork(1);
  double dt0 = sx_choice("symbolic construction period", 2) ? 0.25 : sx::var("dt0");
  Sys f(dt0);
  sx::eqi(f.getStateSize(), 18, "state size");
  sx::eqi(f.getMeasurementSize(), 6, "initial measurement size");
  sx::eqi(f.getInputSize(), 15, "input size");
  double dt = dt0;
  if(sx_choice("sampling period", 2)) f.setSamplingPeriod(dt = sx::var("dt"));
  sx::assumeLt(0.001, dt);
  State s = State::rv("s"), t = s, other = State::rv("t");
  Control u("u");
  differ(s.o, other.o);
  differ(s.o, u.o);
  stabilize(t, f);
  Vector n = nextRv(t, dt);
  Noise pn(sx::var("pn")), mn(sx::var("mn"));
  sx::yes(f.getProcessNoise() == 0x0 && f.getMeasurementNoise() == 0x0, "no noise");
  switch(sx_choice("before", 3))
  {
    case 0: break;
    case 1: f.measureDynamics(other.vecRv(), u.vec(), 1); break;
    default: f.measureDynamics(s.vecRv(), u.vec(), 1);
  }
  if(sx_choice("noise", 2))
  {
    f.setProcessNoise(&pn);
    f.setMeasurementNoise(&mn);
    sx::yes(f.getProcessNoise() == &pn && f.getMeasurementNoise() == &mn, "noises");
    sx::eqm(f.stateDynamics(s.vecRv(), u.vec(), 3), noisy(n, pn.a), "noisy next state");
    f.resetProcessNoise();
    sx::yes(f.getProcessNoise() == 0x0 && f.getMeasurementNoise() == &mn, "no process noise any more");
  }
  sx::eqm(f.stateDynamics(s.vecRv(), u.vec(), 3), n, "next state");
}
SX_SCENARIO(dynamics_free) { dynamics<IMUFixedContactDynamicalSystem>(); }
SX_SCENARIO(dynamics_stable) { dynamics<StableIMUFixedContactDynamicalSystem>(); }
SX_SCENARIO(stabilization)
{
  StableIMUFixedContactDynamicalSystem f(0.5);
  // the damping coefficient is a product of decimal constants
  V3 x = sx::vec3("x", -1000, 1000), v = sx::vec3("v", -1000, 1000);
  V3 l = f.stabilizeAccelerationLinear(x, v), a = f.stabilizeAccelerationAngular(x, v);
  for(int i = 0; i < 3; ++i)
  {
    sx::near(l(i), -25 * x(i) - v(i), 1e-9, "linear stabilization");
    sx::near(a(i), -25 * x(i) - v(i), 1e-9, "angular stabilization");
  }
}
template<class Sys>
static void measurement()
{
  Sys f(0.5);
  int what = sx_choice("what", 5);
  bool zs = what == 1 || what == 2, zu = what == 2 || what == 3;
  State s = State::rv("s", zs);
  Control u("u", zu);
  if(!zs && !zu) differ(s.o, u.o);
  if(!zs && zu) differ(u.o, s.o);
  if(zs && !zu) differ(s.o, u.o);
  if(what == 4)
  {
    u.o = s.o;
    u.q = s.q;
  }
  Contacts c = contacts(sx_choice("contacts", 3));
  setContacts(f, c);
  double noise = 0;
  Noise mn(sx::var("mn"));
  if(sx_choice("noise", 2))
  {
    f.setMeasurementNoise(&mn);
    noise = mn.a;
  }
  sx::eqm(f.measureDynamics(s.vecRv(), u.vec(), 3), meas(s, u, c, noise), "measurement");
  // the same orientation, everything else different
  State t = State::rv("t", true);
  t.o = s.o;
  t.q = s.q;
  f.resetMeasurementNoise();
  sx::yes(f.getMeasurementNoise() == 0x0, "no noise any more");
  sx::eqm(f.measureDynamics(t.vecRv(), u.vec(), 4), meas(t, u, c), "next measurement");
}
SX_SCENARIO(measurement_free) { measurement<IMUFixedContactDynamicalSystem>(); }
SX_SCENARIO(measurement_stable) { measurement<StableIMUFixedContactDynamicalSystem>(); }
template<class Sys>
static void contactChanges()
{
  Sys f(0.5);
  State s = State::rv("s", true);
  s.o << 0.5, 0, 0;
  s.q << 0, 0, 0, 1;
  s.q = expQuat(s.o);
  Control u("u", true);
  std::vector<V3> c;
  Vector x = s.vecRv(), uv = u.vec();
  for(int step = 0; step < 3; ++step)
  {
    std::string n = "step" + std::to_string(step);
    int op = sx_choice(n.c_str(), 5);
    if(op < 3)
    {
      f.setContactsNumber(op);
      // contacts which remain keep their positions, new ones are at the origin
      c.resize(op, V3::Zero());
    }
    else if((int)c.size() > op - 3)
    {
      c[op - 3] = sx::vec3(n + "c");
      f.setContactPosition(op - 3, c[op - 3]);
    }
    sx::eqi(f.getMeasurementSize(), 6 + 3 * c.size(), "measurement size");
  }
  sx::eqm(f.measureDynamics(x, uv, 3), meas(s, u, c), "measurement after the changes of contacts");
}
SX_SCENARIO(contact_changes_free) { contactChanges<IMUFixedContactDynamicalSystem>(); }
SX_SCENARIO(contact_changes_stable) { contactChanges<StableIMUFixedContactDynamicalSystem>(); }
