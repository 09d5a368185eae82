// DynamicalSystemSimulator against a list of states; elastic inverted pendulum; scalar tools.
#include "common.hpp"
#include <cstring>
#include <map>
#include <new>
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
#include <state-observation/tools/miscellaneous-algorithms.hpp>
using namespace stateObservation;
struct System : DynamicalSystemFunctorBase
{
  double a, b, c, d;
  System() : a(sx::var("a")), b(sx::var("b")), c(sx::var("c")), d(sx::var("d")) {}
  Vector next(const Vector & x, const Vector & u, long k) const
  {
    Vector r(1);
    r << a * x(0) + b * u(0) + 0.5 * double(k);
    return r;
  }
  Vector meas(const Vector & x, const Vector & u, long k) const
  {
    Vector r(2);
    r << c * x(0) + d * u(0) - 0.25 * double(k), x(0);
    return r;
  }
  virtual Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) { return next(x, u, k); }
  virtual Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k) { return meas(x, u, k); }
  virtual Index getStateSize() const { return 1; }
  virtual Index getInputSize() const { return 1; }
  virtual Index getMeasurementSize() const { return 2; }
};
struct Reference
{
  System & f;
  long first;
  std::vector<Vector> x;
  std::map<long, Vector> u;
  long last() const { return first + (long)x.size() - 1; }
  Vector input(long k) const
  {
    auto i = u.upper_bound(k);
    --i;
    return i->second;
  }
  void to(long k)
  {
    while(last() < k) x.push_back(f.next(x.back(), input(last()), last()));
  }
  Vector state(long k)
  {
    to(k);
    return x[k - first];
  }
  Vector meas(long k)
  {
    return f.meas(state(k), input(k), k);
  }
};
static Vector one(const std::string & n) { return sx::vec(n, 1); }
SX_SCENARIO(histories)
{
  System f;
  DynamicalSystemSimulator s;
  s.setDynamicsFunctor(&f);
  long start = sx_choice("start", 2) * 3;
  Reference r{f, start, {}, {}};
  auto begin = [&](const std::string & n) {
    Vector x = one(n + "x"), u = one(n + "u");
    r.x.assign(1, x);
    r.u.clear();
    r.u[start] = u;
    s.setInput(u, start);
    s.setState(x, start);
  };
  begin("begin");
#ifdef SX_THOROUGH
  const int depth = 4;
#else
  const int depth = 3;
#endif
  for(int i = 0; i < depth; ++i)
  {
    std::string n = std::to_string(i);
    int op = sx_choice("op", 8);
    long ahead = (op < 5) ? sx_choice("ahead", 2) : 0;
    switch(op)
    {
      case 0: // the input at the current time, or at a future one
      {
        Vector u = one("u" + n);
        r.u[r.last() + ahead] = u;
        s.setInput(u, r.last() + ahead);
        break;
      }
      case 1: s.simulateDynamicsTo(r.last() + 1 + ahead); r.to(r.last() + 1 + ahead); break;
      case 2:
      {
        long k = r.last() + ahead;
        sx::eqm(s.getState(k), r.state(k), "state");
        break;
      }
      case 3:
      {
        long k = r.last() + ahead;
        Vector y = s.getMeasurement(k);
        sx::eqm(y, r.meas(k), "measurement");
        r.to(k + 1);
        break;
      }
      case 4:
      {
        long k = std::max(r.first + 1, r.last() - 1 + ahead);
        auto xs = s.getStateArray(k, 2);
        sx::eqi(xs.size(), 2, "states");
        sx::eqi(xs.getFirstIndex(), k, "first state");
        for(long j = k; j < k + 2; ++j) sx::eqm(xs[j], r.state(j), "state of the array");
        break;
      }
      case 5: s.simulateDynamics(); r.to(r.last() + 1); break;
      case 6: // another value of a state, the following ones are forgotten
      {
        long k = r.last() - sx_choice("before", 2);
        if(k < r.first) return;
        Vector x = one("x" + n);
        s.setState(x, k);
        r.x.resize(k - r.first);
        r.x.push_back(x);
        break;
      }
      case 7:
        s.resetDynamics();
        begin("again" + n);
        break;
    }
    sx::eqi(s.getCurrentTime(), r.last(), "current time");
    sx::eqm(s.getCurrentState(), r.x.back(), "current state");
    sx::eqm(s.getInput(r.last() + 1), r.input(r.last() + 1), "input");
    for(long k = r.first; k <= r.last(); ++k)
    {
      sx::eqm(s.getState(k), r.x[k - r.first], "state kept");
      sx::eqm(s.getInput(k), r.input(k), "input kept");
    }
  }
  // all the measurements, in any order
  long end = r.last() + 1;
  if(sx_choice("measurements", 2))
  {
    if(end - r.first < 2) end = r.first + 2;
    s.simulateDynamicsTo(r.first + 1);
    auto ys = s.getMeasurementArray(r.first + 1, end - r.first);
    for(long k = r.first + 1; k <= end; ++k) sx::eqm(ys[k], r.meas(k), "measurement of the array");
  }
  else
    for(long k = end; k >= r.first; --k) sx::eqm(s.getMeasurement(k), r.meas(k), "measurement");
}
SX_SCENARIO(consecutive_states)
{
  // a state may be given for the time just after the current one, the measurements are still complete
  System f;
  DynamicalSystemSimulator s;
  s.setDynamicsFunctor(&f);
  Vector x0 = one("x0"), u = one("u"), x2 = one("x2");
  s.setInput(u, 0);
  s.setState(x0, 0);
  s.simulateDynamics();
  s.setState(x2, 2);
  s.simulateDynamics();
  Vector x1 = f.next(x0, u, 0), x3 = f.next(x2, u, 2);
  sx::eqi(s.getCurrentTime(), 3, "time");
  sx::eqm(s.getState(1), x1, "state 1");
  sx::eqm(s.getState(2), x2, "state 2");
  sx::eqm(s.getState(3), x3, "state 3");
  sx::eqm(s.getMeasurement(1), f.meas(x1, u, 1), "measurement 1");
  sx::eqm(s.getMeasurement(2), f.meas(x2, u, 2), "measurement 2");
}
struct Noise : NoiseBase
{
  double a;
  Noise(double a) : a(a) {}
  virtual Vector getNoisy(const Vector & v)
  {
    Vector r = v;
    for(int i = 0; i < r.size(); ++i) r(i) += a * (i + 1);
    return r;
  }
};
SX_SCENARIO(pendulum)
{
  BidimElasticInvPendulum p;
  double m = sx::var("m"), h = sx::var("h"), k = sx::var("k"), dt = sx::var("dt");
  sx::assumeLt(0.01, m);
  sx::assumeLt(0.01, h);
  p.setElasticity(k);
  p.setMass(m);
  p.setHeight(h);
  p.setSamplingPeriod(dt);
  Vector x = sx::vec("x", 4), u = sx::vec("u", 1);
  double pos = x(0), th = x(1), v = x(2), w = x(3);
  // angular momentum about the joint of a point mass sliding at height h
  double acc = (-k * th - m * 9.8 * (std::cos(th) * pos - std::sin(th) * h) + m * h * u(0) - 2 * m * w * pos * v) / (m * (pos * pos + h * h));
  Vector e(4);
  e << pos + dt * v, th + dt * w, v + dt * u(0), w + dt * acc;
  Noise n(sx::var("noise"));
  bool noise = sx_choice("noise", 2);
  if(noise)
  {
    p.setProcessNoise(&n);
    sx::yes(p.getProcessNoise() == &n, "noise");
    for(int i = 0; i < 4; ++i) e(i) += n.a * (i + 1);
  }
  sx::eqi(p.getStateSize(), 4, "state size");
  sx::eqi(p.getInputSize(), 1, "input size");
  sx::eqi(p.getMeasurementSize(), 0, "measurement size");
  sx::eqm(p.stateDynamics(x, u, 3), e, "next state");
  sx::eqi(p.measureDynamics(x, u, 3).size(), 0, "no measurement");
  if(noise)
  {
    p.resetProcessNoise();
    for(int i = 0; i < 4; ++i) e(i) -= n.a * (i + 1);
    sx::eqm(p.stateDynamics(x, u, 4), e, "next state without noise");
  }
}
SX_SCENARIO(pendulum_defaults)
{
  // without elasticity until one is given
  alignas(16) static char memory[sizeof(BidimElasticInvPendulum)];
  memset(memory, 0x40, sizeof(memory)); // nothing is null by chance
  BidimElasticInvPendulum & p = *new(memory) BidimElasticInvPendulum;
  Vector x = sx::vec("x", 4), u = sx::vec("u", 1);
  double acc = (-9.8 * (std::cos(x(1)) * x(0) - std::sin(x(1))) + u(0) - 2 * x(3) * x(2) * x(0)) / (x(0) * x(0) + 1);
  Vector e(4);
  e << x(0) + x(2), x(1) + x(3), x(2) + u(0), x(3) + acc;
  sx::eqm(p.stateDynamics(x, u, 0), e, "next state");
}
SX_SCENARIO(scalars)
{
  double x = sx::var("x"), lo = sx::var("lo"), hi = sx::var("hi");
  sx::eq(tools::square(x), x * x, "square");
  sx::assumeLt(lo, hi);
  double c = tools::clampScalar(x, hi, lo);
  sx::le(lo, c, "lower limit");
  sx::le(c, hi, "upper limit");
  if(lo <= x && x <= hi) sx::eq(c, x, "within the limits");
  else if(x < lo) sx::eq(c, lo, "below the limits");
  else sx::eq(c, hi, "above the limits");
  int s = tools::signum(x);
  if(x > 0) sx::eqi(s, 1, "positive");
  else if(x < 0) sx::eqi(s, -1, "negative");
  else sx::eqi(s, 0, "null");
  double dt = sx::var("dt");
  sx::assumeLt(0.01, dt);
  sx::eq(tools::derivate(x, hi, dt) * dt, hi - x, "finite difference");
  double l = sx::var("l");
  sx::assumeLt(0, l);
  double b = tools::clampScalar(x, l);
  sx::le(b, l, "symmetric upper limit");
  sx::le(-l, b, "symmetric lower limit");
}
SX_SCENARIO(lazy_normalization)
{
  ref::V3 v = sx::vec3("v");
  sx::assumeLt(0.001, v.squaredNorm());
  Vector3 n = tools::normalizedLazy(v);
  sx::le(n.squaredNorm(), 1 + 1e-6, "not longer than one");
  sx::le(1 - 1e-6, n.squaredNorm(), "not shorter than one");
  sx::eqm(ref::cross(n, v), ref::V3(ref::V3::Zero()), "same direction");
}
// finite-time controller: sliding on xd = kp sign(x) sqrt|x|, the distance y to it satisfies yd = kv sign(y) sqrt|y|
SX_SCENARIO(finite_time_control)
{
  double kp = sx::var("kp"), kv = sx::var("kv");
  sx::assumeLt(kp, -0.01);
  sx::assumeLt(kv, -0.01);
  int n = 1 + sx_choice("size", 3);
  Vector x = sx::vec("x", n), xd = sx::vec("xd", n), e(n);
  for(int i = 0; i < n; ++i)
  {
    double sg = (x(i) > 0) ? 1 : -1;
    sx::assumeLt(0.01, sg * x(i));
    double root = std::sqrt(sg * x(i)), y = xd(i) - kp * sg * root;
    double sy = (y > 0) ? 1 : -1;
    sx::assumeLt(0.01, sy * y);
    e(i) = kv * sy * std::sqrt(sy * y) + kp * xd(i) / (2 * root);
    sx::eq(tools::finiteTimeAccControl(x(i), xd(i), kp, kv), e(i), "acceleration");
  }
  sx::eqm(tools::finiteTimeAccControl(x, xd, kp, kv), e, "accelerations");
}
