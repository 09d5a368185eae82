// Extended Kalman filter: non-linear functor, tangent-space arithmetics, finite-difference Jacobians, histories.
#include "common.hpp"
#include <map>
#include <state-observation/observer/extended-kalman-filter.hpp>
using namespace stateObservation;
static Vector v1(double a)
{
  Vector v(1);
  v(0) = a;
  return v;
}
static Vector v2(double a, double b)
{
  Vector v(2);
  v << a, b;
  return v;
}
// x0' = x0 + 2 x1 + x0 x1 + 3 u + k ; x1' = x1^2 - u x0 ; y = x0 x1 + 7 u + k x1
struct Fun : public DynamicalSystemFunctorBase
{
  int p, resets = 0;
  double gain = 1;
  Fun(int p) : p(p) {}
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    double w = p ? u(0) : 0;
    return v2(gain * (x(0) + 2 * x(1) + x(0) * x(1) + 3 * w + double(k)), x(1) * x(1) - w * x(0));
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    double w = p ? u(0) : 0;
    return v1(gain * (x(0) * x(1) + 7 * w + double(k) * x(1)));
  }
  void reset() { ++resets; }
  Index getStateSize() const { return 2; }
  Index getInputSize() const { return p; }
  Index getMeasurementSize() const { return 1; }
};
struct Sys
{
  Fun f;
  ExtendedKalmanFilter e;
  Matrix P, Q, R;
  Sys(int p, bool dout, bool dstate) : f(p), e(2, 1, p, dout, dstate), P(sx::sym("P", 2)), Q(sx::sym("Q", 2)), R(sx::sym("R", 1))
  {
    e.setFunctor(&f);
    e.setQ(Q);
    e.setR(R);
  }
};
// the update of the filter with given A, C, against the equations; returns the estimate
static void update(Matrix A, Matrix C, Vector xb, Vector yb, Vector y, Matrix P, Matrix Q, Matrix R, Vector & xh, Matrix & K, Matrix & Pn)
{
  Matrix Pb(2, 2);
  Matrix T(2, 2);
  for(int i = 0; i < 2; ++i)
    for(int j = 0; j < 2; ++j) T(i, j) = A(i, 0) * P(0, j) + A(i, 1) * P(1, j);
  for(int i = 0; i < 2; ++i)
    for(int j = 0; j < 2; ++j) Pb(i, j) = Q(i, j) + T(i, 0) * A(j, 0) + T(i, 1) * A(j, 1);
  double g0 = Pb(0, 0) * C(0, 0) + Pb(0, 1) * C(0, 1), g1 = Pb(1, 0) * C(0, 0) + Pb(1, 1) * C(0, 1);
  double S = R(0, 0) + C(0, 0) * g0 + C(0, 1) * g1;
  sx::assumeLt(0, S);
  K = v2(g0 / S, g1 / S);
  double in = y(0) - yb(0);
  xh = v2(xb(0) + K(0) * in, xb(1) + K(1) * in);
  Pn = Matrix(2, 2);
  for(int i = 0; i < 2; ++i)
    for(int j = 0; j < 2; ++j)
      Pn(i, j) = Pb(i, j) - K(i) * (C(0, 0) * Pb(0, j) + C(0, 1) * Pb(1, j));
}
SX_SCENARIO(step)
{
  int p = sx_choice("inputs", 2);
  bool dout = sx_choice("output feedthrough", 2), dst = sx_choice("state feedthrough", 2), late = sx_choice("feedthrough set later", 2);
  bool uk1 = sx_choice("input at the measurement time", 2);
  if(p && dout && !uk1) return; // documented precondition
  Sys s(p, late ? !dout : dout, late ? !dst : dst);
  if(late)
  {
    s.e.setDirectInputOutputFeedthrough(dout);
    s.e.setDirectInputStateFeedthrough(dst);
  }
  Vector x = sx::vec("x", 2), y = sx::vec("y", 1), u = sx::vec("u", 1), w = sx::vec("w", 1);
  Matrix A = sx::mat("A", 2, 2), C = sx::mat("C", 1, 2);
  s.e.setState(x, 4);
  s.e.setStateCovariance(s.P);
  s.e.setA(A);
  s.e.setC(C);
  s.e.setMeasurement(y, 5);
  if(p)
  {
    s.e.setInput(u, 4);
    if(uk1) s.e.setInput(w, 5);
  }
  Vector xb = s.f.stateDynamics(x, dst ? u : v1(0), 4);
  Vector yb = s.f.measureDynamics(xb, uk1 ? w : v1(0), 5);
  if(sx_choice("predict first", 2))
  {
    sx::eqm(s.e.updateStatePrediction(), xb, "prediction on demand");
    sx::eqm(s.e.updateStateAndMeasurementPrediction(), yb, "measurement prediction on demand");
  }
  Vector xh;
  Matrix K, Pn;
  update(A, C, xb, yb, y, s.P, s.Q, s.R, xh, K, Pn);
  sx::eqm(s.e.getEstimatedState(5), xh, "estimate");
  sx::eqm(s.e.getLastPrediction(), xb, "state prediction");
  sx::eqm(s.e.getLastPredictedMeasurement(), yb, "measurement prediction");
  sx::eqm(s.e.getLastGain(), K, "gain");
  sx::eqm(s.e.getStateCovariance(), Pn, "covariance");
  if(!p || !dout || uk1)
  {
    Vector ys = s.f.measureDynamics(xh, p && uk1 ? w : v1(0), 5);
    sx::eqm(s.e.getSimulatedMeasurement(5), ys, "simulated measurement at the estimate");
  }
  sx::eqi(s.e.getCurrentTime(), 5, "time");
}
SX_SCENARIO(finite_difference_jacobians)
{
  int p = sx_choice("inputs", 2);
  bool dout = sx_choice("output feedthrough", 2), dst = sx_choice("state feedthrough", 2);
  Sys s(p, dout, dst);
  Vector x = sx::vec("x", 2), u = sx::vec("u", 1), w = sx::vec("w", 1), dx = sx::vec("dx", 2);
  sx::assumeNe(dx(0), 0);
  sx::assumeNe(dx(1), 0);
  s.e.setState(x, 4);
  if(p)
  {
    s.e.setInput(u, 4);
    s.e.setInput(w, 5);
  }
  if(!dst) u = v1(0);
  Vector xb = s.f.stateDynamics(x, u, 4), yb = s.f.measureDynamics(xb, w, 5);
  Matrix A(2, 2), C(1, 2);
  for(int i = 0; i < 2; ++i)
  {
    Vector d = v2(i == 0 ? dx(0) : 0., i == 1 ? dx(1) : 0.);
    Vector xp = s.f.stateDynamics(v2(x(0) + d(0), x(1) + d(1)), u, 4);
    A(0, i) = (xp(0) - xb(0)) / dx(i);
    A(1, i) = (xp(1) - xb(1)) / dx(i);
    Vector yp = s.f.measureDynamics(v2(xb(0) + d(0), xb(1) + d(1)), w, 5);
    C(0, i) = (yp(0) - yb(0)) / dx(i);
  }
  int order = sx_choice("order", 3);
  if(order == 0)
  {
    sx::eqm(s.e.getAMatrixFD(dx), A, "A");
    sx::eqm(s.e.getCMatrixFD(dx), C, "C");
  }
  if(order == 1)
  {
    sx::eqm(s.e.getCMatrixFD(dx), C, "C first");
    sx::eqm(s.e.getAMatrixFD(dx), A, "A second");
  }
  if(order == 2)
  {
    sx::eqm(s.e.getCMatrixFD(dx), C, "C");
    sx::eqm(s.e.getCMatrixFD(dx), C, "C again");
  }
  sx::eqm(s.e.getCurrentEstimatedState(), x, "state untouched");
  sx::eqm(s.e.updateStatePrediction(), xb, "prediction untouched");
  sx::eqm(s.e.getLastPrediction(), xb, "last prediction untouched");
}
// every way of changing state, inputs or dynamics between two predictions, at the same time index or not
SX_SCENARIO(fresh_predictions)
{
  int p = 1;
  Sys s(p, true, true);
  Vector x = sx::vec("x", 2), y = sx::vec("y", 1);
  std::map<long, Vector> u;
  u[4] = sx::vec("u", 1);
  u[5] = sx::vec("v", 1);
  u[6] = sx::vec("w", 1);
  Matrix A = sx::mat("A", 2, 2), C = sx::mat("C", 1, 2), P = s.P;
  long k = 4;
  auto give = [&](const Vector & x, long k) {
    s.e.setState(x, k);
    s.e.clearInputsAndMeasurements();
    for(long i = k; i <= 6; ++i) s.e.setInput(u[i], i);
  };
  give(x, 4);
  s.e.setStateCovariance(P);
  s.e.setA(A);
  s.e.setC(C);
  // something computes a prediction for the next time
  Vector dx = v2(0.5, 0.25);
  switch(sx_choice("first", 4))
  {
    case 0: s.e.updateStatePrediction(); break;
    case 1: s.e.updateStateAndMeasurementPrediction(); break;
    case 2:
      s.e.getAMatrixFD(dx);
      s.e.getCMatrixFD(dx);
      break;
    case 3:
    {
      Vector xh;
      Matrix K, Pn;
      Vector xb = s.f.stateDynamics(x, u[4], 4), yb = s.f.measureDynamics(xb, u[5], 5);
      update(A, C, xb, yb, y, P, s.Q, s.R, xh, K, Pn);
      s.e.setMeasurement(y, 5);
      sx::eqm(s.e.getEstimatedState(5), xh, "first estimate");
      break;
    }
  }
  bool estimated = s.e.getCurrentTime() == 5;
  // then the situation changes
  Vector z = sx::vec("z", 2);
  Fun other(1);
  other.gain = 3;
  Fun * f = &s.f;
  switch(sx_choice("change", 9))
  {
    case 0:
      give(z, 4);
      x = z;
      break;
    case 1:
      if(estimated) return;
      s.e.setCurrentState(z);
      x = z;
      break;
    case 2:
      if(estimated) return;
      u[4] = sx::vec("uu", 1);
      s.e.setInput(u[4], 4);
      break;
    case 3:
      if(estimated) return;
      u[5] = sx::vec("uu", 1);
      s.e.setInput(u[5], 5);
      break;
    case 4:
      s.e.clearStates();
      sx::eqi(s.e.getStateCovariance().size(), 0, "covariance cleared");
      give(z, 4);
      x = z;
      break;
    case 5:
      s.e.reset();
      sx::eqi(s.f.resets, 1, "reset reaches the functor");
      sx::yes(!s.e.stateIsSet(), "reset drops the state");
      sx::eqi(s.e.getMeasurementsNumber() + s.e.getInputsNumber(), 0, "reset drops measurements and inputs");
      sx::eqi(s.e.getStateCovariance().size(), 0, "reset drops the covariance");
      give(z, 4);
      x = z;
      break;
    case 6:
      give(x, 4);
      f = &other;
      s.e.setFunctor(f);
      sx::yes(s.e.getFunctor() == f && s.e.functor() == f, "functor");
      break;
    case 7:
      if(estimated) return;
      s.e.clearInputs();
      u[4] = sx::vec("uu", 1);
      s.e.pushInput(u[4]);
      s.e.pushInput(u[5]);
      break;
    case 8:
      give(z, 5);
      x = z;
      k = 5;
      break;
  }
  s.e.setStateCovariance(P);
  Vector y2 = sx::vec("yy", 1);
  Vector xb = f->stateDynamics(x, u[k], k), yb = f->measureDynamics(xb, u[k + 1], k + 1);
  if(sx_choice("jacobian", 2))
  {
    Vector xp = f->stateDynamics(v2(x(0) + 0.5, x(1)), u[k], k);
    sx::eq(s.e.getAMatrixFD(dx)(0, 0), (xp(0) - xb(0)) * 2, "A after the change");
    Vector yp = f->measureDynamics(v2(xb(0) + 0.5, xb(1)), u[k + 1], k + 1);
    sx::eq(s.e.getCMatrixFD(dx)(0, 0), (yp(0) - yb(0)) * 2, "C after the change");
  }
  if(s.e.getMeasurementsNumber() == 0) s.e.setMeasurement(y2, k + 1);
  Vector xh;
  Matrix K, Pn;
  update(A, C, xb, yb, y2, P, s.Q, s.R, xh, K, Pn);
  sx::eqm(s.e.getEstimatedState(k + 1), xh, "estimate after the change");
  sx::eqm(s.e.getLastPrediction(), xb, "prediction after the change");
  sx::eqm(s.e.getLastPredictedMeasurement(), yb, "measurement prediction after the change");
}
// two consecutive steps of a scalar non-linear system in one go equal two separate ones
struct Fun1 : public DynamicalSystemFunctorBase
{
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) { return v1(x(0) * x(0) + u(0) + double(k)); }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k) { return v1(x(0) * 3 - u(0) * x(0) + double(k)); }
  Index getStateSize() const { return 1; }
  Index getInputSize() const { return 1; }
  Index getMeasurementSize() const { return 1; }
};
SX_SCENARIO(two_steps)
{
  Fun1 f;
  ExtendedKalmanFilter e(1, 1, 1);
  e.setFunctor(&f);
  double x = sx::var("x"), P = sx::var("P"), q = sx::var("q"), r = sx::var("r"), a = sx::var("a"), c = sx::var("c");
  e.setA(Matrix::Constant(1, 1, a));
  e.setC(Matrix::Constant(1, 1, c));
  e.setQ(Matrix::Constant(1, 1, q));
  e.setR(Matrix::Constant(1, 1, r));
  e.setState(v1(x), 0);
  e.setStateCovariance(Matrix::Constant(1, 1, P));
  double u[3], y[3];
  for(int i = 0; i < 3; ++i)
  {
    u[i] = sx::var("u" + std::to_string(i));
    e.setInput(v1(u[i]), i);
  }
  for(int i = 1; i < 3; ++i)
  {
    y[i] = sx::var("y" + std::to_string(i));
    e.setMeasurement(v1(y[i]), i);
  }
  bool go = sx_choice("in one go", 2);
  for(int i = 1; i < 3; ++i)
  {
    double xb = x * x + u[i - 1] + (i - 1), pb = a * a * P + q, S = c * c * pb + r;
    sx::assumeLt(0, S);
    x = xb + pb * c / S * (y[i] - (xb * 3 - u[i] * xb + i));
    P = pb - pb * c / S * c * pb;
    if(!go || i == 2)
    {
      sx::eq(e.getEstimatedState(i)(0), x, "estimate " + std::to_string(i));
      sx::eq(e.getStateCovariance()(0, 0), P, "covariance " + std::to_string(i));
    }
  }
}
// states and measurements with a redundant representation (s, 2 s): tangent size 1, vector size 2
struct Arith : public StateVectorArithmetics
{
  void stateSum(const Vector & s, const Vector & t, Vector & r) { r = v2(s(0) + 5 * t(0), s(1) + 10 * t(0)); }
  void stateDifference(const Vector & a, const Vector & b, Vector & d) { d = v1((a(0) - b(0)) / 5); }
  void measurementDifference(const Vector & a, const Vector & b, Vector & d) { d = v1((a(1) - b(1)) / 3); }
};
struct FunT : public DynamicalSystemFunctorBase
{
  Vector stateDynamics(const Vector & x, const Vector &, TimeIndex) { return v2(x(0) * x(0), 2 * x(0) * x(0)); }
  Vector measureDynamics(const Vector & x, const Vector &, TimeIndex k)
  {
    Vector v(3);
    v << x(0), x(0) * x(1) + double(k), 1;
    return v;
  }
  Index getStateSize() const { return 2; }
  Index getInputSize() const { return 0; }
  Index getMeasurementSize() const { return 3; }
};
SX_SCENARIO(tangent_space)
{
  FunT f;
  Arith ar;
  ExtendedKalmanFilter e(2, 1, 3, 1, 0, false, false);
  e.setFunctor(&f);
  e.setStateArithmetics(&ar);
  double x = sx::var("x"), P = sx::var("P"), q = sx::var("q"), r = sx::var("r"), h = sx::var("h");
  sx::assumeNe(h, 0);
  e.setQ(Matrix::Constant(1, 1, q));
  e.setR(Matrix::Constant(1, 1, r));
  e.setState(v2(x, 2 * x), 2);
  e.setStateCovariance(Matrix::Constant(1, 1, P));
  Vector y(3);
  y << 9, sx::var("y"), 8;
  e.setMeasurement(y, 3);
  double xb = x * x, xp = x + 5 * h;
  double A = (xp * xp - xb) / 5 / h;
  double yb = xb * (2 * xb) + 3, yp = (xb + 5 * h) * (2 * xb + 10 * h) + 3;
  double C = (yp - yb) / 3 / h;
  Matrix Ae = e.getAMatrixFD(v1(h));
  sx::eqm(Ae, v1(A), "A in the tangent space");
  Matrix Ce = e.getCMatrixFD(v1(h));
  sx::eqm(Ce, v1(C), "C in the tangent space");
  e.setA(Ae);
  e.setC(Ce);
  double pb = A * A * P + q, S = C * C * pb + r;
  sx::assumeLt(0, S);
  double K = pb * C / S, t = K * (y(1) - yb) / 3;
  Vector xh = e.getEstimatedState(3);
  sx::eq(e.getLastGain()(0, 0), K, "gain in the tangent space");
  sx::eq(e.getInnovation()(0), t, "innovation in the tangent space");
  sx::eqm(xh, v2(xb + 5 * t, 2 * xb + 10 * t), "estimate through the state sum");
  sx::eq(e.getStateCovariance()(0, 0), (1 - K * C) * pb, "covariance in the tangent space");
  sx::yes(e.checkStateTangentVector(v1(0)) && !e.checkStateTangentVector(v2(0, 0)), "tangent size");
  sx::yes(e.checkMeasureTangentVector(v1(0)) && !e.checkMeasureTangentVector(v2(0, 0)), "measurement tangent size");
  sx::eqi(e.stateTangentVectorZero().size(), 1, "zero tangent");
  sx::eqi(e.measureTangentVectorZero().size(), 1, "zero measurement tangent");
}
// the matrices live in the tangent spaces: changing a size, tangent or not, drops exactly what depends on it
SX_SCENARIO(tangent_sizes)
{
  ExtendedKalmanFilter e(3, 2, 3, 2, 1, false, false);
  Matrix A = sx::mat("A", 2, 2), C = sx::mat("C", 2, 2), Q = sx::sym("Q", 2), R = sx::sym("R", 2), P = sx::sym("P", 2);
  Vector x = sx::vec("x", 3), y = sx::vec("y", 3);
  e.setA(A);
  e.setC(C);
  e.setQ(Q);
  e.setR(R);
  e.setState(x, 4);
  e.setStateCovariance(P);
  e.setMeasurement(y, 5);
  int which = sx_choice("which", 2), n = 2 + sx_choice("size", 2), t = 1 + sx_choice("tangent", 3);
  if(which == 0) e.setStateSize(n, t);
  else e.setMeasureSize(n, t);
  bool same = n == 3 && t == 2, s = which == 0 && !same, m = which == 1 && !same;
  sx::yes((e.getA().size() == 0) == s, "A dropped with the state sizes");
  sx::yes((e.getQ().size() == 0) == s, "Q dropped with the state sizes");
  sx::yes((e.getStateCovariance().size() == 0) == s, "P dropped with the state sizes");
  sx::yes((e.getC().size() == 0) == (s || m), "C dropped with the sizes");
  sx::yes((e.getR().size() == 0) == m, "R dropped with the measurement sizes");
  if(!s) sx::eqm(e.getA(), A, "A kept");
  if(!s) sx::eqm(e.getQ(), Q, "Q kept");
  if(!s) sx::eqm(e.getStateCovariance(), P, "P kept");
  if(!s && !m) sx::eqm(e.getC(), C, "C kept");
  if(!m) sx::eqm(e.getR(), R, "R kept");
  if(!s) sx::eqm(e.getCurrentEstimatedState(), x, "state kept");
  if(!m) sx::eqm(e.getMeasurement(5), y, "measurement kept");
  int nt = which == 0 ? t : 2, mt = which == 1 ? t : 2, ns = which == 0 ? n : 3, ms = which == 1 ? n : 3;
  sx::eqi(e.getStateSize(), ns, "state size");
  sx::eqi(e.getMeasureSize(), ms, "measurement size");
  sx::eqi(e.stateTangentVectorZero().size(), nt, "tangent size");
  sx::eqi(e.measureTangentVectorZero().size(), mt, "measurement tangent size");
  sx::eqi(e.stateVectorZero().size(), ns, "state vector size");
  sx::eqi(e.measureVectorZero().size(), ms, "measurement vector size");
  for(int k = 1; k <= 3; ++k)
  {
    sx::yes(e.checkStateTangentVector(Vector::Zero(k)) == (k == nt), "tangent vectors recognised");
    sx::yes(e.checkMeasureTangentVector(Vector::Zero(k)) == (k == mt), "measurement tangent vectors recognised");
    for(int l = 1; l <= 3; ++l)
    {
      Matrix M = Matrix::Zero(k, l);
      sx::yes(e.checkAmatrix(M) == (k == nt && l == nt), "A size");
      sx::yes(e.checkCmatrix(M) == (k == mt && l == nt), "C size");
      sx::yes(e.checkQmatrix(M) == (k == nt && l == nt), "Q size");
      sx::yes(e.checkPmatrix(M) == (k == nt && l == nt), "P size");
      sx::yes(e.checkRmatrix(M) == (k == mt && l == mt), "R size");
    }
  }
  sx::eqm(e.getRmatrixIdentity(), Matrix::Identity(mt, mt), "identity R");
  sx::eqm(e.getQmatrixIdentity(), Matrix::Identity(nt, nt), "identity Q");
  sx::eqm(e.getCmatrixZero(), Matrix::Zero(mt, nt), "zero C");
}
// what the constructors fix: sizes, and whether the inputs reach the process and the sensors
SX_SCENARIO(constructors)
{
  int which = sx_choice("constructor", 3), p = sx_choice("inputs", 2);
  bool dout = sx_choice("output feedthrough", 2), dst = sx_choice("state feedthrough", 2);
  if(which == 0 && (p || dout || dst)) return;
  Fun f(1);
  ExtendedKalmanFilter e = which == 0 ? ExtendedKalmanFilter(2, 1) : which == 1 ? ExtendedKalmanFilter(2, 1, p, dout, dst) : ExtendedKalmanFilter(2, 2, 1, 1, p, dout, dst);
  sx::eqi(e.getStateSize(), 2, "state size");
  sx::eqi(e.getMeasureSize(), 1, "measurement size");
  sx::eqi(e.getInputSize(), p, "input size");
  sx::yes(e.getFunctor() == 0, "no functor yet");
  e.setFunctor(&f);
  sx::yes(e.getFunctor() == &f, "functor");
  // a filter without input is a filter without feedthrough, whatever it is given later
  if(!p) e.setInputSize(1);
  if(!p) dout = dst = false;
  Vector x = sx::vec("x", 2), u = sx::vec("u", 1), w = sx::vec("w", 1), y = sx::vec("y", 1);
  e.setState(x, 4);
  e.setMeasurement(y, 5);
  bool given = dst || sx_choice("input given", 2);
  bool next = dout || sx_choice("input at the time of the measurement given", 2);
  if(next && !given) return;
  if(given) e.setInput(u, 4);
  if(next) e.setInput(w, 5);
  Vector xb = f.stateDynamics(x, dst ? u : v1(0), 4), yb = f.measureDynamics(xb, next ? w : v1(0), 5);
  sx::eqm(e.updateStatePrediction(), xb, "state prediction");
  sx::eqm(e.updateStateAndMeasurementPrediction(), yb, "measurement prediction");
  e.clearFunctor();
  sx::yes(e.getFunctor() == 0, "functor removed");
}
