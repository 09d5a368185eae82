// Flexibility estimators built on the extended Kalman filter: base class, and the estimator with fixed contacts.
#include "common.hpp"
#include <limits>
#include <map>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using namespace ref;
static Vector v1(double a)
{
  Vector v(1);
  v(0) = a;
  return v;
}
static Matrix m1(double a)
{
  Matrix v(1, 1);
  v(0, 0) = a;
  return v;
}
// x' = x + 2 x^2 + 3 u + k ; y = x^2 + 7 u + k x
struct Fun : public DynamicalSystemFunctorBase
{
  static double f(double x, double u, double k) { return x + 2 * x * x + 3 * u + k; }
  static double h(double x, double u, double k) { return x * x + 7 * u + k * x; }
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) { return v1(f(x(0), u(0), k)); }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k) { return v1(h(x(0), u(0), k)); }
  void reset() {}
  Index getStateSize() const { return 1; }
  Index getInputSize() const { return 1; }
  Index getMeasurementSize() const { return 1; }
};
struct Est : public EKFFlexibilityEstimatorBase
{
  int resets = 0;
  Est(const Vector & dx) : EKFFlexibilityEstimatorBase(1, 1, 1, dx) {}
  void setFlexibilityGuess(const Matrix & x)
  {
    lastX_ = x;
    ekf_.setState(Vector(x), k_);
  }
  Matrix4 getFlexibility() { return Matrix4::Identity(); }
  Index getStateSize() const { return 1; }
  Index getMeasurementSize() const { return 1; }
  Index getInputSize() const { return 1; }
  void resetCovarianceMatrices() { ++resets; }
  void setSamplingPeriod(double) {}
  void jacobians(const Matrix & A, const Matrix & C) { setJacobians(A, C); }
  void differences(const Vector & dx) { useFiniteDifferencesJacobians(dx); }
};
struct Ref
{
  double x, P, Q, R, dx, xb, yb, in;
  bool fd = true;
  double A = 0, C = 0;
  int k = 0;
  void step(double y, double u, double w)
  {
    xb = Fun::f(x, u, k);
    yb = Fun::h(xb, w, k + 1);
    double a = A, c = C;
    if(fd)
    {
      a = (Fun::f(x + dx, u, k) - xb) / dx;
      c = (Fun::h(xb + dx, w, k + 1) - yb) / dx;
    }
    double Pb = Q + a * a * P, S = R + c * c * Pb;
    sx::assumeLt(0, S);
    double K = Pb * c / S;
    in = K * (y - yb);
    x = xb + in;
    P = Pb - K * c * Pb;
    ++k;
  }
};
SX_SCENARIO(base)
{
  Ref r;
  r.x = sx::var("x");
  r.P = sx::var("P");
  r.Q = sx::var("Q");
  r.R = sx::var("R");
  double u = sx::var("u"), w = sx::var("w"), y = sx::var("y");
  sx::assumeLt(0, r.P);
  sx::assumeLt(0, r.Q);
  sx::assumeLt(0, r.R);
  r.dx = sx::var("dx");
  sx::assumeLt(0.001, r.dx);
  Fun f;
  int how = sx_choice("jacobians", 3);
  Est e(how == 1 ? v1(3) : v1(r.dx));
  if(how == 1) e.differences(v1(r.dx));
  if(how == 2)
  {
    r.fd = false;
    r.A = sx::var("A");
    r.C = sx::var("C");
    e.jacobians(m1(r.A), m1(r.C));
  }
  e.getEKF().setFunctor(&f);
  sx::yes(e.getEKF().getFunctor() == &f, "functor of the filter");
  e.setFlexibilityGuess(v1(r.x));
  e.setFlexibilityCovariance(m1(r.P));
  e.setProcessNoiseCovariance(m1(r.Q));
  e.setMeasurementNoiseCovariance(m1(r.R));
  sx::eqm(e.getFlexibilityCovariance(), m1(r.P), "covariance of the guess");
  sx::eqm(e.getProcessNoiseCovariance(), m1(r.Q), "process noise covariance");
  sx::eqm(e.getMeasurementNoiseCovariance(), m1(r.R), "measurement noise covariance");
  sx::eqm(e.getFlexibilityVector(), v1(r.x), "no estimation without measurement");
  bool only = sx_choice("only the input of the measurement", 2);
  if(!only) e.setInput(v1(u));
  else u = w;
  if(sx_choice("input of the measurement replaced", 2)) e.setMeasurementInput(v1(w + 1));
  if(only) u = e.getEKF().getInputsNumber() ? w + 1 : w;
  e.setMeasurementInput(v1(w));
  if(only) e.setInput(v1(u)); // the input of the dynamics can be given afterwards
  sx::eqm(e.getInput(), v1(u), "input");
  sx::eqm(e.getMeasurementInput(), v1(w), "input of the measurement");
  if(sx_choice("measurement replaced", 2)) e.setMeasurement(v1(y + 5));
  e.setMeasurement(v1(y));
  sx::eqm(e.getMeasurement(), v1(y), "measurement");
  double x0 = r.x;
  int k0 = r.k;
  if(sx_choice("predictions asked first", 2))
  {
    sx::eqm(e.getPrediction(), v1(Fun::f(x0, u, k0)), "prediction");
    sx::eqm(e.getPredictedMeasurement(), v1(Fun::h(Fun::f(x0, u, k0), w, k0 + 1)), "predicted measurement");
  }
  r.step(y, u, w);
  if(sx_choice("simulated measurement asked first", 2))
    sx::eqm(e.getSimulatedMeasurement(), v1(Fun::h(r.x, w, 1)), "simulated measurement runs the estimation");
  sx::eqm(e.getFlexibilityVector(), v1(r.x), "estimate");
  sx::eqm(e.getFlexibilityVector(), v1(r.x), "estimate asked again");
  sx::eqm(e.getFlexibilityCovariance(), m1(r.P), "covariance");
  sx::eqm(e.getInnovation(), v1(r.in), "innovation");
  sx::eqm(e.getLastPrediction(), v1(r.xb), "last prediction");
  sx::eqm(e.getLastPredictedMeasurement(), v1(r.yb), "last predicted measurement");
  sx::eqm(e.getSimulatedMeasurement(), v1(Fun::h(r.x, w, 1)), "simulated measurement");
  sx::eqi(e.resets, 0, "no reset of the covariances");
}
SX_SCENARIO(base_history)
{
  // given jacobians keep the expressions small over several steps
  Ref r;
  r.x = 0.5;
  r.P = 1;
  r.Q = 0.5;
  r.R = 2;
  r.fd = false;
  r.A = 0.5;
  r.C = 2;
  Fun f;
  Est e(v1(1));
  e.jacobians(m1(r.A), m1(r.C));
  e.getEKF().setFunctor(&f);
  e.setFlexibilityGuess(v1(r.x));
  e.setFlexibilityCovariance(m1(r.P));
  e.setProcessNoiseCovariance(m1(r.Q));
  e.setMeasurementNoiseCovariance(m1(r.R));
  double u = sx::var("u0");
  e.setInput(v1(u));
  for(int i = 0; i < 3; ++i)
  {
    std::string n = std::to_string(i);
    double w = sx::var("w" + n), y = sx::var("y" + n);
    if(sx_choice(("estimate asked before step " + n).c_str(), 2)) sx::eqm(e.getFlexibilityVector(), v1(r.x), "estimate before the step");
    if(i == 1 && sx_choice("input of the dynamics replaced", 2))
    {
      u = sx::var("v" + n);
      e.setInput(v1(u));
    }
    sx::eqm(e.getInput(), v1(u), "the input of the last measurement is the input of the next dynamics");
    e.setMeasurementInput(v1(w));
    e.setMeasurement(v1(y));
    r.step(y, u, w);
    sx::eqm(e.getFlexibilityVector(), v1(r.x), "estimate");
    sx::eqi(e.getEKF().getCurrentTime(), i + 1, "time");
    u = w;
  }
  sx::eqm(e.getFlexibilityCovariance(), m1(r.P), "covariance");
}
// a step without a valid result keeps the last valid estimate
struct Fragile : public Fun
{
  bool broken = false;
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    return broken ? v1(std::numeric_limits<double>::quiet_NaN()) : Fun::stateDynamics(x, u, k);
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k)
  {
    return broken ? v1(std::numeric_limits<double>::quiet_NaN()) : Fun::measureDynamics(x, u, k);
  }
};
SX_SCENARIO(base_invalid)
{
  Ref r;
  r.x = sx::var("x");
  r.P = 1;
  r.Q = 0.5;
  r.R = 2;
  r.fd = false;
  r.A = 0.5;
  r.C = 2;
  Fragile f;
  Est e(v1(1));
  e.jacobians(m1(r.A), m1(r.C));
  e.getEKF().setFunctor(&f);
  e.setFlexibilityGuess(v1(r.x));
  e.setFlexibilityCovariance(m1(r.P));
  e.setProcessNoiseCovariance(m1(r.Q));
  e.setMeasurementNoiseCovariance(m1(r.R));
  e.setInput(v1(0.25));
  int bad = sx_choice("invalid step", 4), resets = 0;
  for(int i = 0; i < 3; ++i)
  {
    f.broken = i == bad;
    double y = f.broken ? 3 : sx::var("y" + std::to_string(i));
    e.setMeasurementInput(v1(0.25));
    e.setMeasurement(v1(y));
    double x = r.x;
    r.step(y, 0.25, 0.25);
    if(f.broken)
    {
      r.x = x;
      if(i > 0) ++resets; // not at the first iteration
    }
    sx::eqm(e.getFlexibilityVector(), v1(r.x), "estimate");
    sx::eqi(e.resets, resets, "resets of the covariances");
    sx::eqi(e.getEKF().getCurrentTime(), i + 1, "time");
  }
}
typedef FixedContactEKFFlexEstimatorIMU Fixed;
static Matrix fullR(const Matrix & R, int contacts, double c)
{
  Matrix F = Matrix::Zero(6 + 3 * contacts, 6 + 3 * contacts);
  F.block(0, 0, 6, 6) = R;
  for(int i = 6; i < 6 + 3 * contacts; ++i) F(i, i) = c;
  return F;
}
static Matrix diag(double a, double b, double c, double d)
{
  Matrix D = Matrix::Zero(18, 18);
  for(int i = 0; i < 18; ++i) D(i, i) = i < 6 ? a : (i < 12 ? b : (i < 15 ? c : d));
  return D;
}
// every order of the configuration calls leads to the covariances they describe
SX_SCENARIO(fixed_configuration)
{
  Fixed e(0.5);
  Matrix R = Matrix::Identity(6, 6) * 1e-6, R1 = sx::mat("R", 6, 6);
  double c = 1e-10;
  int contacts = 0;
  sx::eqi(e.getStateSize(), 18, "state size");
  sx::eqi(e.getMeasurementSize(), 6, "measurement size");
  sx::eqi(e.getInputSize(), 15, "input size");
  sx::eqm(e.getMeasurementNoiseCovariance(), R, "initial measurement covariance");
  Matrix Q = diag(1e-8, 1e-4, 1e-2, 1e-2);
  sx::eqm(e.getProcessNoiseCovariance(), Q, "initial process covariance");
  sx::eqm(e.getEKF().getQ(), Q, "initial process covariance in the filter");
  for(int i = 0; i < 3; ++i)
  {
    std::string n = "step" + std::to_string(i);
    switch(sx_choice(n.c_str(), 6))
    {
      case 0: e.setContactsNumber(contacts = 4); break;
      case 1: e.setContactsNumber(contacts = 1); break;
      case 2: e.setContactsNumber(contacts = 0); break;
      case 3: e.setMeasurementNoiseCovariance(R = R1); break;
      case 4: e.setVirtualMeasurementsCovariance(c = sx::var("c" + n)); break;
      default:
        e.resetCovarianceMatrices();
        R = Matrix::Identity(6, 6) * 1e-6;
    }
    sx::eqm(e.getEKF().getR(), fullR(R, contacts, c), "covariance of the measurement with the virtual part");
    sx::eqi(e.getEKF().getMeasureSize(), 6 + 3 * contacts, "measurement size of the filter");
  }
  sx::eqm(e.getMeasurementNoiseCovariance(), R, "measurement covariance");
  sx::eq(e.getVirtualMeasurementsCovariance(), c, "virtual measurement covariance");
  sx::eqi(e.getMeasurementSize(), 6, "sensor measurement size");
}
SX_SCENARIO(fixed_process)
{
  Fixed e(0.5);
  Matrix Q = sx::mat("Q", 18, 18), P = sx::mat("P", 18, 18);
  e.setProcessNoiseCovariance(Q);
  e.setFlexibilityCovariance(P);
  sx::eqm(e.getProcessNoiseCovariance(), Q, "process covariance");
  sx::eqm(e.getEKF().getQ(), Q, "process covariance in the filter");
  sx::eqm(e.getFlexibilityCovariance(), P, "state covariance");
  if(sx_choice("contacts", 2)) e.setContactsNumber(2);
  sx::eqm(e.getFlexibilityCovariance(), P, "state covariance after the contacts");
  sx::eqm(e.getEKF().getQ(), Q, "process covariance after the contacts");
  e.resetCovarianceMatrices();
  sx::eqm(e.getProcessNoiseCovariance(), diag(1e-8, 1e-4, 1e-2, 1e-2), "process covariance after the reset");
  sx::eqm(e.getEKF().getQ(), diag(1e-8, 1e-4, 1e-2, 1e-2), "process covariance of the filter after the reset");
  sx::eqm(e.getFlexibilityCovariance(), diag(1e-2, 1e-2, 1e-2, 1e-2), "state covariance after the reset");
}
// the guess, in its three forms
SX_SCENARIO(fixed_guess)
{
  Fixed e(0.5);
  if(sx_choice("contacts", 2)) e.setContactsNumber(1);
  Vector x = Vector::Zero(18);
  V3 p = sx::vec3("p");
  switch(sx_choice("form", 3))
  {
    case 0: e.setFlexibilityGuess(x = sx::vec("x", 18)); break;
    case 1:
    {
      Vector x6 = sx::vec("x", 6);
      x.head(6) = x6;
      e.setFlexibilityGuess(x6);
      break;
    }
    default:
    {
      // rotation about the first axis
      double a = sx::var("a", 0.01, 3.1);
      Matrix4 H = Matrix4::Identity();
      H.block(0, 0, 3, 3) = rotX(std::cos(a), std::sin(a));
      H.block(0, 3, 3, 1) = p;
      x.head(3) = p;
      x(3) = a;
      e.setFlexibilityGuess(H);
    }
  }
  sx::eqm(e.getEKF().getEstimatedState(0), x, "state of the filter");
  sx::eqm(e.getFlexibilityVector(), x, "estimate before the first measurement");
}
// the prediction, which uses the sampling period and the dynamics of harness p_fixed.cpp
SX_SCENARIO(fixed_prediction)
{
  sx_abs_fork(1);
  double dt = sx::var("dt0");
  Fixed e(dt);
  int how = sx_choice("sampling period", 3);
  if(how == 1) e.setSamplingPeriod(dt = sx::var("dt"));
  if(how == 2)
  {
    e.setSamplingPeriod(sx::var("dt"));
    e.setSamplingPeriod(dt = sx::var("dt2"));
  }
  int contacts = sx_choice("contacts", 3);
  IMUFixedContactDynamicalSystem f(dt), g(dt);
  e.setContactsNumber(contacts);
  f.setContactsNumber(contacts);
  for(int i = 0; i < contacts; ++i)
  {
    V3 c = sx::vec3("c" + std::to_string(i));
    e.setContactPosition(i, c);
    f.setContactPosition(i, c);
  }
  // no rotation along the step
  Vector x = sx::vec("x", 18), u = sx::vec("u", 15), w = sx::vec("w", 15);
  x.segment(3, 3).setZero();
  x.segment(9, 3).setZero();
  x.segment(15, 3).setZero();
  w.segment(3, 3).setZero();
  e.setFlexibilityGuess(x);
  e.setInput(u);
  e.setMeasurementInput(w);
  e.setMeasurement(sx::vec("y", 6));
  Vector n = x;
  n.segment(0, 3) = x.segment(0, 3) + dt * x.segment(6, 3) + dt * dt / 2 * x.segment(12, 3);
  n.segment(6, 3) = x.segment(6, 3) + dt * x.segment(12, 3);
  sx::eqm(e.getPrediction(), n, "prediction");
  sx::eqm(e.getPredictedMeasurement(), f.measureDynamics(n, w, 1), "predicted measurement");
  Vector y(6 + 3 * contacts);
  y.setZero();
  y.head(6) = sx::vec("y", 6);
  sx::eqm(e.getMeasurement(), y, "measurement completed by the fixed contacts");
}
// whole steps with symbolic measurements against the filter of C13 run on the dynamics of C23
SX_SCENARIO(fixed_steps)
{
  sx_mode_native_concrete(1);
  sx_abs_fork(1);
  Fixed e(0.25);
  IMUFixedContactDynamicalSystem f(0.25);
  int contacts = sx_choice("contacts", 3), rot = sx_choice("guess", 2);
  e.setContactsNumber(contacts);
  f.setContactsNumber(contacts);
  for(int i = 0; i < contacts; ++i)
  {
    V3 c(0.5 * i + 0.25, 1 - i, -0.5);
    e.setContactPosition(i, c);
    f.setContactPosition(i, c);
  }
  ExtendedKalmanFilter k(18, 6 + 3 * contacts, 15, true, false);
  k.setFunctor(&f);
  k.setQ(diag(1e-8, 1e-4, 1e-2, 1e-2));
  k.setR(fullR(Matrix::Identity(6, 6) * 1e-6, contacts, 1e-10));
  k.setStateCovariance(diag(1e-8, 1e-4, 1e-2, 1e-2));
  Vector x = Vector::Zero(18), w = Vector::Zero(15), dx = Vector::Constant(18, 1e-8);
  dx.segment(3, 3).setConstant(1e-4);
  dx.segment(9, 3).setConstant(1e-4);
  for(int i = 0; i < 18; ++i) x(i) = (rot ? 0.015625 : 0) * (i + 1);
  for(int i = 0; i < 15; ++i) w(i) = 0.0625 * (3 - i);
  e.setFlexibilityGuess(x);
  k.setState(x, 0);
  e.setMeasurementInput(w);
  k.setInput(w, 0);
  k.setInput(w, 1);
  Vector y = sx::vec("y", 6), z = Vector::Zero(6 + 3 * contacts);
  z.head(6) = y;
  k.setMeasurement(z, 1);
  k.setA(k.getAMatrixFD(dx));
  k.setC(k.getCMatrixFD(dx));
  Vector n = k.getEstimatedState(1);
  double a2 = n.segment(3, 3).squaredNorm();
  // the orientation is left as it is below pi
  sx::assumeLt(1e-6, a2);
  sx::assumeLt(a2, 9);
  e.setMeasurement(y);
  Vector r = e.getFlexibilityVector();
  sx::eqm(r, n, "estimate");
  sx::eqm(e.getFlexibilityCovariance(), k.getStateCovariance(), "covariance");
  sx::eqm(e.getEKF().getEstimatedState(1), r, "state of the filter");
}
