// Model-based flexibility estimator: configuration, covariances, guesses, steps, limits, switching off.
#include "common.hpp"
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using namespace ref;
typedef ModelBaseEKFFlexEstimatorIMU Est;
typedef IMUElasticLocalFrameDynamicalSystem Sys;
static Matrix block(const Matrix & a, const Matrix & b)
{
  Matrix r = Matrix::Zero(a.rows() + b.rows(), a.cols() + b.cols());
  r.block(0, 0, a.rows(), a.cols()) = a;
  r.block(a.rows(), a.cols(), b.rows(), b.cols()) = b;
  return r;
}
static Matrix eye(int n, double d)
{
  Matrix r = Matrix::Zero(n, n);
  for(int i = 0; i < n; ++i) r(i, i) = d;
  return r;
}
// The measurement covariance: every sensor keeps its own, whatever the order of the calls
struct Expected
{
  Matrix imu = eye(6, 1e-6), force[2], abs, forceVar = eye(6, 1e-4);
  double absVar = 1e-4;
  int n = 0;
  bool ft = false, ap = false;
  Expected()
  {
    fill(0, 2);
    abs = eye(6, absVar);
  }
  void fill(int i, int j)
  {
    for(; i < j; ++i) force[i] = forceVar;
  }
  Matrix R() const
  {
    Matrix r = imu;
    if(ft)
      for(int i = 0; i < n; ++i) r = block(r, force[i]);
    if(ap) r = block(r, abs);
    return r;
  }
};
SX_SCENARIO(measurement_covariance)
{
  Est e(0.5);
  Expected r;
  sx::eqi(e.getMeasurementSize(), 6, "measurement size");
  sx::eqm(e.getMeasurementNoiseCovariance(), r.R(), "initial covariance");
#ifdef SX_THOROUGH
  int steps = 4;
#else
  int steps = 3;
#endif
  for(int i = 0; i < steps; ++i)
  {
    std::string s = std::to_string(i);
    switch(sx_choice(("operation " + s).c_str(), 11))
    {
      case 0:
      case 1:
      case 2:
      {
        int n = i == 0 ? 2 : sx_choice(("contacts " + s).c_str(), 3);
        if(r.ft && n > r.n) r.fill(r.n, n); // the new sensors
        e.setContactsNumber(r.n = n);
        break;
      }
      case 3:
        if(!r.ft) r.fill(0, 2);
        e.setWithForcesMeasurements(r.ft = true);
        break;
      case 4: e.setWithForcesMeasurements(r.ft = false); break;
      case 5:
        if(!r.ap) r.abs = eye(6, r.absVar);
        e.setWithAbsolutePos(r.ap = true);
        break;
      case 6: e.setWithAbsolutePos(r.ap = false); break;
      case 7:
      {
        double d = sx::var("f" + s);
        r.forceVar = eye(6, d);
        r.fill(0, 2);
        e.setForceVariance(d);
        break;
      }
      case 8:
      {
        M3 d = M3(sx::mat("F" + s, 3, 3));
        r.forceVar = block(d, d);
        r.fill(0, 2);
        e.setForceVariance(d);
        break;
      }
      case 9:
      {
        double d = sx::var("a" + s);
        r.absVar = d;
        r.abs = eye(6, d);
        e.setAbsolutePosVariance(d);
        break;
      }
      default:
        if(sx_choice(("reset " + s).c_str(), 2))
        {
          e.resetCovarianceMatrices();
          r.imu = eye(6, 1e-6);
          r.fill(0, 2);
          r.abs = eye(6, r.absVar);
        }
        else
        {
          r.imu = sx::mat("I" + s, 6, 6);
          for(int j = 0; j < 2; ++j) r.force[j] = sx::mat("F" + std::to_string(j) + s, 6, 6);
          r.abs = sx::mat("A" + s, 6, 6);
          e.setMeasurementNoiseCovariance(r.R());
        }
    }
    Matrix R = r.R();
    sx::eqi(e.getMeasurementSize(), R.rows(), "measurement size");
    sx::eqi(e.getEKF().getMeasureSize(), R.rows(), "measurement size of the filter");
    sx::eqi(e.getInputSize(), 48 + 12 * r.n, "input size");
    sx::eqi(e.getContactsNumber(), r.n, "number of contacts");
    sx::yes(e.getWithForcesMeasurements() == r.ft && e.getWithAbsolutePos() == r.ap, "sensors");
    sx::eqm(e.getMeasurementNoiseCovariance(), R, "measurement covariance");
    sx::eqm(e.getEKF().getR(), R, "measurement covariance of the filter");
  }
}
static Matrix defaultQ(bool unmodeled, bool bias, bool absolute)
{
  Matrix Q = Matrix::Zero(35, 35);
  for(int i = 0; i < 35; ++i) Q(i, i) = i < 12 ? 1e-8 : (i < 24 ? 1e-4 : (i < 30 ? (unmodeled ? 1e-2 : 0) : (i < 32 ? (bias ? 2.5e-10 : 0) : (absolute ? 1e-8 : 0))));
  return Q;
}
SX_SCENARIO(process_covariance)
{
  Est e(0.5);
  bool unmodeled = false, bias = false, absolute = false;
  Matrix Q = defaultQ(false, false, false), P = Q;
  sx::eqi(e.getStateSize(), 35, "state size");
  for(int i = 0; i < 3; ++i)
  {
    std::string s = std::to_string(i);
    switch(sx_choice(("operation " + s).c_str(), 9))
    {
      case 0: e.setWithUnmodeledForces(unmodeled = sx_choice(("unmodeled forces " + s).c_str(), 2)); break;
      case 1: e.setWithComBias(bias = sx_choice(("bias " + s).c_str(), 2)); break;
      case 2: e.setWithAbsolutePos(absolute = sx_choice(("absolute position " + s).c_str(), 2)); break;
      case 3:
        e.resetCovarianceMatrices();
        P = Q = defaultQ(unmodeled, bias, absolute);
        break;
      case 4:
        e.resetStateCovarianceMatrix();
        P = Q;
        break;
      case 5: e.setProcessNoiseCovariance(Q = sx::mat("Q" + s, 35, 35)); break;
      case 6: e.setFlexibilityCovariance(P = sx::mat("P" + s, 35, 35)); break;
      case 7:
      {
        double v = sx::var("v" + s, 0.001, 1);
        e.setUnmodeledForceVariance(v);
        for(int j = 24; j < 30; ++j) P(j, j) = v;
        unmodeled = true;
        break;
      }
      default:
      {
        double v = sx::var("v" + s, 0.001, 1);
        e.setUnmodeledForceProcessVariance(v);
        for(int j = 24; j < 30; ++j) Q(j, j) = v;
        unmodeled = true;
      }
    }
    sx::yes(e.getWithUnmodeledForces() == unmodeled && e.getWithComBias() == bias && e.getWithAbsolutePos() == absolute, "options");
    sx::eqm(e.getProcessNoiseCovariance(), Q, "process covariance");
    sx::eqm(e.getEKF().getQ(), Q, "process covariance of the filter");
    sx::eqm(e.getFlexibilityCovariance(), P, "state covariance");
    sx::eqm(e.getStateCovariance(), P.diagonal(), "state variances");
  }
}
SX_SCENARIO(guess)
{
  Est e(0.5);
  if(sx_choice("contacts", 2)) e.setContactsNumber(2);
  Vector x = Vector::Zero(35);
  V3 p = sx::vec3("p");
  double a = sx::var("a", 0.01, 3.1);
  M3 R = M3::Identity();
  bool rotated = false;
  for(int i = 0; i < 2; ++i)
  {
    std::string s = std::to_string(i);
    switch(sx_choice(("form " + s).c_str(), 4))
    {
      case 0:
        e.setFlexibilityGuess(x = sx::vec("x" + s, 35));
        rotated = false;
        break;
      case 1:
      {
        Vector g(6);
        g << p, 0, a, 0;
        x.setZero();
        x.head(6) = g;
        e.setFlexibilityGuess(g);
        rotated = true;
        R = rotY(std::cos(a), std::sin(a));
        break;
      }
      case 2:
      {
        Matrix4 H = Matrix4::Identity();
        R = rotX(std::cos(a), std::sin(a));
        H.block(0, 0, 3, 3) = R;
        H.block(0, 3, 3, 1) = p;
        x.setZero();
        x.head(3) = p;
        x(3) = a;
        e.setFlexibilityGuess(H);
        rotated = true;
        break;
      }
      default:
      {
        Vector b = sx::vec("b" + s, 2);
        e.setComBiasGuess(b);
        x.segment(30, 2) = b;
      }
    }
    sx::eqm(e.getEKF().getEstimatedState(0), x, "state of the filter");
    sx::eqm(e.getFlexibilityVector(), x, "estimate");
  }
  if(rotated)
  {
    Matrix4 H = Matrix4::Identity();
    H.block(0, 0, 3, 3) = R;
    H.block(0, 3, 3, 1) = p;
    sx::eqm(e.getFlexibility(), H, "homogeneous matrix");
  }
}
// numbers for the state, the input and the model; the answers are computed as in double
static Vector number(int n, int a, double scale)
{
  Vector x(n);
  for(int i = 0; i < n; ++i) x(i) = scale * (1 + (a * i) % 5) * (i % 2 ? -1 : 1);
  return x;
}
static Vector someInput(int n)
{
  Vector u = number(48 + 12 * n, 7, 0.125);
  u.segment(9, 6) << 64, 128, 256, 8, 4, 2; // inertia
  return u;
}
struct Config
{
  int n;
  bool unmodeled, bias, absolute, forces;
  Config(int n, int v) : n(n), unmodeled(v == 2 || v == 4), bias(v == 1 || v == 4), absolute(v == 3 || v == 4), forces(v >= 3) {}
  Matrix3 K(double k) const
  {
    return k * Matrix3::Identity();
  }
  void apply(Sys & f) const
  {
    f.setContactsNumber(n);
    f.setContactModel(Sys::contactModel::elasticContact);
    f.setWithComBias(bias);
    f.setWithUnmodeledForces(unmodeled);
    f.setWithAbsolutePosition(absolute);
    f.setWithForceMeasurements(forces);
    f.setRobotMass(64);
    f.setKfe(K(4000));
    f.setKfv(K(100));
    f.setKte(K(300));
    f.setKtv(K(10));
  }
  void apply(Est & e) const
  {
    e.setRobotMass(64);
    if(forces) e.setWithForcesMeasurements(true);
    e.setWithComBias(bias);
    e.setContactModel(Est::contactModel::elasticContact);
    if(absolute) e.setWithAbsolutePos(true);
    e.setContactsNumber(n);
    if(unmodeled) e.setWithUnmodeledForces(true);
    e.setKfe(K(4000));
    e.setKfv(K(100));
    e.setKte(K(300));
    e.setKtv(K(10));
    e.resetCovarianceMatrices();
  }
  Vector dx() const
  {
    Vector d(35);
    d.setConstant(1e-8);
    d.segment(3, 3).setConstant(1e-4);
    d.segment(9, 3).setConstant(1e-4);
    return d;
  }
  int size() const
  {
    return 6 + (forces ? 6 * n : 0) + (absolute ? 6 : 0);
  }
};
static Vector regulated(Vector x)
{
  double n2 = x.segment(3, 3).squaredNorm();
  // the orientation is left as it is below pi
  sx::assumeLt(1e-6, n2);
  sx::assumeLt(n2, 9);
  return x;
}
// the filter of C13 on the model of C25
struct Oracle
{
  Sys f;
  ExtendedKalmanFilter k;
  Oracle(const Config & c, double dt, const Vector & x0, const Est & e)
  : f(dt), k(35, c.size(), 48 + 12 * c.n)
  {
    c.apply(f);
    f.setFDstep(c.dx());
    k.setFunctor(&f);
    k.setQ(defaultQ(c.unmodeled, c.bias, c.absolute));
    k.setR(e.getMeasurementNoiseCovariance());
    k.setStateCovariance(defaultQ(c.unmodeled, c.bias, c.absolute));
    k.setState(x0, 0);
  }
  Vector step(const Vector & y, const Vector & u, const Vector & w, int i)
  {
    k.setInput(u, i);
    k.setInput(w, i + 1);
    k.setMeasurement(y, i + 1);
    k.updateStateAndMeasurementPrediction();
    k.setA(f.stateDynamicsJacobian());
    k.setC(f.measureDynamicsJacobian());
    return k.getEstimatedState(i + 1);
  }
};
SX_SCENARIO(steps)
{
  sx_mode_native_concrete(1);
  sx_abs_fork(1);
  Config c(sx_choice("contacts", 3), sx_choice("options", 5));
  Est e(0.25);
  c.apply(e);
  e.setSamplingPeriod(0.0625);
  e.setLimitOn(false);
  sx::eqm(e.getMeasurementNoiseCovariance(), eye(c.size(), 1).cwiseProduct(e.getMeasurementNoiseCovariance()), "diagonal covariance");
  Vector x = number(35, 3, 0.015625), u = someInput(c.n), w = 0.5 * someInput(c.n);
  e.setFlexibilityGuess(x);
  Oracle o(c, 0.0625, x, e);
  e.setInput(u);
  e.setMeasurementInput(w);
  Vector y = sx::vec("y", c.size());
  Vector n = regulated(o.step(y, u, w, 0));
  Matrix A = o.k.getA(), C = o.k.getC();
  e.setMeasurement(y);
  sx::eqm(e.getMeasurement(), y, "measurement");
  sx::eqm(e.getFlexibilityVector(), n, "estimate");
  sx::eqm(e.getFlexibilityVector(), n, "estimate asked again");
  sx::eqm(e.getAMatrix(), A, "state Jacobian");
  sx::eqm(e.getCMatrix(), C, "measurement Jacobian");
  sx::eqm(e.getFlexibilityCovariance(), o.k.getStateCovariance(), "covariance");
  sx::eqm(e.getEKF().getEstimatedState(1), n, "state of the filter");
  if(6 * c.n > 0) sx::eqm(e.getForcesAndMoments(), n.segment(12, 6 * c.n), "contact wrenches of the estimate");
  Matrix O(2 * c.size(), 35);
  O.topRows(c.size()) = C;
  O.bottomRows(c.size()) = C * A;
  sx::eqm(e.computeLocalObservationMatrix(), O, "local observation matrix");
}
// two steps on numbers except the last measurement
SX_SCENARIO(two_steps)
{
  sx_mode_native_concrete(1);
  sx_abs_fork(1);
  Config c(1 + sx_choice("contacts", 2), sx_choice("options", 5));
  Est e(0.0625);
  c.apply(e);
  e.setLimitOn(false);
  Vector x = number(35, 3, 0.015625), u = someInput(c.n), w = 0.5 * someInput(c.n), v = 0.75 * w;
  e.setFlexibilityGuess(x);
  Oracle o(c, 0.0625, x, e);
  Vector y0 = number(c.size(), 2, 0.5), y = sx::vec("y", c.size());
  Vector n0 = o.step(y0, u, w, 0);
  Vector n = regulated(o.step(y, w, v, 1));
  e.setInput(u);
  e.setMeasurementInput(w);
  e.setMeasurement(y0);
  if(sx_choice("estimate asked in between", 2))
  {
    sx::eqm(e.getFlexibilityVector(), n0, "first estimate");
    e.setMeasurementInput(v);
    e.setMeasurement(y);
  }
  else
  {
    e.getFlexibility();
    sx::eqm(e.getInput(), w, "the input of the measurement is the next one of the dynamics");
    e.setMeasurementInput(v);
    e.setMeasurement(y);
  }
  sx::eqm(e.getFlexibilityVector(), n, "second estimate");
  sx::eqm(e.getFlexibilityCovariance(), o.k.getStateCovariance(), "covariance");
}
struct Predict : public Est
{
  using Est::Est;
  void jacobians() { setJacobians(Matrix::Zero(35, 35), Matrix::Zero(6, 35)); }
};
// saturation of the contact wrenches of the estimate
SX_SCENARIO(limits)
{
  sx_mode_native_concrete(1);
  Predict e(0.0625);
  e.setContactsNumber(2);
  e.setContactModel(Est::contactModel::elasticContact);
  bool torque = sx_choice("torque", 2), symbolic = sx_choice("limits set", 2), on = !sx_choice("limits off", 2);
  int contact = sx_choice("contact", 2), axis = sx_choice("axis", 3);
  V3 lf = 56.8 * 9.8 * V3(100, 100, 1000), lt = 56.8 * 9.8 * V3(10, 10, 100);
  if(symbolic)
  {
    lf = V3(8, 4, 2);
    lt = V3(16, 32, 64);
    double l = sx::var("limit", 0.125, 1000);
    if(torque) lt(axis) = l;
    else
      lf(axis) = l;
    e.setForcesLimit(lf);
    e.setTorquesLimit(lt);
    sx::eqm(e.getForcesLimit(), lf, "limit of the forces");
    sx::eqm(e.getTorquesLimit(), lt, "limit of the torques");
  }
  if(!on) e.setLimitOn(false);
  sx::yes(e.getLimitOn() == on, "limits");
  // the estimate is the prediction
  e.jacobians();
  e.setKfe(M3::Zero());
  e.setKte(M3::Zero());
  e.setKfv(M3::Identity());
  M3 Ktv = M3::Zero();
  Vector x = Vector::Zero(35), u = Vector::Zero(72);
  u.segment(9, 6) << 1, 1, 1, 0, 0, 0;
  V3 f[2], t[2];
  f[0].setZero();
  f[1] = t[0] = t[1] = f[0];
  double v = sx::var("v", -1e6, 1e6);
  if(torque)
  {
    x(9 + axis) = 2;
    Ktv(axis, axis) = v;
    t[0](axis) = t[1](axis) = -2 * v;
  }
  else
  {
    u(48 + 12 * contact + 6 + axis) = v;
    f[contact](axis) = -v;
  }
  // no acceleration: the weight is supported
  u(42 + 2) = 56.8 * 9.8;
  e.setKtv(Ktv);
  e.setFlexibilityGuess(x);
  e.setInput(u);
  e.setMeasurementInput(u);
  e.setMeasurement(Vector::Zero(6));
  Vector r = e.getFlexibilityVector();
  for(int i = 0; i < 2; ++i)
    for(int j = 0; j < 3; ++j)
      for(int k = 0; k < 2; ++k)
      {
        double w = k ? t[i](j) : f[i](j), l = k ? lt(j) : lf(j);
        std::string s = std::string(k ? "torque " : "force ") + std::to_string(i) + " " + std::to_string(j);
        if(on && (k == 1) == torque && j == axis)
        {
          if(w > l) w = l;
          if(w < -l) w = -l;
        }
        // the linear velocity is not exactly null, in double
        sx::near(r(12 + 6 * i + 3 * k + j), w, 1e-6, s);
      }
  sx::eqm(e.getEKF().getEstimatedState(1), r, "state of the filter");
}
// switched off, the estimate is null and nothing is estimated
SX_SCENARIO(off)
{
  sx_mode_native_concrete(1);
  sx_abs_fork(1);
  Config c(sx_choice("contacts", 3), sx_choice("options", 5));
  Est e(0.0625);
  c.apply(e);
  e.setLimitOn(false);
  Vector x = number(35, 3, 0.015625), u = someInput(c.n), w = 0.5 * someInput(c.n), y = sx::vec("y", c.size());
  e.setFlexibilityGuess(x);
  bool no = false, yes = true;
  e.setInput(u);
  e.setMeasurementInput(w);
  e.setMeasurement(y);
  e.setOn(no);
  sx::eqm(e.getMomentaDotFromForces(), Vector::Zero(6), "no derivative of the momenta from the forces");
  sx::eqm(e.getMomentaDotFromKinematics(), Vector::Zero(6), "no derivative of the momenta from the motion");
  sx::eqm(e.getFlexibilityVector(), Vector::Zero(35), "null estimate");
  sx::eqm(e.getFlexibility(), Matrix4::Identity(), "null flexibility");
  sx::eqm(e.getFlexibilityCovariance(), defaultQ(c.unmodeled, c.bias, c.absolute), "covariance");
  if(c.n) sx::eqm(e.getForcesAndMoments(), Vector::Zero(6 * c.n), "null contact wrenches");
  // and then the estimation starts from there
  e.setOn(yes);
  Oracle o(c, 0.0625, Vector::Zero(35), e);
  Vector n = regulated(o.step(y, u, w, 0));
  e.setInput(u);
  e.setMeasurementInput(w);
  e.setMeasurement(y);
  sx::eqm(e.getFlexibilityVector(), n, "estimate");
}
// invalid measurements leave the estimate as it is
SX_SCENARIO(invalid)
{
  sx_mode_native_concrete(1);
  sx_abs_fork(1);
  Config c(1 + sx_choice("contacts", 2), sx_choice("options", 5));
  Est e(0.0625);
  c.apply(e);
  e.setLimitOn(false);
  Vector x = number(35, 3, 0.015625), u = someInput(c.n), y = number(c.size(), 2, 0.5), bad = sx::vec("y", c.size());
  bad(sx_choice("component", c.size())) = std::numeric_limits<double>::quiet_NaN();
  e.setFlexibilityGuess(x);
  e.setInput(u);
  e.setMeasurementInput(u);
  if(sx_choice("at the first step", 2))
  {
    e.setMeasurement(bad);
    sx::eqm(e.getFlexibilityVector(), x, "the guess");
    return;
  }
  Oracle o(c, 0.0625, x, e);
  Vector n = regulated(o.step(y, u, u, 0));
  e.setMeasurement(y);
  sx::eqm(e.getFlexibilityVector(), n, "estimate");
  Matrix R = e.getMeasurementNoiseCovariance();
  e.setMeasurementInput(u);
  e.setMeasurement(bad);
  sx::eqm(e.getFlexibilityVector(), n, "the last valid estimate");
  sx::eqm(e.getEKF().getEstimatedState(2), n, "state of the filter");
  sx::eqm(e.getFlexibilityCovariance(), defaultQ(c.unmodeled, c.bias, c.absolute), "covariance");
  sx::eqm(e.getMeasurementNoiseCovariance(), R, "measurement covariance");
}
// the parameters of the model
SX_SCENARIO(model)
{
  sx_mode_native_concrete(1);
  Est e(0.0625);
  Sys f(0.0625);
  int n = sx_choice("contacts", 3);
  Vector x = number(35, 3, 0.015625), u = someInput(n);
  for(int i = 0; i < 3; ++i) x(6 + i) = sx::var("v" + std::to_string(i), -10, 10);
  bool ropes = n > 0 && sx_choice("ropes", 2);
  e.setContactsNumber(n);
  f.setContactsNumber(n);
  M3 K[4];
  for(int i = 0; i < 4; ++i) K[i] = M3(sx::mat("K" + std::to_string(i), 3, 3));
  if(ropes)
  {
    e.setContactModel(Est::contactModel::pendulum);
    f.setContactModel(Sys::contactModel::pendulum);
    e.setKfeRopes(K[0]);
    e.setKfvRopes(K[1]);
    e.setKteRopes(K[2]);
    e.setKtvRopes(K[3]);
    e.setPe(V3(0.5, 0.25, 2));
    f.setKfeRopes(K[0]);
    f.setKfvRopes(K[1]);
    f.setKteRopes(K[2]);
    f.setKtvRopes(K[3]);
    f.setPe(V3(0.5, 0.25, 2));
  }
  else
  {
    e.setContactModel(Est::contactModel::elasticContact);
    f.setContactModel(Sys::contactModel::elasticContact);
    e.setKfe(K[0]);
    e.setKfv(K[1]);
    e.setKte(K[2]);
    e.setKtv(K[3]);
    f.setKfe(K[0]);
    f.setKfv(K[1]);
    f.setKte(K[2]);
    f.setKtv(K[3]);
    sx::eqm(e.getKfe(), K[0], "linear stiffness");
    sx::eqm(e.getKfv(), K[1], "linear damping");
    sx::eqm(e.getKte(), K[2], "angular stiffness");
    sx::eqm(e.getKtv(), K[3], "angular damping");
  }
  double m = 48;
  bool heavy = sx_choice("mass set", 2);
  if(heavy)
  {
    e.setRobotMass(m);
    f.setRobotMass(m);
  }
  sx::eq(e.getRobotMass(), heavy ? m : 56.8, "mass");
  e.setFlexibilityGuess(x);
  e.setInput(u);
  if(sx_choice("quantity", 2))
  {
    sx::eqm(e.getFunctor().getForcesAndMoments(x, u), f.getForcesAndMoments(x, u), "contact wrenches");
    sx::eqm(e.getPrediction(), f.stateDynamics(x, u, 0), "prediction");
  }
  else
  {
    for(int i = 6; i < 9; ++i) x(i) = 1;
    e.setFlexibilityGuess(x);
    sx::eqm(e.computeAccelerations(), f.computeAccelerations(x, u), "accelerations");
    sx::eqm(e.getMomentaDotFromForces(), f.getMomentaDotFromForces(x, u), "derivative of the momenta from the forces");
    sx::eqm(e.getMomentaDotFromKinematics(), f.getMomentaDotFromKinematics(x, u), "derivative of the momenta from the motion");
  }
}
