// KineticsObserver: an iteration is a step of the extended Kalman filter on its own model.
#include "p_kobs_run.hpp"
struct Step : Obs
{
  Step(unsigned c, unsigned n) : Obs(c, n) {}
  void connect(ExtendedKalmanFilter & e)
  {
    e.setFunctor(this);
    e.setStateArithmetics(this);
  }
};
static double plus(double a, bool with) { return with ? a + sx::var("t", -0.0625, 0.0625) : a; }
SX_SCENARIO(step)
{
  sx_mode_native_concrete(1);
  sx_abs_fork(1);
  const int C = 1 + sx_choice("contacts", 2);
  int options = sx_choice("options", 4), before = sx_choice("previous iteration", 2), which = sx_choice("unknown signal", 4);
  bool imu = options != 2, pose = options & 2;
  if((which == 0 || which == 1) && !imu) return;
  if(which == 3 && !pose) return;
  Step o(C, 1);
  o.setWithGyroBias(options & 1);
  o.setWithUnmodeledWrench(options & 2);
  start(o, C);
  Vector dx(o.getStateCovarianceMat().rows());
  for(int i = 0; i < dx.size(); ++i) dx(i) = (1 + i % 3) / 1024.;
  if(sx_choice("step given", 2)) o.setFiniteDifferenceStep(dx);
  else dx.setConstant(1e-6);
  if(before) concreteIteration(o, C, 1, true, options & 1);
  bool accelerations = sx_choice("with accelerations", 2);
  if(accelerations) o.setWithAccelerationEstimation(true);
  Vector3 acc(0.5, 1, plus(9, which == 0)), gyr(plus(0.25, which == 1), 0, 1);
  Vector6 w;
  w << 1, 2, plus(16, which == 2), 0.5, 0.25, -0.125;
  Motion m = someMotion(1);
  if(which == 3) m.p(1) = plus(m.p(1), true);
  auto give = [&]()
  {
    body(o);
    if(imu) o.setIMU(acc, gyr, someMotion(2).kin(2), 0);
    for(int i = 0; i < C; ++i)
    {
      if(i == 0) o.updateContactWithWrenchSensor(w, someMotion(i).kin(1), i);
      else o.updateContactWithNoSensor(someMotion(i).kin(1), i);
    }
    if(pose) o.setAbsolutePoseSensor(m.kin(0));
  };
  give();
  Vector y = o.getMeasurementVector(), x0 = o.getCurrentStateVector();
  long k = o.getStateVectorTimeIndex();
  sx::eqi(k, before, "time before the step");
  Matrix P0 = o.getStateCovarianceMat(), Q = o.getEKF().getQ();
  Vector x = o.update();
  Matrix R = o.getEKF().getR(), A0 = o.getEKF().getA(), C0 = o.getEKF().getC(), P1 = o.getStateCovarianceMat();
  sx::eqi(o.getStateVectorTimeIndex(), k + 1, "time after the step");
  sx::eqm(o.getCurrentStateVector(), x, "estimate kept");
  sx::eqm(o.getEKF().getCurrentEstimatedState(), x, "state of the filter");
  sx::eqm(o.getEKF().getQ(), Q, "process covariance kept");
  sx::eqm(o.getKinematics().toVector(KineticsObserver::flagsStateKine), x.segment(o.kineIndex(), 13), "kinematics of the estimate");
  for(int i = 0; i < C; ++i)
  {
    sx::eqm(o.getContactWrench(i), x.segment(o.contactWrenchIndex(i), 6), "wrench of the estimate");
    sx::eqm(o.getContactPosition(i).position(), x.segment(o.contactPosIndex(i), 3), "contact of the estimate");
  }
  Kin kin = o.getKinematics();
  sx::yes(kin.linAcc.isSet() == accelerations && kin.angAcc.isSet() == accelerations, "accelerations estimated if asked");
  if(accelerations)
  {
    Kin a = o.estimateAccelerations();
    sx::eqm(kin.linAcc(), a.linAcc(), "linear acceleration of the estimate");
    sx::eqm(kin.angAcc(), a.angAcc(), "angular acceleration of the estimate");
  }
  // nothing new: nothing changes
  sx::eqm(o.update(), x, "no new data, same estimate");
  sx::eqi(o.getStateVectorTimeIndex(), k + 1, "no new data, same time");
  // the same signals again, for the model of the observer, one step later
  give();
  ++k;
  ExtendedKalmanFilter e(x0.size(), dx.size(), y.size(), R.rows(), 0, false, false);
  o.connect(e);
  e.setState(x0, k);
  e.setStateCovariance(P0);
  e.setQ(Q);
  e.setR(R);
  e.setMeasurement(y, k + 1);
  Matrix A = e.getAMatrixFD(dx), Cm = e.getCMatrixFD(dx);
  e.setA(A);
  e.setC(Cm);
  Vector n = e.getEstimatedState(k + 1);
  sx::eqm(A0, A, "state Jacobian");
  sx::eqm(C0, Cm, "measurement Jacobian");
  sx::eqm(x, n, "estimate");
  sx::eqm(P1, e.getStateCovariance(), "covariance");
}
// without any signal the estimate is the prediction of the model
SX_SCENARIO(without_signals)
{
  sx_mode_native_concrete(1);
  sx_abs_fork(1);
  const int C = 1 + sx_choice("contacts", 2);
  Step o(C, 1);
  start(o, C);
  int before = sx_choice("previous iterations", 3);
  for(int i = 0; i < before; ++i) concreteIteration(o, C, 1, true, i);
  body(o);
  o.setMass(4); // the model is another one than before
  bool accelerations = sx_choice("with accelerations", 2);
  o.setWithAccelerationEstimation(accelerations);
  Matrix P0 = o.getStateCovarianceMat(), Q = o.getEKF().getQ();
  int at = sx_choice("unknown variance", 3) * 7;
  P0(at, at) = plus(P0(at, at), true);
  o.setStateCovarianceMat(P0);
  for(int i = 0; i < C; ++i) o.updateContactWithNoSensor(someMotion(i).kin(1), i);
  Vector x = o.getCurrentStateVector(), p = o.dyn(x);
  ExtendedKalmanFilter e(x.size(), P0.rows(), 0, 0, 0, false, false);
  o.connect(e);
  e.setState(x, before);
  Matrix A = e.getAMatrixFD(Vector::Constant(P0.rows(), 1e-6));
  sx::eqi(o.getMeasurementSize(), 0, "no measurement");
  sx::eqm(o.update(), p, "estimate without signal");
  sx::eqm(o.getCurrentStateVector(), p, "estimate kept without signal");
  sx::eqi(o.getStateVectorTimeIndex(), before + 1, "time");
  sx::eqm(o.getEKF().getA(), A, "state Jacobian without signal");
  Kin kin = o.getKinematics();
  sx::eqm(kin.toVector(KineticsObserver::flagsStateKine), p.segment(o.kineIndex(), 13), "kinematics of the prediction");
  if(accelerations)
  {
    Kin a = o.estimateAccelerations();
    sx::eqm(kin.linAcc(), a.linAcc(), "linear acceleration of the prediction");
    sx::eqm(kin.angAcc(), a.angAcc(), "angular acceleration of the prediction");
  }
  Matrix P = A * (P0 * A.transpose()), S = Q + P, T = (S + S.transpose()) * 0.5;
  sx::eqm(o.getStateCovarianceMat(), T, "covariance without signal");
}
