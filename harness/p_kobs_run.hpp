// KineticsObserver brought to an iteration with concrete data.
#pragma once
#include "p_kobs.hpp"
static inline Kin contactPose(int i) { return someMotion(i).kin(0); }
static inline void start(KineticsObserver & o, int contacts)
{
  Motion b = someMotion(1);
  o.setSamplingTime(0.25);
  o.setStateKinematics(b.kin(1));
  for(int i = 0; i < contacts; ++i) o.addContact(contactPose(i), i);
  // moderate covariances: the default ones are not tractable in double precision
  long n = o.getStateCovarianceMat().rows();
  o.setStateCovarianceMat(Matrix::Identity(n, n) * 0.25);
  o.setProcessNoiseCovarianceMat(Matrix::Identity(n, n) * 0.125);
  o.setIMUDefaultCovarianceMatrix(Matrix3(Matrix3::Identity() * 0.5), Matrix3(Matrix3::Identity() * 0.25));
  o.setContactWrenchSensorDefaultCovarianceMatrix(Matrix6(Matrix6::Identity() * 2));
  o.setAbsolutePoseSensorDefaultCovarianceMatrix(Matrix6(Matrix6::Identity() * 0.5));
}
static inline void body(KineticsObserver & o)
{
  o.setMass(2);
  Matrix3 I = Matrix3::Identity() * 4;
  o.setInertiaMatrix(I, Matrix3::Zero());
  o.setCenterOfMass(Vector3(0.25, 0, 0.5), Vector3(0, 0.5, 0), Vector3::Zero());
  o.setAngularMomentum(Vector3::Zero(), Vector3::Zero());
}
// an iteration with concrete data, up to the estimation
static inline void concreteIteration(KineticsObserver & o, int contacts, int sensors, bool imu, bool pose)
{
  body(o);
  if(imu) o.setIMU(Vector3(0.5, 1, 9), Vector3(0.25, 0, 1), someMotion(2).kin(2), 0);
  for(int i = 0; i < contacts; ++i)
  {
    Vector6 w;
    w << 1, 2, 16 + i, 0.5, 0.25, -0.125;
    if((sensors >> i) & 1) o.updateContactWithWrenchSensor(w, someMotion(i).kin(1), i);
    else o.updateContactWithNoSensor(someMotion(i).kin(1), i);
  }
  if(pose) o.setAbsolutePoseSensor(someMotion(1).kin(0));
  Vector x = o.update();
  sx::eqm(o.getCurrentStateVector(), x, "returned state");
  sx::eqm(o.getEKF().getCurrentEstimatedState(), x, "estimate of the filter");
  sx::eqm(o.getKinematics().toVector(KineticsObserver::flagsStateKine), x.segment(o.kineIndex(), 13), "kinematics of the state");
}
