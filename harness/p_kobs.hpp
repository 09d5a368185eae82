// Shared by the harnesses of KineticsObserver.
#pragma once
#include "common.hpp"
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
#include <algorithm>
using namespace stateObservation;
using namespace ref;
typedef kine::Kinematics Kin;
// the functor interface is protected
struct Obs : KineticsObserver
{
  Obs(unsigned c, unsigned n) : KineticsObserver(c, n) {}
  Vector dyn(const Vector & x) { return stateDynamics(x, Vector(), 0); }
  Vector meas(const Vector & x, TimeIndex k) { return measureDynamics(x, Vector(), k); }
  void noises(NoiseBase * p, NoiseBase * m)
  {
    setProcessNoise(p);
    setMeasurementNoise(m);
  }
};
struct Pose
{
  V3 p;
  V4 q;
};
struct Motion : Pose
{
  V3 v, w, a, al;
  Kin kin(int level) const // 0: pose, 1: velocities, 2: accelerations
  {
    Kin k;
    k.position = p;
    k.orientation = Quaternion(q(3), q(0), q(1), q(2));
    if(level > 0)
    {
      k.linVel = v;
      k.angVel = w;
    }
    if(level > 1)
    {
      k.linAcc = a;
      k.angAcc = al;
    }
    return k;
  }
};
static inline Motion motion(const std::string & n)
{
  Motion m;
  m.p = sx::vec3(n + "p");
  m.q = unitQuat(n + "q");
  m.v = sx::vec3(n + "v");
  m.w = sx::vec3(n + "w");
  m.a = sx::vec3(n + "a");
  m.al = sx::vec3(n + "al");
  return m;
}
// rotations by exactly representable quaternions
static inline V4 someQuat(int i)
{
  switch(i % 4)
  {
    case 0: return V4(0, 0, 0, 1);
    case 1: return V4(0.5, 0.5, -0.5, 0.5);
    case 2: return V4(1, 0, 0, 0);
    default: return V4(0.5, -0.5, -0.5, -0.5);
  }
}
static inline Motion someMotion(int i)
{
  Motion m;
  m.p << 0.5 + i, -0.25 * i, 0.125;
  m.q = someQuat(i);
  m.v << 0.25, 0.5 * i, -0.125;
  m.w << -0.5, 0.25, 0.75 * i;
  m.a << 1.5, -0.25 * i, 0.5;
  m.al << 0.5, 0.25 * i, -1.25;
  return m;
}
