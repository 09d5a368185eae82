// KineticsObserver: rigid-body dynamics, contact wrenches, predicted measurements, inputs given with or without their derivatives.
#include "p_kobs.hpp"
#include <state-observation/noise/noise-base.hpp>
static V3 gravity() { return V3(0, 0, 9.8); }
struct Noise : NoiseBase
{
  double a;
  Noise(double a) : a(a) {}
  virtual Vector getNoisy(const Vector & v)
  {
    Vector r = v;
    for(int i = 0; i < r.size(); ++i) r(i) += a * (i + 1);
    return r;
  }
};
struct Body // inputs of the dynamics, in the local frame
{
  double m;
  V3 c, cd, cdd, sigma, sigmad, f, t;
  M3 J, I, Id; // J: inertia at the center of mass
  void com(const std::string & n)
  {
    c = sx::vec3(n + "c");
    cd = sx::vec3(n + "cd");
    cdd = sx::vec3(n + "cdd");
  }
  static Body simple() // a unit sphere centered on the frame: no angular acceleration without a torque
  {
    Body b;
    b.m = 2;
    b.c = b.cd = b.cdd = b.sigma = b.sigmad = b.f = b.t = V3::Zero();
    b.I = b.J = M3::Identity();
    b.Id = M3::Zero();
    return b;
  }
  static Body any()
  {
    Body b;
    b.m = sx::var("m");
    sx::assumeLt(0.01, b.m);
    b.com("");
    b.sigma = sx::vec3("sg");
    b.sigmad = sx::vec3("sgd");
    b.f = sx::vec3("addf");
    b.t = sx::vec3("addt");
    b.J = sx::sym("J", 3);
    b.Id = sx::sym("Id", 3);
    // positive definite
    sx::assumeLt(0.01, b.J(0, 0));
    sx::assumeLt(0.01, b.J(0, 0) * b.J(1, 1) - b.J(0, 1) * b.J(0, 1));
    sx::assumeLt(0.001, b.J(0, 0) * (b.J(1, 1) * b.J(2, 2) - b.J(1, 2) * b.J(1, 2)) - b.J(0, 1) * (b.J(0, 1) * b.J(2, 2) - b.J(1, 2) * b.J(0, 2))
                            + b.J(0, 2) * (b.J(0, 1) * b.J(1, 2) - b.J(1, 1) * b.J(0, 2)));
    b.inertiaAtTheOrigin();
    return b;
  }
  void inertiaAtTheOrigin()
  {
    M3 s = mul(skew(c), skew(c));
    for(int i = 0; i < 3; ++i)
      for(int j = 0; j < 3; ++j) I(i, j) = J(i, j) - m * s(i, j);
  }
  void give(KineticsObserver & o) const
  {
    o.setMass(m);
    o.setCenterOfMass(c, cd, cdd);
    o.setInertiaMatrix(I, Id);
    o.setAngularMomentum(sigma, sigmad);
    o.setAdditionalWrench(f, t);
  }
  // accelerations of the frame, for the total wrench in the local frame
  void accelerations(const Motion & s, const V3 & F, const V3 & T, V3 & a, V3 & al) const
  {
    M3 R = quatToMat(s.q), Rt = tr(R);
    V3 W = mulv(Rt, s.w);
    // acceleration of the center of mass due to its relative motion and to the angular velocity
    V3 rel = cdd + 2 * cross(W, cd) + cross(W, cross(W, c));
    V3 right = T - mulv(Id, W) - sigmad - cross(W, V3(mulv(I, W) + sigma)) - cross(c, V3(F - m * rel));
    M3 inv = J.inverse();
    V3 alLocal = mulv(inv, right);
    al = mulv(R, alLocal);
    a = mulv(R, V3(F / m - rel - cross(alLocal, c))) - gravity();
  }
};
struct Contact
{
  Motion local; // kinematics in the local frame
  Pose rest;
  Vector w;
  M3 kl, dl, ka, da;
};
struct Sys
{
  Motion s; // kinematics of the frame
  V3 bias;
  Vector unmodeled;
  std::vector<Contact> contacts;
  Vector vec(KineticsObserver & o) const
  {
    Vector x = Vector::Zero(o.getStateSize());
    x.segment(o.posIndex(), 3) = s.p;
    x.segment(o.oriIndex(), 4) = s.q;
    x.segment(o.linVelIndex(), 3) = s.v;
    x.segment(o.angVelIndex(), 3) = s.w;
    x.segment(o.gyroBiasIndex(0), 3) = bias;
    x.segment(o.unmodeledWrenchIndex(), 6) = unmodeled;
    for(size_t i = 0; i < contacts.size(); ++i)
    {
      x.segment(o.contactPosIndex(i), 3) = contacts[i].rest.p;
      x.segment(o.contactOriIndex(i), 4) = contacts[i].rest.q;
      x.segment(o.contactWrenchIndex(i), 6) = contacts[i].w;
    }
    return x;
  }
  void wrench(const Body & b, V3 & F, V3 & T) const
  {
    F = b.f + unmodeled.head(3);
    T = b.t + unmodeled.tail(3);
    for(auto & c : contacts)
    {
      M3 R = quatToMat(c.local.q);
      V3 f = mulv(R, V3(c.w.head(3)));
      F += f;
      T += mulv(R, V3(c.w.tail(3))) + cross(c.local.p, f);
    }
  }
};
static M3 diagonal(double a, double b, double c)
{
  M3 m = M3::Zero();
  m(0, 0) = a;
  m(1, 1) = b;
  m(2, 2) = c;
  return m;
}
static Sys sys(int contacts, bool symbolicContacts)
{
  Sys y;
  y.s = motion("s");
  y.bias = sx::vec3("bias");
  y.unmodeled = sx::vec("um", 6);
  for(int i = 0; i < contacts; ++i)
  {
    std::string n = "c" + std::to_string(i);
    Contact c;
    c.local = symbolicContacts ? motion(n) : someMotion(i + 1);
    c.rest.p = sx::vec3(n + "rp");
    c.rest.q = unitQuat(n + "rq");
    c.w = sx::vec(n + "f", 6);
    c.kl = diagonal(100 + i, 200, 300);
    c.dl = diagonal(10 + i, 20, 30);
    c.ka = diagonal(40 + i, 50, 60);
    c.da = diagonal(4 + i, 5, 6);
    c.kl(0, 1) = 8;
    c.dl(1, 2) = 4;
    c.ka(2, 0) = 16;
    c.da(0, 2) = 2;
    y.contacts.push_back(c);
  }
  return y;
}
static void start(KineticsObserver & o, int contacts)
{
  o.setStateKinematics(someMotion(1).kin(1));
  for(int i = 0; i < contacts; ++i) o.addContact(someMotion(i).kin(0), i);
}
// estimated accelerations
static void accelerations(bool withContacts)
{
  int n = withContacts ? 2 : 0;
  KineticsObserver o(2, 1);
  o.setSamplingTime(0.25);
  start(o, n);
  Body b = Body::any();
  if(withContacts)
  {
    Body c = Body::simple();
    c.f = b.f;
    c.t = b.t;
    b = c;
  }
  Sys y = sys(n, true);
  b.give(o);
  for(int i = 0; i < n; ++i) o.updateContactWithNoSensor(y.contacts[i].local.kin(1), i);
  o.setStateVector(y.vec(o));
  V3 F, T, a, al;
  y.wrench(b, F, T);
  b.accelerations(y.s, F, T, a, al);
  Kin k = o.estimateAccelerations();
  sx::eqm(k.angAcc(), al, "angular acceleration");
  sx::eqm(k.linAcc(), a, "linear acceleration");
  sx::eqm(k.position(), y.s.p, "position");
  sx::eqm(k.orientation.toVector4(), y.s.q, "orientation");
  sx::eqm(k.linVel(), y.s.v, "linear velocity");
  sx::eqm(k.angVel(), y.s.w, "angular velocity");
  Kin g = o.getKinematics();
  sx::eqm(g.linAcc(), a, "linear acceleration kept");
  sx::eqm(g.angAcc(), al, "angular acceleration kept");
}
SX_SCENARIO(newton_euler) { accelerations(false); }
SX_SCENARIO(newton_euler_contacts) { accelerations(true); }
// The predictions are observed while the filter runs: it is given constant answers instead of them.
struct Hooked : KineticsObserver
{
  Hooked(unsigned c, unsigned n) : KineticsObserver(c, n), noiseP(0), noiseM(0), dynamics(0), measures(0) {}
  Vector x; // state to predict from
  Vector next, meas; // expected predictions
  Vector answer; // constant measurement given to the filter
  NoiseBase *noiseP, *noiseM;
  int dynamics, measures;
  virtual Vector stateDynamics(const Vector & xk, const Vector & u, TimeIndex k)
  {
    if(next.size() && !dynamics++)
    {
      setProcessNoise(noiseP);
      sx::eqm(KineticsObserver::stateDynamics(x, u, k), next, "next state");
      resetProcessNoise();
    }
    return xk;
  }
  virtual Vector measureDynamics(const Vector &, const Vector & u, TimeIndex k)
  {
    if(meas.size() && !measures++)
    {
      setMeasurementNoise(noiseM);
      sx::eqm(KineticsObserver::measureDynamics(x, u, k), meas, "measurement");
      resetMeasurementNoise();
    }
    return answer;
  }
  void run()
  {
    answer = getMeasurementVector();
    update();
    if(next.size()) sx::yes(dynamics > 0, "the dynamics were used");
    if(meas.size()) sx::yes(measures > 0, "the measurement model was used");
  }
};
static void moderate(KineticsObserver & o)
{
  long n = o.getStateCovarianceMat().rows();
  o.setStateCovarianceMat(Matrix::Identity(n, n) * 0.25);
  o.setProcessNoiseCovarianceMat(Matrix::Identity(n, n) * 0.125);
  o.setIMUDefaultCovarianceMatrix(Matrix3(Matrix3::Identity() * 0.5), Matrix3(Matrix3::Identity() * 0.25));
  o.setContactWrenchSensorDefaultCovarianceMatrix(Matrix6(Matrix6::Identity() * 2));
  o.setAbsolutePoseSensorDefaultCovarianceMatrix(Matrix6(Matrix6::Identity() * 0.5));
}
static Vector noisy(Vector e, double noise)
{
  for(int i = 0; i < e.size(); ++i) e(i) += noise * (i + 1);
  return e;
}
// kinematics after one period, by the integration checked in C09
static Vector integrated(const Motion & s, double dt)
{
  Kin k = s.kin(2);
  k.integrate(dt);
  return k.toVector(KineticsObserver::flagsStateKine);
}
SX_SCENARIO(prediction)
{
  sx_mode_native_concrete(1);
  Hooked o(1, 1);
  double dt = 0.25;
  o.setSamplingTime(dt);
  sx::eq(o.getSamplingTime(), dt, "sampling time");
  start(o, 0);
  moderate(o);
  Body b = Body::simple();
  switch(sx_choice("body", 3))
  {
    case 0: b.f = sx::vec3("addf"); break;
    case 1: b.t = sx::vec3("addt"); break;
    default: // moving center of mass, moving limbs
      b.com("");
      b.m = 0.5;
      b.sigmad = sx::vec3("sgd");
      b.c = V3(0, 0.5, 0);
      b.cd = V3::Zero();
      b.inertiaAtTheOrigin();
  }
  b.give(o);
  o.setAbsolutePoseSensor(someMotion(1).kin(0));
  Sys y = sys(0, true);
  V3 F, T;
  y.wrench(b, F, T);
  b.accelerations(y.s, F, T, y.s.a, y.s.al);
  V3 d = y.s.w * dt + y.s.al * (dt * dt / 2);
  sx::assumeLt(1e-6, d.squaredNorm());
  o.x = y.vec(o);
  Vector e = o.x;
  e.segment(o.kineIndex(), 13) = integrated(y.s, dt);
  o.next = e;
  Noise p(sx::var("noise"));
  if(sx_choice("noise", 2))
  {
    o.noiseP = &p;
    o.next = noisy(e, p.a);
  }
  o.run();
}
static V3 relativeVec(const V4 & q, const V4 & rest)
{
  V4 r = quatMul(q, quatConj(rest));
  sx::assumeLt(0.001, r(3)); // the two quaternions of the same rotation would give opposite torques
  return V3(r(0), r(1), r(2));
}
static Vector contactWrench(const Contact & c, const Motion & s)
{
  M3 R = quatToMat(s.q), Rc = mul(R, quatToMat(c.local.q)), Rt = tr(Rc);
  V3 lever = mulv(R, c.local.p);
  V3 p = s.p + lever, v = s.v + cross(s.w, lever) + mulv(R, c.local.v), w = s.w + mulv(R, c.local.w);
  Vector e(6);
  e.head(3) = mulv(Rt, V3(mulv(c.kl, V3(c.rest.p - p)) - mulv(c.dl, v)));
  e.tail(3) = -mulv(Rt, V3(0.5 * mulv(c.ka, relativeVec(quatMul(s.q, c.local.q), c.rest.q)) + mulv(c.da, w)));
  return e;
}
static M3 scaled(double a) { return diagonal(a, a, a); }
SX_SCENARIO(contact_wrenches)
{
  sx_mode_native_concrete(1);
  Hooked o(2, 1);
  double dt = 0.25;
  o.setSamplingTime(dt);
  o.setStateKinematics(someMotion(1).kin(1));
  int n = 1 + sx_choice("two contacts", 2), what = sx_choice("what", 4);
  Sys y = sys(n, false);
  // contacts with their own stiffness and damping, or with default ones
  int defaults = (what == 3) ? 1 + sx_choice("default parameters", 4) : 0;
  for(int i = 0; i < n; ++i)
  {
    Contact & c = y.contacts[i];
    M3 z = M3::Zero();
    M3 kl = c.kl, dl = c.dl, ka = c.ka, da = c.da;
    if(defaults == 1)
    {
      kl = z;
      c.kl = scaled(KineticsObserver::linearStiffnessDefault);
    }
    if(defaults == 2)
    {
      dl = z;
      c.dl = scaled(KineticsObserver::linearDampingDefault);
    }
    if(defaults == 3)
    {
      ka = z;
      c.ka = scaled(KineticsObserver::angularStiffnessDefault);
    }
    if(defaults == 4)
    {
      da = z;
      c.da = scaled(KineticsObserver::angularDampingDefault);
    }
    if(i == 0) o.addContact(someMotion(i).kin(0), i, kl, dl, ka, da);
    else o.addContact(someMotion(i).kin(0), Matrix12(Matrix12::Identity()), Matrix12(Matrix12::Identity()), i, kl, dl, ka, da);
  }
  moderate(o);
  Body b = Body::simple();
  // the frame falls freely without rotating, or without moving: the effect of the wrenches is checked elsewhere
  y.unmodeled.setZero();
  for(auto & c : y.contacts) c.w.setZero();
  if(what == 0) y.s.w.setZero();
  if(what == 1)
  {
    y.s.v.setZero();
    y.s.p = V3(1, 2, 3);
    y.s.q = someQuat(1);
    sx::assumeLt(1e-6, y.s.w.squaredNorm());
  }
  if(what > 1)
  {
    y.s.w.setZero();
    y.s.v.setZero();
  }
  if(what == 2)
  {
    y.s.q = someQuat(3);
    for(int i = 0; i < n; ++i) y.contacts[i].local = motion("local" + std::to_string(i));
  }
  if(what == 3)
  {
    y.s.q = someQuat(3);
    for(auto & c : y.contacts) c.rest.q = quatMul(quatConj(someQuat(1)), quatMul(y.s.q, c.local.q));
  }
  b.give(o);
  for(int i = 0; i < n; ++i) o.updateContactWithNoSensor(y.contacts[i].local.kin(1), i);
  o.setAbsolutePoseSensor(someMotion(1).kin(0));
  // motion after one period
  Motion s = y.s;
  s.a = -gravity();
  s.p += s.v * dt + s.a * (dt * dt / 2);
  s.v += s.a * dt;
  if(what == 1)
  {
    s.q = quatMul(expQuat(V3(s.w * dt)), s.q);
  }
  o.x = y.vec(o);
  o.next = o.x;
  o.next.segment(o.posIndex(), 3) = s.p;
  o.next.segment(o.oriIndex(), 4) = s.q;
  o.next.segment(o.linVelIndex(), 3) = s.v;
  o.next.segment(o.angVelIndex(), 3) = s.w;
  for(int i = 0; i < n; ++i) o.next.segment(o.contactWrenchIndex(i), 6) = contactWrench(y.contacts[i], s);
  o.run();
}
// signals of the sensors
SX_SCENARIO(signals)
{
  sx_mode_native_concrete(1);
  int what = sx_choice("what", 5);
  Hooked o(2, 1);
  o.setSamplingTime(0.25);
  int n = (what == 2 || what == 3) ? 2 : 0;
  start(o, n);
  moderate(o);
  Body b = Body::simple();
  Sys y = sys(n, false);
  b.f = sx::vec3("addf");
  b.t = sx::vec3("addt");
  b.give(o);
  for(int i = 0; i < n; ++i)
  {
    Vector6 w;
    w << 1, 2, 3, 4, 5, 6 + i;
    if(what == 2 || i == 1) o.updateContactWithWrenchSensor(w, y.contacts[i].local.kin(1), i);
    else o.updateContactWithNoSensor(y.contacts[i].local.kin(1), i);
  }
  bool gyroBias = true;
  Motion imu = motion("imu");
  Vector3 acc(0.5, 1, 9), gyr(0.25, 0, 1);
  if(what != 3) o.setIMU(acc, gyr, imu.kin(2));
  if(what != 0) o.setAbsolutePoseSensor(someMotion(1).kin(0));
  if(what == 4) o.setWithGyroBias(gyroBias = false);
  V3 F, T;
  y.wrench(b, F, T);
  b.accelerations(y.s, F, T, y.s.a, y.s.al);
  std::vector<Vector> parts;
  if(what != 3)
  {
    M3 R = quatToMat(y.s.q), Rt = tr(mul(R, quatToMat(imu.q)));
    V3 lever = mulv(R, imu.p);
    V3 a = y.s.a + cross(y.s.al, lever) + cross(y.s.w, cross(y.s.w, lever)) + 2 * cross(y.s.w, mulv(R, imu.v)) + mulv(R, imu.a);
    V3 w = y.s.w + mulv(R, imu.w);
    parts.push_back(mulv(Rt, V3(a + gravity())));
    V3 g = mulv(Rt, w);
    if(gyroBias) g += y.bias;
    parts.push_back(g);
  }
  for(int i = 0; i < n; ++i)
    if(what == 2 || i == 1) parts.push_back(y.contacts[i].w);
  if(what != 0)
  {
    parts.push_back(y.s.p);
    parts.push_back(y.s.q);
  }
  long m = 0;
  for(auto & p : parts) m += p.size();
  o.meas.resize(m);
  m = 0;
  for(auto & p : parts)
  {
    o.meas.segment(m, p.size()) = p;
    m += p.size();
  }
  Noise noise(sx::var("noise"));
  if(what == 1)
  {
    o.noiseM = &noise;
    o.meas = noisy(o.meas, noise.a);
  }
  o.x = y.vec(o);
  o.run();
}
static void concreteRun(Hooked & o)
{
  o.setAbsolutePoseSensor(someMotion(1).kin(0));
  o.run();
}
// inputs given without their derivatives: finite differences with the previous values
SX_SCENARIO(derivatives)
{
  sx_mode_native_concrete(1);
  Hooked o(1, 1);
  double dt = 0.25;
  o.setSamplingTime(dt);
  start(o, 0);
  moderate(o);
  int what = sx_choice("what", 7);
  int missed = sx_choice("missed iteration", 2);
  double T = dt * (1 + missed);
  Body a = Body::simple(), b = Body::simple();
  bool com = what == 0 || what == 1 || what == 6;
  b.J = diagonal(2, 4, 8);
  if(com)
  {
    a.com("before");
    b.com("");
  }
  else
  {
    a.I = sx::sym("before", 3);
    a.Id = sx::sym("befored", 3);
    a.sigma = sx::vec3("sb");
    a.sigmad = sx::vec3("sbd");
    b.sigma = sx::vec3("s");
    b.sigmad = sx::vec3("sd");
    b.Id = sx::sym("d", 3);
  }
  b.inertiaAtTheOrigin();
  if(what == 6) // the position only, since the beginning
  {
    o.setMass(b.m);
    V3 first = sx::vec3("first");
    o.setCenterOfMass(first);
    concreteRun(o);
    o.setCenterOfMass(a.c);
    concreteRun(o);
    a.cd = (a.c - first) / dt;
  }
  else
  {
    a.give(o);
    concreteRun(o);
  }
  if(missed) concreteRun(o);
  Vector6 Iv, Idv;
  Iv << b.I(0, 0), b.I(1, 1), b.I(2, 2), b.I(0, 1), b.I(0, 2), b.I(1, 2);
  Idv << b.Id(0, 0), b.Id(1, 1), b.Id(2, 2), b.Id(0, 1), b.Id(0, 2), b.Id(1, 2);
  if(what == 0)
  {
    o.setCenterOfMass(b.c, b.cd);
    b.cdd = (b.cd - a.cd) / T;
  }
  else if(com)
  {
    o.setCenterOfMass(b.c);
    b.cd = (b.c - a.c) / T;
    b.cdd = (b.cd - a.cd) / T;
  }
  else o.setCenterOfMass(b.c, b.cd, b.cdd);
  if(what == 2)
  {
    o.setInertiaMatrix(b.I);
    b.Id = (b.I - a.I) / T;
  }
  else if(what == 3) o.setInertiaMatrix(Iv, Idv);
  else if(what == 4)
  {
    o.setInertiaMatrix(Iv);
    b.Id = (b.I - a.I) / T;
  }
  else o.setInertiaMatrix(b.I, b.Id);
  if(what == 5)
  {
    o.setAngularMomentum(b.sigma);
    b.sigmad = (b.sigma - a.sigma) / T;
  }
  else o.setAngularMomentum(b.sigma, b.sigmad);
  o.setMass(b.m);
  Sys y = sys(0, false);
  o.setStateVector(y.vec(o));
  V3 F, T3;
  y.wrench(b, F, T3);
  b.accelerations(y.s, F, T3, y.s.a, y.s.al);
  Kin k = o.estimateAccelerations();
  sx::eqm(k.angAcc(), y.s.al, "angular acceleration");
  sx::eqm(k.linAcc(), y.s.a, "linear acceleration");
}
// kinematics of the sensors given without their derivatives
static Kin partial(const Motion & m, int given)
{
  Kin k = m.kin(0);
  if(given & 1) k.linVel = m.v;
  if(given & 2) k.angVel = m.w;
  if(given & 4) k.linAcc = m.a;
  return k;
}
static Motion freeMotion(const std::string & n, int q)
{
  Motion m = motion(n);
  m.q = someQuat(q);
  m.al.setZero();
  return m;
}
static V3 rotationOver(const V4 & before, const V4 & after, double T)
{
  M3 R = mul(quatToMat(after), tr(quatToMat(before)));
  Eigen::AngleAxisd aa(R);
  return aa.axis() * (aa.angle() / T);
}
// motion after a period, of which only some derivatives are given
static Motion completed(const Motion & before, Motion m, int given, double T)
{
  if(!(given & 1)) m.v = (m.p - before.p) / T;
  if(!(given & 2)) m.w = rotationOver(before.q, m.q, T);
  if(!(given & 4)) m.a = (m.v - before.v) / T;
  return m;
}
static Motion completedAtFirst(Motion m, int given)
{
  if(!(given & 1)) m.v.setZero();
  if(!(given & 2)) m.w.setZero();
  if(!(given & 4)) m.a.setZero();
  return m;
}
SX_SCENARIO(imu_kinematics)
{
  sx_mode_native_concrete(1);
  Hooked o(1, 2);
  double dt = 0.25;
  o.setSamplingTime(dt);
  o.setWithGyroBias(false);
  start(o, 0);
  moderate(o);
  Body b = Body::simple();
  b.give(o);
  Vector3 acc(0.5, 1, 9), gyr(0.25, 0, 1);
  Matrix3 cov = Matrix3::Identity() * 0.25;
  int overload = sx_choice("overload", 2), n = sx_choice("imu", 2);
  auto give = [&](const Kin & k) {
    if(overload) o.setIMU(acc, gyr, cov, cov, k, n);
    else o.setIMU(acc, gyr, k, n);
  };
  int before = sx_choice("given before", 8), steps = sx_choice("iterations before", 3);
  Motion m = freeMotion("before", 1);
  int given = before;
  if(steps > 0)
  {
    if(steps == 1) concreteRun(o); // the IMU appears later
    give(partial(m, before));
    Motion p = completedAtFirst(m, before);
    concreteRun(o);
    if(steps == 2) concreteRun(o); // missed iteration
    given = sx_choice("given", 8);
    m = freeMotion("after", 0);
    give(partial(m, given));
    m = completed(p, m, given, steps == 2 ? 2 * dt : dt);
  }
  else
  {
    give(partial(m, before));
    m = completedAtFirst(m, before);
  }
  // a frame in free fall
  Sys y = sys(0, false);
  y.s.q = someQuat(2);
  y.s.w.setZero();
  y.unmodeled.setZero();
  M3 Rt = tr(quatToMat(m.q));
  o.meas.resize(6);
  o.meas.head(3) = mulv(Rt, m.a);
  o.meas.tail(3) = mulv(Rt, m.w);
  o.measures = 0;
  o.x = y.vec(o);
  o.run();
}
SX_SCENARIO(contact_kinematics)
{
  sx_mode_native_concrete(1);
  Hooked o(1, 1);
  double dt = 0.25;
  o.setSamplingTime(dt);
  o.setStateKinematics(someMotion(1).kin(1));
  Sys y = sys(1, false);
  Contact & c = y.contacts[0];
  int late = sx_choice("first iteration", 3);
  if(late == 1)
  {
    moderate(o);
    concreteRun(o);
  }
  if(late == 2) // another contact just before
  {
    o.addContact(someMotion(2).kin(0), 0);
    moderate(o);
    o.updateContactWithNoSensor(someMotion(2).kin(1), 0);
    concreteRun(o);
    o.removeContact(0);
  }
  o.addContact(someMotion(1).kin(0), 0, c.kl, c.dl, c.ka, c.da);
  moderate(o);
  Body b = Body::simple();
  b.give(o);
  int overload = sx_choice("overload", 3);
  Vector6 w;
  w << 1, 2, 3, 4, 5, 6;
  auto give = [&](const Kin & k) {
    if(overload == 0) o.updateContactWithNoSensor(k, 0);
    else if(overload == 1) o.updateContactWithWrenchSensor(w, k, 0);
    else o.updateContactWithWrenchSensor(w, Matrix6(Matrix6::Identity()), k, 0);
  };
  int before = sx_choice("given before", 4), given = before;
  Motion m = freeMotion("before", 1);
  give(partial(m, before));
  Motion p = completedAtFirst(m, before);
  if(sx_choice("second iteration", 2))
  {
    concreteRun(o);
    m = freeMotion("after", 0);
    given = sx_choice("given", 4);
    give(partial(m, given));
    m = completed(p, m, given, dt);
  }
  else m = p;
  o.setAbsolutePoseSensor(someMotion(1).kin(0));
  c.local = m;
  y.unmodeled.setZero();
  c.w.setZero();
  y.s.q = someQuat(3);
  c.rest.q = quatMul(y.s.q, m.q);
  y.s.w.setZero();
  Motion s = y.s;
  s.a = -gravity();
  s.p += s.v * dt + s.a * (dt * dt / 2);
  s.v += s.a * dt;
  o.x = y.vec(o);
  o.next = o.x;
  o.next.segment(o.posIndex(), 3) = s.p;
  o.next.segment(o.linVelIndex(), 3) = s.v;
  o.next.segment(o.contactWrenchIndex(0), 6) = contactWrench(c, s);
  o.dynamics = 0;
  o.run();
}
// kinematics of any other frame, accelerations computed at each estimation
SX_SCENARIO(other_frames)
{
  sx_mode_native_concrete(1);
  Hooked o(1, 1);
  o.setSamplingTime(0.25);
  start(o, 0);
  moderate(o);
  Body b = Body::simple();
  b.f = sx::vec3("addf");
  b.t = sx::vec3("addt");
  b.give(o);
  bool acc = sx_choice("accelerations", 2);
  if(acc) o.setWithAccelerationEstimation(true);
  concreteRun(o);
  Kin k = o.getKinematics();
  sx::yes(k.linAcc.isSet() == acc && k.angAcc.isSet() == acc, "accelerations computed when asked for only");
  Sys y = sys(0, false);
  if(acc)
  {
    Vector x = o.getCurrentStateVector();
    y.s.q = x.segment(o.oriIndex(), 4);
    y.s.w = x.segment(o.angVelIndex(), 3);
    y.unmodeled = x.segment(o.unmodeledWrenchIndex(), 6);
    V3 F, T;
    y.wrench(b, F, T);
    b.accelerations(y.s, F, T, y.s.a, y.s.al);
    sx::eqm(k.linAcc(), y.s.a, "linear acceleration");
    sx::eqm(k.angAcc(), y.s.al, "angular acceleration");
  }
  y.s = motion("s");
  o.setStateVector(y.vec(o));
  Motion l = motion("l");
  k = o.getKinematicsOf(l.kin(1));
  M3 R = quatToMat(y.s.q);
  V3 lever = mulv(R, l.p);
  sx::eqm(k.position(), V3(y.s.p + lever), "position");
  sx::eqm(k.orientation.toMatrix3(), mul(R, quatToMat(l.q)), "orientation");
  sx::eqm(k.linVel(), V3(y.s.v + cross(y.s.w, lever) + mulv(R, l.v)), "linear velocity");
  sx::eqm(k.angVel(), V3(y.s.w + mulv(R, l.w)), "angular velocity");
}
