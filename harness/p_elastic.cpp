// Flexible robot on visco-elastic contacts or ropes: contact model, accelerations, momenta, dynamics, measurements, sizes, Jacobians.
#include "common.hpp"
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
#include <state-observation/noise/noise-base.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using namespace ref;
typedef IMUElasticLocalFrameDynamicalSystem Sys;
typedef Sys::contactModel Model;
struct Noise : NoiseBase
{
  double a;
  Noise(double a) : a(a) {}
  virtual Vector getNoisy(const Vector & v)
  {
    Vector r = v;
    for(int i = 0; i < r.size(); ++i) r(i) += a * (i + 1);
    return r;
  }
};
static V3 G() { return V3(0, 0, 9.8); }
static M3 mat3(const std::string & n) { return M3(sx::mat(n, 3, 3)); }
static V3 nonzero(const std::string & n)
{
  V3 v = sx::vec3(n);
  sx::assumeLt(1e-4, v.squaredNorm());
  return v;
}
struct Contact
{
  V3 p, o, v, w;
  M3 R;
  Contact() {}
  Contact(const std::string & n, bool rotated)
  {
    p = sx::vec3(n + "p");
    v = sx::vec3(n + "v");
    w = sx::vec3(n + "w");
    o.setZero();
    R.setIdentity();
    if(rotated)
    {
      o = nonzero(n + "o");
      R = expMat(o);
    }
  }
};
typedef std::vector<Contact> Contacts;
static Contacts contacts(int n, bool rotated)
{
  Contacts c;
  for(int i = 0; i < n; ++i) c.push_back(Contact("c" + std::to_string(i), rotated));
  return c;
}
struct State
{
  V3 p, o, v, w;
  V3 f[2], t[2], fm, tm;
  V3 bias, drift;
  State(const std::string & n, bool zeroOri)
  {
    p = sx::vec3(n + "p");
    if(zeroOri) o.setZero();
    else
      o = nonzero(n + "o");
    v = sx::vec3(n + "v");
    w = sx::vec3(n + "w");
    for(int i = 0; i < 2; ++i)
    {
      f[i] = sx::vec3(n + "f" + std::to_string(i));
      t[i] = sx::vec3(n + "t" + std::to_string(i));
    }
    fm = sx::vec3(n + "fm");
    tm = sx::vec3(n + "tm");
    bias.setZero();
    bias(0) = sx::var(n + "b0");
    bias(1) = sx::var(n + "b1");
    drift = sx::vec3(n + "d");
  }
  Vector vec() const
  {
    Vector x(35);
    x << p, o, v, w, f[0], t[0], f[1], t[1], fm, tm, bias(0), bias(1), drift;
    return x;
  }
};
struct Input
{
  V3 c, v, a, s, sd; // center of mass, internal angular momentum
  M3 I, Id;
  V3 ip, io, iv, iw, ia; // IMU
  V3 f, t;
  Input(const std::string & n)
  {
    c = sx::vec3(n + "c");
    v = sx::vec3(n + "v");
    a = sx::vec3(n + "a");
    s = sx::vec3(n + "s");
    sd = sx::vec3(n + "sd");
    I = M3(sx::sym(n + "I", 3));
    Id = M3(sx::sym(n + "J", 3));
    ip = sx::vec3(n + "ip");
    io = nonzero(n + "io");
    iv = sx::vec3(n + "iv");
    iw = sx::vec3(n + "iw");
    ia = sx::vec3(n + "ia");
    f = sx::vec3(n + "f");
    t = sx::vec3(n + "t");
  }
  static Vector six(const M3 & I)
  {
    Vector v(6);
    v << I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2);
    return v;
  }
  Vector vec(const Contacts & k) const
  {
    Vector u(48 + 12 * k.size());
    u << c, v, a, six(I), s, six(Id), sd, ip, io, iv, iw, ia, f, t, Vector(12 * k.size());
    for(unsigned i = 0; i < k.size(); ++i) u.segment(48 + 12 * i, 12) << k[i].p, k[i].o, k[i].v, k[i].w;
    return u;
  }
};
struct Wrench
{
  V3 f, t; // at the origin
};
static Wrench wrench(const M3 & R, const V3 & p, const Contacts & k, const V3 * fc, const V3 * tc, const State & s, const Input & u, bool elastic)
{
  Wrench w;
  V3 Rf = mulv(R, u.f);
  w.f = Rf + s.fm;
  w.t = mulv(R, u.t) + cross(p, Rf) + s.tm;
  if(!elastic)
  {
    w.f += fc[0];
    w.t += tc[0];
    return w;
  }
  for(unsigned i = 0; i < k.size(); ++i)
  {
    M3 Rc = mul(R, k[i].R);
    V3 f = mulv(Rc, fc[i]);
    w.f += f;
    w.t += mulv(Rc, tc[i]) + cross(V3(mulv(R, k[i].p) + p), f);
  }
  return w;
}
static IndexedVectorArray array(const Contacts & k, V3 Contact::*m)
{
  IndexedVectorArray a;
  for(unsigned i = 0; i < k.size(); ++i) a.setValue(k[i].*m, i);
  return a;
}
// the inertia about the center of mass, expressed in the world, is J: positive definite
static M3 inertiaAtOrigin(const M3 & R, const M3 & J, const V3 & c, double m)
{
  V3 Rc = mulv(R, c);
  M3 S = skew(Rc);
  return mul(mul(tr(R), M3(J - m * mul(S, S))), R);
}
static M3 positive(const std::string & n)
{
  M3 J = M3(sx::sym(n, 3));
  sx::assumeLt(0.01, J(0, 0));
  sx::assumeLt(0.01, J(0, 0) * J(1, 1) - J(0, 1) * J(0, 1));
  sx::assumeLt(0.01, J(0, 0) * (J(1, 1) * J(2, 2) - J(1, 2) * J(1, 2)) - J(0, 1) * (J(0, 1) * J(2, 2) - J(1, 2) * J(0, 2))
                         + J(0, 2) * (J(0, 1) * J(1, 2) - J(1, 1) * J(0, 2)));
  return J;
}
static M3 positiveDiagonal(const std::string & n)
{
  M3 J = M3::Zero();
  for(int i = 0; i < 3; ++i)
  {
    J(i, i) = sx::var(n + std::to_string(i));
    sx::assumeLt(0.01, J(i, i));
  }
  return J;
}
// an arbitrary rotation about one axis then a permutation of the axes
static M3 turn(const std::string & n)
{
  double c = sx::var(n + "c", -1, 1), s = sx_unit_dep_((n + "s").c_str(), &c, 1);
  M3 P;
  P << 0, 0, 1, 1, 0, 0, 0, 1, 0;
  return mul(P, rotX(c, s));
}

static void checkNewtonEuler(const V3 & a, const V3 & al, const M3 & R, const State & s, const Input & u, const Contacts & k, double m, bool elastic)
{
  Wrench w = wrench(R, s.p, k, s.f, s.t, s, u, elastic);
  V3 Rc = mulv(R, u.c), Rv = mulv(R, u.v), Ra = mulv(R, u.a);
  V3 ac = a + cross(al, Rc) + cross(s.w, cross(s.w, Rc)) + 2 * cross(s.w, Rv) + Ra; // acceleration of the center of mass
  sx::eqm(V3(m * ac), V3(w.f - m * G()), "Newton equation");
  M3 RI = mul(mul(R, u.I), tr(R)), RId = mul(mul(R, u.Id), tr(R));
  V3 L = mulv(RI, al) + cross(s.w, mulv(RI, s.w)) + mulv(RId, s.w) + mulv(R, u.sd) + cross(s.w, mulv(R, u.s)) + cross(s.p, V3(w.f - m * G()))
         + m * cross(Rc, a);
  sx::eqm(L, V3(w.t - m * cross(V3(Rc + s.p), G())), "Euler equation");
}
static double mass(Sys & f)
{
  double m = sx::var("m");
  sx::assumeLt(0.01, m);
  f.setRobotMass(m);
  sx::eq(f.getRobotMass(), m, "mass");
  return m;
}
SX_SCENARIO(newton_euler)
{
  Sys f(0.5);
  int n = sx_choice("contacts", 3);
  int model = sx_choice("elastic contacts", 2) ? Model::elasticContact : Model::pendulum;
  Contacts k = contacts(n, false);
  f.setContactsNumber(n);
  f.setContactModel(model);
  double m = mass(f);
  M3 R = turn("q");
  State s("s", true);
  Input u("u");
  u.I = inertiaAtOrigin(R, positive("J"), u.c, m);
  V3 a = sx::vec3("a"), al = sx::vec3("al");
  Vector fc(6), tc(6);
  fc << s.f[0], s.f[1];
  tc << s.t[0], s.t[1];
  f.computeAccelerations(u.c, u.v, u.a, u.s, u.sd, u.I, u.Id, array(k, &Contact::p), array(k, &Contact::o), s.p, s.v, a, s.o, R, s.w, al, fc, tc, s.fm, s.tm, u.f, u.t);
  checkNewtonEuler(a, al, R, s, u, k, m, model == Model::elasticContact);
}
// the orientation of the state: null, or about one axis
static M3 oneAxis(State & s, const std::string & n, int axis)
{
  s.o.setZero();
  double a = sx::var(n, 0.01, 3);
  s.o(axis) = a;
  double c = std::cos(a), d = std::sin(a);
  return axis == 0 ? rotX(c, d) : (axis == 1 ? rotY(c, d) : rotZ(c, d));
}
SX_SCENARIO(newton_euler_of_the_state)
{
  Sys f(0.5);
  int n = sx_choice("contacts", 3);
  bool elastic = sx_choice("elastic contacts", 2), rotated = n == 1 && sx_choice("rotated contact", 2);
  Contacts k = contacts(n, false);
  if(rotated)
  {
    double a = sx::var("ca", 0.01, 3);
    k[0].o << 0, a, 0;
    k[0].R = rotY(std::cos(a), std::sin(a));
  }
  f.setContactsNumber(n);
  f.setContactModel(elastic ? Model::elasticContact : Model::pendulum);
  double m = mass(f);
  State s("s", true);
  M3 R = M3::Identity();
  if(sx_choice("rotation", 2)) R = oneAxis(s, "a", 2);
  Input u("u");
  Input used = u;
  bool bias = sx_choice("bias of the center of mass", 2);
  if(bias)
  {
    f.setWithComBias(true);
    used.c = u.c - s.bias;
  }
  sx::yes(f.getWithComBias() == bias, "bias");
  used.I = u.I = inertiaAtOrigin(R, positiveDiagonal("J"), used.c, m);
  Vector r;
  switch(sx_choice("way", 2))
  {
    case 0:
      r = f.computeAccelerations(s.vec(), u.vec(k));
      checkNewtonEuler(V3(r.head(3)), V3(r.tail(3)), R, s, used, k, m, elastic);
      break;
    default:
    {
      Wrench w = wrench(R, s.p, k, s.f, s.t, s, u, elastic);
      Vector d(6);
      d << V3(w.f - m * G()), V3(w.t - m * cross(V3(mulv(R, used.c) + s.p), G()));
      sx::eqm(f.getMomentaDotFromForces(s.vec(), u.vec(k)), d, "derivative of the momenta from the forces");
      sx::eqm(f.getMomentaDotFromKinematics(s.vec(), u.vec(k)), d, "derivative of the momenta from the motion");
    }
  }
}
// default mass
SX_SCENARIO(default_mass)
{
  Sys f(0.5);
  sx::eq(f.getRobotMass(), 56.8, "default mass");
  f.setContactModel(Model::elasticContact);
  Vector x = Vector::Zero(35), u = Vector::Zero(48);
  for(int i = 0; i < 3; ++i)
  {
    x(24 + i) = sx::var("f" + std::to_string(i), -1000, 1000);
    u(9 + i) = 1;
  }
  Vector a = f.computeAccelerations(x, u);
  for(int i = 0; i < 3; ++i) sx::near(a(i) * 56.8, x(24 + i) - 56.8 * G()(i), 1e-9, "acceleration with the default mass");
}
struct Coefs
{
  M3 Kfe, Kfv, Kte, Ktv;
};
static Coefs coefs(Sys & f, bool symbolic)
{
  M3 Kfe = 40000 * M3::Identity(), Kfv = 600 * M3::Identity(), Kte = 600 * M3::Identity(), Ktv = 60 * M3::Identity();
  if(symbolic)
  {
    Kfe = mat3("Kfe");
    Kfv = mat3("Kfv");
    Kte = mat3("Kte");
    Ktv = mat3("Ktv");
    f.setKfe(Kfe);
    f.setKfv(Kfv);
    f.setKte(Kte);
    f.setKtv(Ktv);
  }
  sx::eqm(f.getKfe(), Kfe, "linear stiffness");
  sx::eqm(f.getKfv(), Kfv, "linear damping");
  sx::eqm(f.getKte(), Kte, "angular stiffness");
  sx::eqm(f.getKtv(), Ktv, "angular damping");
  Coefs c;
  c.Kfe = Kfe;
  c.Kfv = Kfv;
  c.Kte = Kte;
  c.Ktv = Ktv;
  return c;
}
static Vector elasticForces(const Coefs & c, const M3 & R, const State & s, const Contacts & k)
{
  Vector r(6 * k.size());
  for(unsigned i = 0; i < k.size(); ++i)
  {
    M3 Rt = mul(tr(k[i].R), tr(R)); // from the world to the contact
    V3 p = mulv(R, k[i].p);
    r.segment(6 * i, 3) = -mulv(c.Kfe, mulv(Rt, V3(p + s.p - k[i].p))) - mulv(c.Kfv, mulv(Rt, V3(cross(s.w, p) + s.v + mulv(R, k[i].v))));
    r.segment(6 * i + 3, 3) = -mulv(c.Kte, mulv(Rt, s.o)) - mulv(c.Ktv, mulv(Rt, s.w));
  }
  return r;
}
SX_SCENARIO(elastic_contacts)
{
  Sys f(0.5);
  int n = sx_choice("contacts", 3);
  Contacts k = contacts(n, sx_choice("rotated contacts", 2));
  if(n == 2 && k[0].o(0) != k[1].o(0)) sx::assumeLt(k[0].o(0) + 0.01, k[1].o(0));
  f.setContactsNumber(n);
  f.setContactModel(Model::elasticContact);
  bool rotation = sx_choice("rotation", 2);
  State s("s", !rotation);
  M3 R = M3::Identity();
  if(rotation) R = expMat(s.o);
  Input u("u");
  Vector want = elasticForces(coefs(f, sx_choice("coefficients set", 2)), R, s, k);
  sx::eqm(f.getForcesAndMoments(s.vec(), u.vec(k)), want, "contact forces and moments");
  sx::eqm(f.getForcesAndMoments(), want, "contact forces and moments again");
}
// ropes which hold the robot at a point
SX_SCENARIO(ropes)
{
  Sys f(0.5);
  int n = 1 + sx_choice("contacts", 2);
  Contacts k = contacts(n, false);
  f.setContactsNumber(n);
  f.setContactModel(Model::pendulum);
  State s("s", true);
  M3 R = M3::Identity();
  if(sx_choice("rotation", 2)) R = oneAxis(s, "a", 0);
  V3 pe;
  pe.setZero();
  if(sx_choice("anchor set", 2)) f.setPe(pe = sx::vec3("pe"));
  M3 Kfe = 40000 * M3::Identity(), Kfv = 600 * M3::Identity(), Kte = 600 * M3::Identity(), Ktv = 60 * M3::Identity();
  if(sx_choice("coefficients set", 2))
  {
    Kfe = mat3("Kfe");
    Kfv = mat3("Kfv");
    Kte = mat3("Kte");
    Ktv = mat3("Ktv");
    f.setKfeRopes(Kfe);
    f.setKfvRopes(Kfv);
    f.setKteRopes(Kte);
    f.setKtvRopes(Ktv);
  }
  V3 force = -mulv(Kfv, s.v), torque = -mulv(Ktv, s.w);
  torque(2) -= Kte(2, 2) * s.o(2);
  for(int i = 0; i < n; ++i)
  {
    V3 d = mulv(R, k[i].p) + s.p - pe, d0 = k[i].p - pe;
    sx::assumeLt(1e-4, d.squaredNorm());
    sx::assumeLt(1e-4, d0.squaredNorm());
    double l = std::sqrt(d.squaredNorm()), l0 = std::sqrt(d0.squaredNorm());
    force -= mulv(Kfe, d) * ((l - l0) / l);
  }
  Vector r = f.getForcesAndMoments(s.vec(), Input("u").vec(k));
  sx::eqi(r.size(), 6 * n, "size");
  sx::eqm(r.head(3), force, "force of the ropes");
  sx::eqm(r.segment(3, 3), torque, "torque of the ropes");
  for(int i = 6; i < r.size(); ++i) sx::eq(r(i), 0, "no other force");
}
SX_SCENARIO(dynamics)
{
  double dt = sx::var("dt0");
  Sys f(dt);
  int variant = sx_choice("variant", 4);
  if(variant & 1) f.setSamplingPeriod(dt = sx::var("dt"));
  sx::assumeLt(0.001, dt);
  int n = sx_choice("contacts", 3);
  Contacts k = contacts(n, false);
  f.setContactsNumber(n);
  f.setContactModel(Model::elasticContact);
  bool unmodeled = sx_choice("unmodeled forces", 2);
  f.setWithUnmodeledForces(unmodeled);
  double m = mass(f);
  State s("s", true);
  s.w.setZero();
  Input u("u");
  // no rotation: the center of mass is at the origin of the body and no torque is applied
  u.c.setZero();
  u.I = positiveDiagonal("J");
  u.sd.setZero();
  s.tm.setZero();
  u.t.setZero();
  Wrench w = wrench(M3::Identity(), s.p, k, s.f, s.t, s, u, true);
  // the torque about the center of mass is cancelled by the additional torque
  u.t = -(w.t - cross(s.p, w.f));
  bool bias = sx_choice("bias of the center of mass", 2);
  if(bias)
  {
    u.c = s.bias;
    f.setWithComBias(true);
  }
  V3 a = w.f / m - G() - u.a;
  State e = s;
  e.p = s.p + dt * s.v + dt * dt / 2 * a;
  e.v = s.v + dt * a;
  Vector x = e.vec(), fc = elasticForces(coefs(f, variant & 2), M3::Identity(), e, k);
  x.segment(12, 12).setZero();
  x.segment(12, fc.size()) = fc;
  if(!unmodeled) x.segment(24, 6).setZero();
  Noise pn(sx::var("pn"));
  int before = sx_choice("before", 3);
  bool noise = before == 1;
  if(noise) f.setProcessNoise(&pn);
  sx::yes(f.getProcessNoise() == (noise ? &pn : 0x0), "noise");
  if(before == 2) f.measureDynamics(s.vec(), u.vec(k), 2);
  for(int i = 0; i < 2; ++i)
  {
    Vector r = f.stateDynamics(s.vec(), u.vec(k), 3);
    sx::eqi(r.size(), 35, "size of the next state");
    for(int j = 0; j < 35 && j < r.size(); ++j)
    {
      // the unmodeled forces decay slowly
      double want = x(j) * (unmodeled && j >= 24 && j < 30 ? 0.9999 : 1) + (noise ? pn.a * (j + 1) : 0);
      sx::eq(r(j), want, "next state(" + std::to_string(j) + ")");
    }
    f.resetProcessNoise();
    noise = false;
  }
}

SX_SCENARIO(rotating_dynamics)
{
  double dt = sx::var("dt");
  sx::assumeLt(0.001, dt);
  Sys f(dt), oracle(dt);
  Contacts k = contacts(sx_choice("contacts", 2), false);
  f.setContactsNumber(k.size());
  f.setContactModel(Model::elasticContact);
  Coefs K = coefs(f, true);
  double m = mass(f);
  int axis = sx_choice("axis", 3);
  State s("s", true);
  Input u("u");
  u.c.setZero();
  u.sd.setZero();
  u.s.setZero();
  u.I = positiveDiagonal("J");
  u.Id.setZero();
  double rate = sx::var("rate"), torque = sx::var("torque");
  s.w.setZero();
  s.w(axis) = rate;
  V3 T;
  T.setZero();
  T(axis) = torque;
  u.t.setZero();
  Wrench w = wrench(M3::Identity(), s.p, k, s.f, s.t, s, u, true);
  u.t = T - (w.t - cross(s.p, w.f));
  oracle.setContactsNumber(k.size());
  oracle.setContactModel(Model::elasticContact);
  oracle.setRobotMass(m);
  double al = oracle.computeAccelerations(s.vec(), u.vec(k))(3 + axis);
  V3 a = w.f / m - G() - u.a - 2 * cross(s.w, u.v);
  double d = rate * dt + al * (dt * dt / 2);
  sx::assumeLt(0.01, d);
  sx::assumeLt(d, 3);
  State e = s;
  e.p = s.p + dt * s.v + dt * dt / 2 * a;
  e.v = s.v + dt * a;
  e.w(axis) = rate + dt * al;
  double c = std::cos(d), sn = std::sin(d);
  M3 R = axis == 0 ? rotX(c, sn) : (axis == 1 ? rotY(c, sn) : rotZ(c, sn));
  Vector r = f.stateDynamics(s.vec(), u.vec(k), 3);
  sx::eqi(r.size(), 35, "size of the next state");
  e.o = r.segment(3, 3);
  for(int i = 0; i < 3; ++i)
    if(i != axis) sx::eq(e.o(i), 0, "axis of the rotation");
  sx::eq(std::cos(e.o(axis)), c, "cosine of the next orientation");
  sx::eq(std::sin(e.o(axis)), sn, "sine of the next orientation");
  Vector x = e.vec(), fc = elasticForces(K, R, e, k);
  x.segment(12, 12).setZero();
  x.segment(12, fc.size()) = fc;
  x.segment(24, 6).setZero();
  sx::eqm(r, x, "next state");
}
SX_SCENARIO(measurement)
{
  Sys f(0.5), oracle(0.5);
  int n = sx_choice("contacts", 3);
  Contacts k = contacts(n, false);
  bool forces = sx_choice("force measurements", 2), absolute = sx_choice("absolute position", 2);
  if(forces && n == 1) f.setWithForceMeasurements(true); // in any order
  f.setContactsNumber(n);
  oracle.setContactsNumber(n);
  f.setContactModel(Model::elasticContact);
  oracle.setContactModel(Model::elasticContact);
  if(absolute) f.setWithAbsolutePosition(true);
  if(forces && n != 1) f.setWithForceMeasurements(true);
  double m = mass(f);
  oracle.setRobotMass(m);
  sx::yes(f.getWithForceMeasurements() == forces && f.getWithAbsolutePosition() == absolute, "options");
  State s("s", true);
  M3 R = M3::Identity();
  if(sx_choice("rotation", 2)) R = oneAxis(s, "a", 0);
  if(absolute) s.drift(2) = 0; // see absolute_position
  Input u("u");
  u.I = inertiaAtOrigin(R, positiveDiagonal("J"), u.c, m);
  double b = sx::var("b", 0.01, 3);
  u.io << 0, b, 0;
  if(n == 1 && sx_choice("another state before", 2))
  {
    State t = s;
    t.o << 0, 0, 0.5;
    Input v = u;
    v.io << 0.5, 0, 0;
    v.I = M3::Identity();
    v.c.setZero();
    f.measureDynamics(t.vec(), v.vec(k), 1);
  }
  Vector acc = oracle.computeAccelerations(s.vec(), u.vec(k));
  V3 a = acc.head(3), al = acc.tail(3);
  M3 Rt = tr(mul(R, rotY(std::cos(b), std::sin(b))));
  V3 p = mulv(R, u.ip), v = mulv(R, u.iv);
  V3 ia = a + cross(al, p) + cross(s.w, cross(s.w, p)) + 2 * cross(s.w, v) + mulv(R, u.ia);
  Vector y(6 + (forces ? 6 * n : 0) + (absolute ? 6 : 0));
  y.segment(0, 3) = mulv(Rt, V3(ia + G()));
  y.segment(3, 3) = mulv(Rt, V3(s.w + mulv(R, u.iw)));
  int i = 6;
  if(forces)
    for(int j = 0; j < n; ++j, i += 6) y.segment(i, 6) << s.f[j], s.t[j];
  if(absolute)
  {
    y.segment(i, 3) = V3(s.drift(0), s.drift(1), 0) + s.p;
    y.segment(i + 3, 3) = s.o;
  }
  sx::eqi(f.getMeasurementSize(), y.size(), "measurement size");
  Noise mn(sx::var("mn"));
  if(n != 1 && sx_choice("noise", 2))
  {
    f.setMeasurementNoise(&mn);
    Vector z = y;
    for(int j = 0; j < 6; ++j) z(j) += mn.a * (j + 1);
    Vector got = f.measureDynamics(s.vec(), u.vec(k), 3);
    sx::eqm(got.head(6), z.head(6), "noisy measurement");
    sx::yes(f.getMeasurementNoise() == &mn, "noise");
    f.resetMeasurementNoise();
    sx::yes(f.getMeasurementNoise() == 0x0, "no noise any more");
  }
  sx::eqm(f.measureDynamics(s.vec(), u.vec(k), 3), y, "measurement");
}
SX_SCENARIO(absolute_position)
{
  Sys f(0.5);
  int n = sx_choice("contacts", 2);
  bool forces = sx_choice("force measurements", 2);
  Contacts k = contacts(n, false);
  f.setWithAbsolutePosition(true);
  f.setContactsNumber(n);
  f.setContactModel(Model::elasticContact);
  f.setWithForceMeasurements(forces);
  State s("s", true);
  V3 o;
  o.setZero();
  double a = sx::var("a", 0.01, 3), b = sx::var("b", 0.01, 1.5);
  double c = std::cos(a), d = std::sin(a), e = std::cos(b), h = std::sin(b);
  M3 D = M3::Identity();
  s.drift(2) = 0;
  int kind = sx_choice("yaw and orientation", 4);
  if(kind == 3) sx_mode_native_concrete(1), a = 0.5, c = std::cos(a), d = std::sin(a);
  if(kind == 1 || kind == 3) D = rotZ(c, d), s.drift(2) = a;
  if(kind == 2) s.o(1) = b;
  if(kind == 3) s.o(2) = 0.25;
  Input u("u");
  u.I.setIdentity();
  u.c.setZero();
  u.io.setZero();
  Vector y = f.measureDynamics(s.vec(), u.vec(k), 3);
  int i = 6 + (forces ? 6 * n : 0);
  sx::eqi(y.size(), i + 6, "measurement size");
  sx::eqm(y.segment(i, 3), V3(V3(s.drift(0), s.drift(1), 0) + mulv(D, s.p)), "absolute position");
  V3 r = y.segment(i + 3, 3);
  int axis = kind == 2 ? 1 : 2;
  for(int j = 0; j < 3; ++j)
    if(j != axis) sx::eq(r(j), 0, "axis of the absolute orientation");
  if(kind == 3)
  {
    sx::near(r(2), 0.75, 1e-9, "absolute orientation");
    return;
  }
  double C = kind == 0 ? 1 : (kind == 1 ? c : e);
  double S = kind == 0 ? 0 : (kind == 1 ? d : h);
  sx::eq(std::cos(r(axis)), C, "cosine of the absolute orientation");
  sx::eq(std::sin(r(axis)), S, "sine of the absolute orientation");
}
SX_SCENARIO(sizes)
{
  Sys f(0.5);
  int n = 0;
  bool forces = false, absolute = false;
  sx::eqi(f.getStateSize(), 35, "state size");
  for(int i = 0; i < 4; ++i)
  {
    std::string l = "operation " + std::to_string(i);
    switch(sx_choice(l.c_str(), 7))
    {
      case 0: f.setContactsNumber(n = 0); break;
      case 1: f.setContactsNumber(n = 1); break;
      case 2: f.setContactsNumber(n = 2); break;
      case 3: f.setWithForceMeasurements(forces = true); break;
      case 4: f.setWithForceMeasurements(forces = false); break;
      case 5: f.setWithAbsolutePosition(absolute = true); break;
      default: f.setWithAbsolutePosition(absolute = false);
    }
    sx::eqi(f.getContactsNumber(), n, "number of contacts");
    sx::eqi(f.getInputSize(), 48 + 12 * n, "input size");
    sx::eqi(f.getMeasurementSize(), 6 + (forces ? 6 * n : 0) + (absolute ? 6 : 0), "measurement size");
  }
}
// the Jacobians are finite differences of the dynamics for the modelled part of the state
static Vector someState(bool absolute)
{
  Vector x(35);
  for(int i = 0; i < 35; ++i) x(i) = 0.125 * (1 + (7 * i) % 5) * (i % 2 ? -1 : 1);
  for(int i = 0; i < 3; ++i) x(6 + i) = sx::var("v" + std::to_string(i), -10, 10);
  for(int i = 0; i < 2; ++i) x(32 + i) = sx::var("d" + std::to_string(i), -10, 10);
  if(!absolute) x(34) = sx::var("d2", -3, 3);
  return x;
}
static Vector someInput(int n)
{
  Vector u(48 + 12 * n);
  for(int i = 0; i < u.size(); ++i) u(i) = 0.125 * (1 + (5 * i) % 7) * (i % 3 ? 1 : -1);
  u.head(3).setZero();
  u.segment(9, 6) << 64, 128, 256, 8, 4, 2; // inertia
  for(int j = 0; j < n; ++j)
    for(int i = 0; i < 3; ++i) u(48 + 12 * j + 6 + i) = sx::var("cv" + std::to_string(3 * j + i), -10, 10);
  return u;
}
struct Options
{
  int n;
  bool bias, unmodeled, absolute, forces;
  void apply(Sys & f) const
  {
    f.setContactsNumber(n);
    f.setContactModel(Model::elasticContact);
    f.setWithComBias(bias);
    f.setWithUnmodeledForces(unmodeled);
    f.setWithAbsolutePosition(absolute);
    f.setWithForceMeasurements(forces);
    f.setRobotMass(64);
  }
};
SX_SCENARIO(jacobians)
{
  sx_mode_native_concrete(1); // the constants are numbers here, computed as in double
  Options o;
  o.n = sx_choice("contacts", 3);
  int v = sx_choice("options", 5);
  o.bias = v == 1 || v == 4;
  o.unmodeled = v == 2 || v == 4;
  o.absolute = v == 3 || v == 4;
  o.forces = o.n == 1;
  Vector dx(35);
  for(int i = 0; i < 35; ++i) dx(i) = std::ldexp(1., -8 - i % 4);
  Sys f(0.0625), g(0.0625);
  o.apply(f);
  o.apply(g);
  f.setFDstep(dx);
  Vector x = someState(o.absolute), u = someInput(o.n);
  bool measure = sx_choice("Jacobian of the measurement", 2);
  Vector y0 = measure ? g.measureDynamics(x, u, 1) : g.stateDynamics(x, u, 1);
  sx::eqm(measure ? f.measureDynamics(x, u, 1) : f.stateDynamics(x, u, 1), y0, "same value");
  if(sx_choice("the other function used in the meantime", 2))
  {
    if(measure) f.stateDynamics(x, u, 1);
    else
      f.measureDynamics(x, u, 1);
  }
  Matrix J = measure ? f.measureDynamicsJacobian() : f.stateDynamicsJacobian();
  sx::eqi(J.rows(), y0.size(), "rows");
  sx::eqi(J.cols(), 35, "columns");
  for(int i = 0; i < 35; ++i)
  {
    bool active = i < 24 || (i < 30 ? o.unmodeled : (i < 32 ? o.bias : o.absolute));
    std::string l = "derivative along " + std::to_string(i);
    if(active)
    {
      Vector xi = x;
      xi(i) += dx(i);
      Vector d = ((measure ? g.measureDynamics(xi, u, 1) : g.stateDynamics(xi, u, 1)) - y0) / dx(i);
      sx::eqm(J.col(i), d, l);
    }
    else
      for(int j = 0; j < J.rows(); ++j) sx::eq(J(j, i), !measure && i == j ? 1 : 0, l);
  }
}
