// DCM bias estimators: the model and the settings reach the filter. The Kalman step itself (C12) is the reference filter.
#include "common.hpp"
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
using namespace stateObservation;
typedef Eigen::Matrix2d M2;
typedef Eigen::Vector2d V2;
static V2 vec2(const std::string & n) { return V2(sx::vec(n, 2)); }
static double sq(double x) { return x * x; }
// the innovation covariance is positive definite (it is in exact arithmetic as soon as the measurement is noisy)
static void positive(const Matrix & A, const Matrix & P, const Matrix & Q, const Matrix & C, const Matrix & R)
{
  Matrix Pb = Q + A * (P * A.transpose()), S = R + C * (Pb * C.transpose());
  sx::assumeLt(0, S(0, 0));
  if(S.rows() > 1) sx::assumeLt(0, S(1, 1) - S(1, 0) * S(1, 0) / S(0, 0));
}
static M2 dg(double a, double b)
{
  M2 m;
  m << a, 0, 0, b;
  return m;
}
// reference state of knowledge: settings, state, covariance
struct Uni
{
  double dt, om, drift, zs, ds, zmp, x[2];
  Matrix P;
  Uni() : P(Matrix::Zero(2, 2)) {}
  void step(double dcm, double z)
  {
    LinearKalmanFilter f(2, 1, 1);
    Matrix A(2, 2), Q(2, 2), B(2, 1), C(1, 2);
    A << 1 + om * dt, 0, 0, 1;
    B << -om * dt, 0;
    C << 1, 1;
    Q << sq(om * dt * zs), 0, 0, sq(drift * dt);
    f.setA(A);
    f.setB(B);
    f.setC(C);
    f.setQ(Q);
    f.setR(Matrix::Constant(1, 1, sq(ds)));
    positive(A, P, Q, C, Matrix::Constant(1, 1, sq(ds)));
    Vector s(2);
    s << x[0], x[1];
    f.setState(s, 0);
    f.setStateCovariance(P);
    f.setMeasurement(Vector::Constant(1, dcm), 1);
    f.setInput(Vector::Constant(1, zmp), 0);
    Vector r = f.getEstimatedState(1);
    x[0] = r(0);
    x[1] = r(1);
    P = f.getStateCovariance();
    zmp = z;
  }
};
static void sameU(const UnidimLipmDcmEstimator & e, const Uni & u, const std::string & l)
{
  sx::eq(e.getUnbiasedDCM(), u.x[0], l + ": dcm");
  sx::eq(e.getBias(), u.x[1], l + ": bias");
  sx::eqm(e.getFilter().getStateCovariance(), u.P, l + ": covariance");
}
static void changeU(UnidimLipmDcmEstimator & e, Uni & u, int op, const std::string & n)
{
  double v = sx::var("v" + n), w = sx::var("w" + n);
  switch(op)
  {
    case 0: break;
    case 1:
      e.setLipmNaturalFrequency(v);
      u.om = v;
      break;
    case 2:
      e.setSamplingTime(v);
      u.dt = v;
      break;
    case 3:
      e.setBias(v);
      u.x[1] = v;
      break;
    case 4:
      e.setBias(v, w);
      u.x[1] = v;
      u.P(0, 1) = u.P(1, 0) = 0;
      u.P(1, 1) = sq(w);
      break;
    case 5:
      e.setBiasDriftPerSecond(v);
      u.drift = v;
      break;
    case 6:
      e.setUnbiasedDCM(v);
      u.x[0] = v;
      break;
    case 7:
      e.setUnbiasedDCM(v, w);
      u.x[0] = v;
      u.P(0, 1) = u.P(1, 0) = 0;
      u.P(0, 0) = sq(w);
      break;
    case 8:
      e.setZmpMeasureErrorStd(v);
      u.zs = v;
      break;
    case 9:
      e.setDcmMeasureErrorStd(v);
      u.ds = v;
      break;
    case 10:
    case 11:
    {
      double z = sx::var("z" + n), dr = sx::var("dr" + n), ds = sx::var("ds" + n), zs = sx::var("zs" + n), b = sx::var("b" + n), bu = sx::var("bu" + n);
      e.resetWithInputs(v, z, op == 10, dr, ds, zs, b, bu);
      u.zmp = z;
      u.drift = dr;
      u.ds = ds;
      u.zs = zs;
      u.x[1] = b;
      u.x[0] = op == 10 ? v - b : v;
      u.P(1, 1) = sq(bu);
      u.P(0, 0) = sq(ds) + (op == 10 ? sq(bu) : 0.);
      u.P(0, 1) = u.P(1, 0) = op == 10 ? -sq(bu) : 0.;
      break;
    }
  }
  sameU(e, u, "after the change " + n);
}
SX_SCENARIO(unidim)
{
  Uni u;
  double dcm = sx::var("dcm0"), b = sx::var("b0"), su = sx::var("su"), bu = sx::var("bu");
  u.dt = sx::var("dt");
  u.om = sx::var("om");
  u.drift = sx::var("drift");
  u.zmp = sx::var("zmp0");
  u.ds = sx::var("ds");
  u.zs = sx::var("zs");
  UnidimLipmDcmEstimator e(u.dt, u.om, u.drift, dcm, u.zmp, b, u.ds, u.zs, su, bu);
  u.x[0] = dcm;
  u.x[1] = b;
  u.P(0, 0) = sq(su);
  u.P(1, 1) = sq(bu);
  sameU(e, u, "initial");
  int op = sx_choice("change 0", 12);
  changeU(e, u, op, "0");
#ifdef SX_THOROUGH
  changeU(e, u, sx_choice("change 0b", 12), "0b");
  const int N = 3;
#else
  const int N = 2;
#endif
  for(int i = 1; i <= N; ++i)
  {
    std::string n = std::to_string(i);
    double y = sx::var("y" + n), z = sx::var("z" + n);
    if(i == 2 && op == 0) changeU(e, u, 1 + sx_choice("change 1", 11), "1");
    u.step(y, z);
    e.setInputs(y, z);
    V2 r = e.update();
    sx::eq(r(0), u.x[0], "returned dcm " + n);
    sx::eq(r(1), u.x[1], "returned bias " + n);
    sameU(e, u, "step " + n);
  }
}
struct Bi
{
  double dt, om, drift, zs, ds;
  V2 zmp, dcm, bias, lim;
  M2 R;
  Matrix P;
  bool clamp;
  Bi() : lim(0, 0), P(Matrix::Zero(4, 4)) { R.setIdentity(); }
  V2 local() const { return V2(R(0, 0) * bias(0) + R(1, 0) * bias(1), R(0, 1) * bias(0) + R(1, 1) * bias(1)); }
  void step(const V2 & y, const V2 & z, const M2 & Rn)
  {
    LinearKalmanFilter f(4, 2, 2);
    Matrix A = Matrix::Zero(4, 4), Q = Matrix::Zero(4, 4), B = Matrix::Zero(4, 2), C = Matrix::Zero(2, 4);
    A(0, 0) = A(1, 1) = 1 + om * dt;
    for(int i = 0; i < 2; ++i)
      for(int j = 0; j < 2; ++j) A(2 + i, 2 + j) = Rn(i, 0) * R(j, 0) + Rn(i, 1) * R(j, 1);
    B(0, 0) = B(1, 1) = -om * dt;
    C(0, 0) = C(0, 2) = C(1, 1) = C(1, 3) = 1;
    Q(0, 0) = Q(1, 1) = sq(om * dt * zs);
    Q(2, 2) = Q(3, 3) = sq(drift * dt);
    f.setA(A);
    f.setB(B);
    f.setC(C);
    f.setQ(Q);
    f.setR(dg(sq(ds), sq(ds)));
    positive(A, P, Q, C, dg(sq(ds), sq(ds)));
    Vector s(4);
    s << dcm, bias;
    f.setState(s, 0);
    f.setStateCovariance(P);
    f.setMeasurement(y, 1);
    f.setInput(zmp, 0);
    Vector r = f.getEstimatedState(1);
    dcm = r.head<2>();
    bias = r.tail<2>();
    P = f.getStateCovariance();
    zmp = z;
    R = Rn;
    V2 lb = local(), c = lb;
    for(int i = 0; i < 2; ++i)
      if(lim(i) > 0)
      {
        if(lb(i) > lim(i)) c(i) = lim(i);
        else if(lb(i) < -lim(i)) c(i) = -lim(i);
      }
    for(int i = 0; i < 2; ++i)
    {
      double m = R(i, 0) * (lb(0) - c(0)) + R(i, 1) * (lb(1) - c(1));
      dcm(i) = dcm(i) + m;
      bias(i) = bias(i) - m;
    }
  }
};
static void sameB(const LipmDcmEstimator & e, const Bi & u, const std::string & l)
{
  sx::eqm(e.getUnbiasedDCM(), u.dcm, l + ": dcm");
  sx::eqm(e.getBias(), u.bias, l + ": bias");
  sx::eqm(e.getLocalBias(), u.local(), l + ": local bias");
  sx::eqm(e.getFilter().getStateCovariance(), u.P, l + ": covariance");
}
static M2 yawMat(const std::string & n)
{
  double c = sx::var(n + "c", -1, 1), s = sx_unit_dep_((n + "s").c_str(), &c, 1);
  M2 m;
  m << c, -s, s, c;
  return m;
}
static void block(Matrix & P, int i, int j, const M2 & m)
{
  for(int a = 0; a < 2; ++a)
    for(int b = 0; b < 2; ++b) P(2 * i + a, 2 * j + b) = m(a, b);
}
static void changeB(LipmDcmEstimator & e, Bi & u, int op, const std::string & n)
{
  double v = sx::var("v" + n);
  V2 w = vec2("w" + n), t = vec2("t" + n);
  M2 Z = dg(0, 0);
  switch(op)
  {
    case 0: break;
    case 1:
      e.setLipmNaturalFrequency(v);
      u.om = v;
      sx::eq(e.getLipmNaturalFrequency(), v, "natural frequency");
      break;
    case 2:
      e.setSamplingTime(v);
      u.dt = v;
      break;
    case 3:
      e.setBias(w);
      u.bias = w;
      break;
    case 4:
      e.setBias(w, t);
      u.bias = w;
      block(u.P, 0, 1, Z);
      block(u.P, 1, 0, Z);
      block(u.P, 1, 1, dg(sq(t(0)), sq(t(1))));
      break;
    case 5:
      e.setBiasDriftPerSecond(v);
      u.drift = v;
      break;
    case 6:
      e.setUnbiasedDCM(w);
      u.dcm = w;
      break;
    case 7:
      e.setUnbiasedDCM(w, t);
      u.dcm = w;
      block(u.P, 0, 1, Z);
      block(u.P, 1, 0, Z);
      block(u.P, 0, 0, dg(sq(t(0)), sq(t(1))));
      break;
    case 8:
      e.setZmpMeasureErrorStd(v);
      u.zs = v;
      break;
    case 9:
      e.setDcmMeasureErrorStd(v);
      u.ds = v;
      break;
    case 10:
    case 11:
    {
      V2 z = vec2("z" + n), b = vec2("b" + n);
      M2 R = yawMat("r" + n);
      e.resetWithMeasurements(w, z, R, op == 10, b, t);
      u.zmp = z;
      u.R = R;
      u.bias = b;
      u.dcm = op == 10 ? V2(w - b) : w;
      M2 B = dg(sq(t(0)), sq(t(1)));
      block(u.P, 1, 1, B);
      block(u.P, 0, 1, op == 10 ? M2(-B) : Z);
      block(u.P, 1, 0, op == 10 ? M2(-B) : Z);
      block(u.P, 0, 0, M2(dg(sq(u.ds), sq(u.ds)) + (op == 10 ? B : Z)));
      break;
    }
  }
  sameB(e, u, "after the change " + n);
}
static LipmDcmEstimator * make(Bi & u, const V2 & lim, bool concrete = false)
{
  V2 su = concrete ? V2(0.5, 0.25) : vec2("su"), bu = concrete ? V2(0.75, 0.5) : vec2("bu");
  u.dt = concrete ? 0.125 : sx::var("dt");
  u.om = concrete ? 3 : sx::var("om");
  u.drift = concrete ? 0.5 : sx::var("drift");
  u.ds = concrete ? 0.25 : sx::var("ds");
  u.zs = concrete ? 0.5 : sx::var("zs");
  u.zmp = vec2("zmp0");
  u.dcm = vec2("dcm0");
  u.bias = vec2("b0");
  u.lim = lim;
  block(u.P, 0, 0, dg(sq(su(0)), sq(su(1))));
  block(u.P, 1, 1, dg(sq(bu(0)), sq(bu(1))));
  return new LipmDcmEstimator(u.dt, u.om, u.drift, u.ds, u.zs, lim, u.zmp, u.dcm, u.bias, su, bu);
}
// settings, one step, orientation given each time
SX_SCENARIO(planar_step)
{
  Bi u;
  LipmDcmEstimator & e = *make(u, V2(0, 0));
  sameB(e, u, "initial");
  changeB(e, u, sx_choice("change 0", 12), "0");
  V2 y = vec2("y"), z = vec2("z");
  M2 R = yawMat("q");
  u.step(y, z, R);
  e.setInputs(y, z, R);
  e.update();
  sameB(e, u, "step");
}
// several steps: updates may be skipped between two inputs without losing anything
SX_SCENARIO(planar_history)
{
  Bi u;
  LipmDcmEstimator & e = *make(u, V2(0, 0), true);
  sx_mode_native_concrete(1); // the covariances are numbers here, computed as in double
  int skip = sx_choice("skipped updates", 4);
  const int N = 2;
  for(int i = 1; i <= N; ++i)
  {
    std::string n = std::to_string(i);
    V2 y = vec2("y" + n), z = vec2("z" + n);
    M2 R; // quarter turns, exact in double
    if(i == 1) R << 0, -1, 1, 0;
    else R << 0, 1, -1, 0;
    if(i == N)
    {
      int ch = sx_choice("change", 4);
      if(!(skip & 1) && ch == 1) changeB(e, u, 3, "c");
      if(!(skip & 1) && ch == 2) changeB(e, u, 6, "c");
      if(ch == 3)
      {
        if(skip & 1) return; // the limits would apply to the skipped step too
        e.setBiasLimit(u.lim = V2(0.5, 0));
      }
    }
    u.step(y, z, R);
    e.setInputs(y, z, R);
    if(!((skip >> (i - 1)) & 1) || i == N)
    {
      e.update();
      if((skip >> 1) & 1) e.update(); // updating twice changes nothing
      sameB(e, u, "step " + n);
    }
  }
  // the estimates are correlated by now
  int last = sx_choice("last change", 4);
  if(last) changeB(e, u, last == 1 ? 4 : last == 2 ? 7 : 10, "last");
}
// no state yet: the first inputs initialise
SX_SCENARIO(planar_first_inputs)
{
  Bi u;
  LipmDcmEstimator & e = *make(u, V2(0, 0));
  e.getFilter().reset();
  V2 y = vec2("y"), z = vec2("z"), y2 = vec2("yy"), z2 = vec2("zz");
  M2 R = yawMat("q"), R2 = yawMat("p");
  e.setInputs(y, z, R);
  u.dcm = y;
  u.bias = V2(0, 0);
  u.zmp = z;
  u.R = R;
  const double d = e.getFilter().getStateCovariance()(2, 2);
  sx::near(d, 1e-4, 1e-15, "default uncertainty of the bias");
  M2 B = dg(d, d);
  block(u.P, 1, 1, B);
  block(u.P, 0, 1, M2(-B));
  block(u.P, 1, 0, M2(-B));
  block(u.P, 0, 0, M2(dg(sq(u.ds), sq(u.ds)) + B));
  sameB(e, u, "initialised");
  u.step(y2, z2, R2);
  e.setInputs(y2, z2, R2);
  e.update();
  sameB(e, u, "step");
}
// the local bias is kept within its limits on each limited axis, and DCM + bias is preserved by the clamping
static void clamping(bool symbolicLimits)
{
  Bi u;
  int axes = sx_choice("limited axes", 4);
  V2 lim(0, 0);
  if(axes & 1) lim(0) = sx::var("lx");
  if(axes & 2) lim(1) = sx::var("ly");
  if(axes & 1) sx::assumeLt(0, lim(0));
  if(axes & 2) sx::assumeLt(0, lim(1));
  bool later = sx_choice("limit set later", 2);
  LipmDcmEstimator & e = *make(u, later ? V2(5, 7) : lim);
  if(later) e.setBiasLimit(lim);
  // a local bias which does not move in this step: zero uncertainty on everything
  V2 zero(0, 0), y = vec2("y"), z = vec2("z");
  e.setBias(u.bias, zero);
  e.setUnbiasedDCM(u.dcm, zero);
  e.setBiasDriftPerSecond(0);
  e.setZmpMeasureErrorStd(0);
  e.setDcmMeasureErrorStd(1);
  M2 R = yawMat("q");
  e.setInputs(y, z, R);
  e.update();
  V2 lb = u.bias; // orientation was identity: the local bias is the initial one
  V2 want = lb;
  for(int i = 0; i < 2; ++i)
    if(axes & (1 << i))
    {
      if(lb(i) > lim(i)) want(i) = lim(i);
      else if(lb(i) < -lim(i)) want(i) = -lim(i);
    }
  sx::eqm(e.getLocalBias(), want, "clamped local bias");
  V2 gw(R(0, 0) * want(0) + R(0, 1) * want(1), R(1, 0) * want(0) + R(1, 1) * want(1));
  sx::eqm(e.getBias(), gw, "clamped bias");
  V2 free(R(0, 0) * lb(0) + R(0, 1) * lb(1), R(1, 0) * lb(0) + R(1, 1) * lb(1));
  for(int i = 0; i < 2; ++i)
  {
    double pred = (1 + u.om * u.dt) * u.dcm(i) - u.om * u.dt * u.zmp(i);
    sx::eq(e.getUnbiasedDCM()(i), pred + free(i) - gw(i), "the clamped part goes to the DCM");
  }
}
SX_SCENARIO(bias_limit) { clamping(true); }
// yaw and 3D orientation overloads
SX_SCENARIO(orientation_overloads)
{
  Bi u;
  LipmDcmEstimator & e = *make(u, V2(0, 0), true);
  double a = sx::var("yaw", -3, 3), b = sx::var("yaw2", -3, 3);
  V2 y = vec2("y"), z = vec2("z"), y2 = vec2("yy"), z2 = vec2("zz"), bias = vec2("bb"), un = vec2("un");
  auto R2 = [](double t) {
    M2 m;
    m << std::cos(t), -std::sin(t), std::sin(t), std::cos(t);
    return m;
  };
  e.resetWithMeasurements(y, z, a, true, bias, un);
  u.R = R2(a);
  u.bias = bias;
  u.dcm = y - bias;
  u.zmp = z;
  M2 B = dg(sq(un(0)), sq(un(1)));
  block(u.P, 1, 1, B);
  block(u.P, 0, 1, M2(-B));
  block(u.P, 1, 0, M2(-B));
  block(u.P, 0, 0, M2(dg(sq(u.ds), sq(u.ds)) + B));
  sameB(e, u, "reset with a yaw");
  u.step(y2, z2, R2(b));
  e.setInputs(y2, z2, b);
  e.update();
  sameB(e, u, "step with a yaw");
}
SX_SCENARIO(orientation_3d)
{
  Bi u, v;
  LipmDcmEstimator &e = *make(u, V2(0, 0)), &f = *make(v, V2(0, 0));
  int ax = sx_choice("case", 2);
  ref::M3 R = ref::quatToMat(ref::unitQuat("q"));
  V2 y = vec2("y"), z = vec2("z");
  if(ax) sx::assumeLt(0.01, R(2, 2) * R(2, 2)); // away from a horizontal vertical axis
  else sx::assumeLt(R(2, 2) * R(2, 2), 0.01);
  double yaw = kine::rotationMatrixToYawAxisAgnostic(R);
  e.resetWithMeasurements(y, z, R);
  f.resetWithMeasurements(y, z, yaw);
  sx::eqm(e.getLocalBias(), f.getLocalBias(), "reset local bias");
  e.setBias(y);
  f.setBias(y);
  sx::eqm(e.getLocalBias(), f.getLocalBias(), "yaw of the reset orientation");
  LipmDcmEstimator &g = *make(u, V2(0, 0)), &h = *make(v, V2(0, 0));
  g.setInputs(y, z, R);
  h.setInputs(y, z, yaw);
  sx::eqm(g.getLocalBias(), h.getLocalBias(), "yaw of the inputs");
}
