// KineticsObserver: covariances of the components of the state and of their process noises.
#include "p_kobs.hpp"
struct Layout // in the tangent space
{
  int contacts, imus;
  int kine() const { return 0; }
  int bias(int i) const { return 12 + 3 * i; }
  int unmodeled() const { return 12 + 3 * imus; }
  int contact(int i) const { return 18 + 3 * imus + 12 * i; }
  int size() const { return contact(contacts); }
};
// one block replaced, its correlations with the others forgotten
static void replace(Matrix & m, int index, const Matrix & block)
{
  long n = block.rows();
  for(long i = 0; i < m.rows(); ++i)
    for(long j = 0; j < m.cols(); ++j)
    {
      bool in = i >= index && i < index + n, jn = j >= index && j < index + n;
      if(in && jn) m(i, j) = block(i - index, j - index);
      else if(in || jn) m(i, j) = 0;
    }
}
static Matrix diagonal(std::initializer_list<double> l) // each one three times
{
  Matrix m = Matrix::Zero(3 * l.size(), 3 * l.size());
  int i = 0;
  for(double d : l)
    for(int j = 0; j < 3; ++j, ++i) m(i, i) = d;
  return m;
}
typedef KineticsObserver K;
static Matrix kineInit()
{
  return diagonal({K::statePoseInitVarianceDefault, K::stateOriInitVarianceDefault, K::stateLinVelInitVarianceDefault, K::stateAngVelInitVarianceDefault});
}
static Matrix kineProcess()
{
  return diagonal(
      {K::statePoseProcessVarianceDefault, K::stateOriProcessVarianceDefault, K::stateLinVelProcessVarianceDefault, K::stateAngVelProcessVarianceDefault});
}
static Matrix biasInit() { return diagonal({K::gyroBiasInitVarianceDefault}); }
static Matrix biasProcess() { return diagonal({K::gyroBiasProcessVarianceDefault}); }
static Matrix unmodeledInit() { return diagonal({K::unmodeledWrenchInitVarianceDefault, K::unmodeledWrenchInitVarianceDefault}); }
static Matrix unmodeledProcess() { return diagonal({K::unmodeledWrenchProcessVarianceDefault, K::unmodeledWrenchProcessVarianceDefault}); }
static Matrix contactInit()
{
  return diagonal({K::contactPositionProcessVarianceDefault, K::contactOrientationProcessVarianceDefault, K::contactForceInitVarianceDefault,
                   K::contactTorqueInitVarianceDefault});
}
static Matrix contactProcess()
{
  return diagonal({K::contactPositionProcessVarianceDefault, K::contactOrientationProcessVarianceDefault, K::contactForceProcessVarianceDefault,
                   K::contactTorqueProcessVarianceDefault});
}
struct World
{
  Layout l;
  KineticsObserver o;
  Matrix P, Q, kine, bias, unmodeled, contact; // expected covariances, covariances after a reset
  std::vector<bool> in;
  World(int c, int n) : l{c, n}, o(c, n), kine(kineInit()), bias(biasInit()), unmodeled(unmodeledInit()), contact(contactInit()), in(c, false)
  {
    P = Q = Matrix::Zero(l.size(), l.size());
    replace(P, l.kine(), kine);
    replace(Q, l.kine(), kineProcess());
    for(int i = 0; i < n; ++i)
    {
      replace(P, l.bias(i), bias);
      replace(Q, l.bias(i), biasProcess());
    }
    replace(P, l.unmodeled(), unmodeled);
    replace(Q, l.unmodeled(), unmodeledProcess());
    check("defaults");
  }
  void check(const char * what)
  {
    sx::eqm(o.getStateCovarianceMat(), P, (std::string(what) + ": state covariance").c_str());
    sx::eqm(o.getEKF().getProcessCovariance(), Q, (std::string(what) + ": process covariance").c_str());
  }
  void any()
  {
    P = sx::mat("P", l.size(), l.size());
    Q = sx::mat("Q", l.size(), l.size());
    o.setStateCovarianceMat(P);
    o.setProcessNoiseCovarianceMat(Q);
    check("set");
  }
  void add(int i, bool given)
  {
    if(given)
    {
      Matrix12 a = sx::mat("init" + std::to_string(i), 12, 12), b = sx::mat("process" + std::to_string(i), 12, 12);
      o.addContact(someMotion(i).kin(0), a, b, i);
      replace(P, l.contact(i), a);
      replace(Q, l.contact(i), b);
    }
    else
    {
      o.addContact(someMotion(i).kin(0), i);
      replace(P, l.contact(i), contact);
      replace(Q, l.contact(i), contactProcess());
    }
    in[i] = true;
    check("added contact");
  }
  void defaults()
  {
    kine = sx::mat("dk", 12, 12);
    bias = sx::mat("db", 3, 3);
    unmodeled = sx::mat("du", 6, 6);
    contact = sx::mat("dc", 12, 12);
    o.setKinematicsInitCovarianceDefault(kine);
    o.setGyroBiasInitCovarianceDefault(Matrix3(bias));
    o.setUnmodeledWrenchInitCovMatDefault(Matrix6(unmodeled));
    o.setContactInitCovMatDefault(Matrix12(contact));
    check("the defaults are used by the next reset only");
  }
  void resetContacts()
  {
    for(int i = 0; i < l.contacts; ++i)
      if(in[i]) replace(P, l.contact(i), contact);
  }
  void resetState()
  {
    replace(P, l.kine(), kine);
    for(int i = 0; i < l.imus; ++i) replace(P, l.bias(i), bias);
    replace(P, l.unmodeled(), unmodeled);
    resetContacts();
  }
};
static World * world()
{
  int c = 1 + sx_choice("contacts", 3), n = 1 + sx_choice("imus", 2);
  return new World(c, n);
}
SX_SCENARIO(contacts)
{
  World & w = *world();
  w.any();
  for(int k = 0; k < w.l.contacts; ++k)
  {
    int i = w.l.contacts - 1 - k;
    if(k == 1) w.o.setContactInitCovMatDefault(Matrix12(w.contact = sx::mat("dc", 12, 12)));
    w.add(i, sx_choice("given", 2));
  }
  w.o.removeContact(0);
  w.in[0] = false;
  w.check("removed contact");
  w.add(0, sx_choice("given again", 2));
}
SX_SCENARIO(setters)
{
  World & w = *world();
  w.add(w.l.contacts - 1, false);
  w.any();
  int c = w.l.contacts - 1, n = w.l.imus - 1;
  switch(sx_choice("what", 4))
  {
    case 0:
    {
      Matrix m = sx::mat("m", 12, 12);
      w.o.setKinematicsStateCovariance(m);
      replace(w.P, w.l.kine(), m);
      break;
    }
    case 1:
    {
      Matrix3 m = sx::mat("m", 3, 3), q = sx::mat("q", 3, 3);
      w.o.setGyroBiasStateCovariance(m, n);
      replace(w.P, w.l.bias(n), m);
      w.o.setGyroBiasProcessCovariance(q, n);
      replace(w.Q, w.l.bias(n), q);
      break;
    }
    case 2:
    {
      Matrix6 m = sx::mat("m", 6, 6), q = sx::mat("q", 6, 6);
      w.o.setUnmodeledWrenchStateCovMat(m);
      replace(w.P, w.l.unmodeled(), m);
      w.o.setUnmodeledWrenchProcessCovMat(q);
      replace(w.Q, w.l.unmodeled(), q);
      break;
    }
    default:
    {
      Matrix12 m = sx::mat("m", 12, 12), q = sx::mat("q", 12, 12);
      w.o.setContactStateCovMat(c, m);
      replace(w.P, w.l.contact(c), m);
      w.o.setContactProcessCovMat(c, q);
      replace(w.Q, w.l.contact(c), q);
    }
  }
  w.check("set");
}
SX_SCENARIO(kinematics_process)
{
  World & w = *world();
  w.any();
  Matrix m = sx::mat("m", 12, 12);
  w.o.setKinematicsProcessCovariance(m);
  replace(w.Q, w.l.kine(), m);
  w.check("set");
}
SX_SCENARIO(resets)
{
  World & w = *world();
  w.add(w.l.contacts - 1, false);
  w.any();
  if(sx_choice("defaults", 2)) w.defaults();
  int c = w.l.contacts - 1, n = w.l.imus - 1;
  switch(sx_choice("what", 6))
  {
    case 0:
      w.o.resetStateKinematicsCovMat();
      replace(w.P, w.l.kine(), w.kine);
      w.o.resetProcessKinematicsCovMat();
      replace(w.Q, w.l.kine(), kineProcess());
      break;
    case 1:
      w.o.resetStateGyroBiasCovMat(n);
      replace(w.P, w.l.bias(n), w.bias);
      w.o.resetProcessGyroBiasCovMat(n);
      replace(w.Q, w.l.bias(n), biasProcess());
      break;
    case 2:
      w.o.resetStateUnmodeledWrenchCovMat();
      replace(w.P, w.l.unmodeled(), w.unmodeled);
      w.o.resetProcessUnmodeledWrenchCovMat();
      replace(w.Q, w.l.unmodeled(), unmodeledProcess());
      break;
    case 3:
      w.o.resetStateContactCovMat(c);
      replace(w.P, w.l.contact(c), w.contact);
      w.o.resetProcessContactCovMat(c);
      replace(w.Q, w.l.contact(c), contactProcess());
      break;
    case 4:
      w.o.resetStateContactsCovMat();
      w.resetContacts();
      w.o.resetProcessContactsCovMat();
      replace(w.Q, w.l.contact(c), contactProcess());
      break;
    default:
      w.o.resetStateCovarianceMat();
      w.resetState();
      w.check("state");
      w.o.resetProcessCovarianceMat();
      replace(w.Q, w.l.kine(), kineProcess());
      for(int i = 0; i < w.l.imus; ++i) replace(w.Q, w.l.bias(i), biasProcess());
      replace(w.Q, w.l.unmodeled(), unmodeledProcess());
      replace(w.Q, w.l.contact(c), contactProcess());
  }
  w.check("reset");
}
// components of the state given by the user
SX_SCENARIO(components)
{
  World & w = *world();
  for(int i = 0; i < w.l.contacts; ++i)
    if(i != 1) w.add(i, false);
  w.any();
  Vector x = sx::vec("x", w.o.getStateSize());
  x.segment(w.o.oriIndex(), 4) = unitQuat("o");
  for(int i = 0; i < w.l.contacts; ++i)
    if(w.in[i]) x.segment(w.o.contactOriIndex(i), 4) = unitQuat("c" + std::to_string(i));
  w.o.setStateVector(x, false);
  w.check("state set without reset");
  if(sx_choice("defaults", 2)) w.defaults();
  bool reset = sx_choice("reset", 2);
  int n = w.l.imus - 1;
  switch(sx_choice("what", 4))
  {
    case 0:
    {
      bool wrenches = sx_choice("wrenches", 2);
      Motion m = motion("m");
      w.o.setStateKinematics(m.kin(1), wrenches, reset);
      x.segment(w.o.posIndex(), 3) = m.p;
      x.segment(w.o.oriIndex(), 4) = m.q;
      x.segment(w.o.linVelIndex(), 3) = m.v;
      x.segment(w.o.angVelIndex(), 3) = m.w;
      if(wrenches)
        for(int i = 0; i < w.l.contacts; ++i)
          if(w.in[i]) x.segment(w.o.contactWrenchIndex(i), 6).setZero();
      if(reset)
      {
        replace(w.P, w.l.kine(), w.kine);
        if(wrenches) w.resetContacts();
      }
      break;
    }
    case 1:
    {
      V3 b = sx::vec3("b");
      w.o.setGyroBias(b, n, reset);
      x.segment(w.o.gyroBiasIndex(n), 3) = b;
      if(reset) replace(w.P, w.l.bias(n), w.bias);
      break;
    }
    case 2:
    {
      Vector6 f = sx::vec("f", 6);
      w.o.setStateUnmodeledWrench(f, reset);
      x.segment(w.o.unmodeledWrenchIndex(), 6) = f;
      if(reset) replace(w.P, w.l.unmodeled(), w.unmodeled);
      break;
    }
    default:
    {
      x.tail(6) = sx::vec("new", 6);
      w.o.setStateVector(x, reset);
      if(reset) w.resetState();
    }
  }
  sx::eqm(w.o.getCurrentStateVector(), x, "state");
  sx::eqm(w.o.getEKF().getCurrentEstimatedState(), x, "state of the filter");
  sx::eqm(w.o.getKinematics().toVector(K::flagsStateKine), x.segment(w.o.kineIndex(), 13), "kinematics of the state");
  sx::eqm(w.o.getUnmodeledWrench(), x.segment(w.o.unmodeledWrenchIndex(), 6), "unmodeled wrench");
  w.check("state set");
}
