// KineticsObserver: layout of the state and of its tangent space, sum and difference of states, difference of measurements.
#include "p_kobs.hpp"
typedef std::pair<long, long> Block; // index, size
static void tiles(std::vector<Block> b, long size, const std::string & l)
{
  std::sort(b.begin(), b.end());
  long at = 0;
  for(size_t i = 0; i < b.size(); ++i)
  {
    sx::eqi(b[i].first, at, l + ": blocks follow each other");
    at = b[i].first + b[i].second;
  }
  sx::eqi(at, size, l + ": the blocks cover the vector");
}
static bool in(int set, int i) { return (set >> i) & 1; }
static Kin contactPose(int i)
{
  Motion m = someMotion(i);
  return m.kin(0);
}
SX_SCENARIO(layout)
{
  int maxC = sx_choice("contacts", 4), maxI = 1 + sx_choice("imus", 3);
  KineticsObserver o(maxC, maxI);
  for(int i = 0; i < maxC; ++i) o.addContact(contactPose(i), maxC - 1 - i);
  std::vector<Block> s, t;
  sx::eqi(o.kineIndex(), o.posIndex(), "the kinematics start with the position");
  sx::eqi(o.kineIndexTangent(), o.posIndexTangent(), "the kinematics start with the position (tangent)");
  s.push_back(Block(o.posIndex(), 3));
  t.push_back(Block(o.posIndexTangent(), 3));
  s.push_back(Block(o.oriIndex(), 4));
  t.push_back(Block(o.oriIndexTangent(), 3));
  s.push_back(Block(o.linVelIndex(), 3));
  t.push_back(Block(o.linVelIndexTangent(), 3));
  s.push_back(Block(o.angVelIndex(), 3));
  t.push_back(Block(o.angVelIndexTangent(), 3));
  for(int i = 0; i < maxI; ++i)
  {
    s.push_back(Block(o.gyroBiasIndex(i), 3));
    t.push_back(Block(o.gyroBiasIndexTangent(i), 3));
  }
  sx::eqi(o.unmodeledWrenchIndex(), o.unmodeledForceIndex(), "unmodeled wrench");
  sx::eqi(o.unmodeledWrenchIndexTangent(), o.unmodeledForceIndexTangent(), "unmodeled wrench (tangent)");
  s.push_back(Block(o.unmodeledForceIndex(), 3));
  t.push_back(Block(o.unmodeledForceIndexTangent(), 3));
  s.push_back(Block(o.unmodeledTorqueIndex(), 3));
  t.push_back(Block(o.unmodeledTorqueIndexTangent(), 3));
  sx::eqi(o.unmodeledTorqueIndex(), o.unmodeledForceIndex() + 3, "torque after force");
  sx::eqi(o.unmodeledTorqueIndexTangent(), o.unmodeledForceIndexTangent() + 3, "torque after force (tangent)");
  for(int i = 0; i < maxC; ++i)
  {
    if(i == 0)
    {
      sx::eqi(o.contactsIndex(), o.contactIndex(0), "first contact");
      sx::eqi(o.contactsIndexTangent(), o.contactIndexTangent(0), "first contact (tangent)");
    }
    sx::eqi(o.contactIndex(i), o.contactKineIndex(i), "contact");
    sx::eqi(o.contactIndexTangent(i), o.contactKineIndexTangent(i), "contact (tangent)");
    sx::eqi(o.contactKineIndex(i), o.contactPosIndex(i), "contact kinematics");
    sx::eqi(o.contactKineIndexTangent(i), o.contactPosIndexTangent(i), "contact kinematics (tangent)");
    sx::eqi(o.contactOriIndex(i), o.contactPosIndex(i) + 3, "contact orientation");
    sx::eqi(o.contactWrenchIndex(i), o.contactForceIndex(i), "contact wrench");
    sx::eqi(o.contactWrenchIndexTangent(i), o.contactForceIndexTangent(i), "contact wrench (tangent)");
    sx::eqi(o.contactTorqueIndex(i), o.contactForceIndex(i) + 3, "contact torque");
    sx::eqi(o.contactTorqueIndexTangent(i), o.contactForceIndexTangent(i) + 3, "contact torque (tangent)");
    s.push_back(Block(o.contactPosIndex(i), 3));
    t.push_back(Block(o.contactPosIndexTangent(i), 3));
    s.push_back(Block(o.contactOriIndex(i), 4));
    t.push_back(Block(o.contactOriIndexTangent(i), 3));
    s.push_back(Block(o.contactForceIndex(i), 3));
    t.push_back(Block(o.contactForceIndexTangent(i), 3));
    s.push_back(Block(o.contactTorqueIndex(i), 3));
    t.push_back(Block(o.contactTorqueIndexTangent(i), 3));
  }
  tiles(s, o.getStateSize(), "state");
  tiles(t, o.getStateCovarianceMat().rows(), "tangent");
  sx::eqi(o.getStateCovarianceMat().cols(), o.getStateCovarianceMat().rows(), "square covariance");
  sx::eqi(o.getEKF().getQ().rows(), o.getStateCovarianceMat().rows(), "process covariance");
  sx::eqi(o.getCurrentStateVector().size(), o.getStateSize(), "state vector");
}
// a state, with the listed contacts, and its components
struct State
{
  V3 p, v, w;
  V4 q;
  std::vector<V3> bias;
  Vector wrench;
  std::vector<V3> cp;
  std::vector<V4> cq;
  std::vector<Vector> cw;
  State(const std::string & n, int C, int I)
  {
    p = sx::vec3(n + "p");
    q = unitQuat(n + "q");
    v = sx::vec3(n + "v");
    w = sx::vec3(n + "w");
    wrench = sx::vec(n + "wr", 6);
    for(int i = 0; i < I; ++i) bias.push_back(sx::vec3(n + "b" + std::to_string(i)));
    for(int i = 0; i < C; ++i)
    {
      cp.push_back(sx::vec3(n + "cp" + std::to_string(i)));
      cq.push_back(unitQuat(n + "cq" + std::to_string(i)));
      cw.push_back(sx::vec(n + "cw" + std::to_string(i), 6));
    }
  }
  Vector vec(const KineticsObserver & o, int set) const
  {
    Vector x = Vector::Zero(o.getStateSize());
    x.segment(o.posIndex(), 3) = p;
    x.segment(o.oriIndex(), 4) = q;
    x.segment(o.linVelIndex(), 3) = v;
    x.segment(o.angVelIndex(), 3) = w;
    for(size_t i = 0; i < bias.size(); ++i) x.segment(o.gyroBiasIndex(i), 3) = bias[i];
    x.segment(o.unmodeledWrenchIndex(), 6) = wrench;
    for(size_t i = 0; i < cp.size(); ++i)
      if(in(set, i))
      {
        x.segment(o.contactPosIndex(i), 3) = cp[i];
        x.segment(o.contactOriIndex(i), 4) = cq[i];
        x.segment(o.contactWrenchIndex(i), 6) = cw[i];
      }
    return x;
  }
};
struct Tangent
{
  V3 p, o, v, w;
  std::vector<V3> bias;
  Vector wrench;
  std::vector<V3> cp, co;
  std::vector<Vector> cw;
  Tangent(const std::string & n, int C, int I, int set)
  {
    p = sx::vec3(n + "p");
    o = rotVec(n + "o", 1e-6, 9.8);
    v = sx::vec3(n + "v");
    w = sx::vec3(n + "w");
    wrench = sx::vec(n + "wr", 6);
    for(int i = 0; i < I; ++i) bias.push_back(sx::vec3(n + "b" + std::to_string(i)));
    for(int i = 0; i < C; ++i)
    {
      cp.push_back(sx::vec3(n + "cp" + std::to_string(i)));
      if(in(set, i)) co.push_back(rotVec(n + "co" + std::to_string(i), 1e-6, 9.8));
      else co.push_back(V3::Zero());
      cw.push_back(sx::vec(n + "cw" + std::to_string(i), 6));
    }
  }
  // the parts which are not estimated are left at zero
  Vector vec(const KineticsObserver & ob, int set, bool unmodeled, bool gyro) const
  {
    Vector x = Vector::Zero(ob.getStateCovarianceMat().rows());
    x.segment(ob.posIndexTangent(), 3) = p;
    x.segment(ob.oriIndexTangent(), 3) = o;
    x.segment(ob.linVelIndexTangent(), 3) = v;
    x.segment(ob.angVelIndexTangent(), 3) = w;
    if(gyro)
      for(size_t i = 0; i < bias.size(); ++i) x.segment(ob.gyroBiasIndexTangent(i), 3) = bias[i];
    if(unmodeled) x.segment(ob.unmodeledWrenchIndexTangent(), 6) = wrench;
    for(size_t i = 0; i < cp.size(); ++i)
      if(in(set, i))
      {
        x.segment(ob.contactPosIndexTangent(i), 3) = cp[i];
        x.segment(ob.contactOriIndexTangent(i), 3) = co[i];
        x.segment(ob.contactWrenchIndexTangent(i), 6) = cw[i];
      }
    return x;
  }
};
static State plus(State s, const Tangent & t, int set, bool unmodeled, bool gyro)
{
  s.p += t.p;
  s.q = quatMul(expQuat(t.o), s.q);
  s.v += t.v;
  s.w += t.w;
  if(gyro)
    for(size_t i = 0; i < s.bias.size(); ++i) s.bias[i] += t.bias[i];
  if(unmodeled) s.wrench += t.wrench;
  for(size_t i = 0; i < s.cp.size(); ++i)
    if(in(set, i))
    {
      s.cp[i] += t.cp[i];
      s.cq[i] = quatMul(expQuat(t.co[i]), s.cq[i]);
      s.cw[i] += t.cw[i];
    }
  return s;
}
static void arithmetics(bool difference)
{
  int C = 2, I = 2;
  KineticsObserver o(C, I);
  int set = sx_choice("contacts", 4), wrong = 0;
  bool unmodeled = sx_choice("unmodeled wrench", 2), gyro = 1 - sx_choice("without gyro bias", 2);
  for(int i = 0; i < C; ++i)
    if(in(set, i)) sx::eqi(o.addContact(contactPose(i), i), i, "contact number");
  (void)wrong;
  o.setWithUnmodeledWrench(unmodeled);
  o.setWithGyroBias(gyro);
  State s("s", C, I);
  Tangent t("t", C, I, set);
  State r = plus(s, t, set, unmodeled, gyro);
  Vector x = s.vec(o, set), d = t.vec(o, set, unmodeled, gyro), e = r.vec(o, set);
  if(!difference)
  {
    // the components which are not estimated do not change
    Vector full = t.vec(o, set, true, true), sum;
    if(sx_choice("reused output", 2)) sum = sx::vec("old", 3);
    o.stateSum(x, full, sum);
    sx::eqm(sum, e, "sum");
    sx::eqm(o.stateSum(x, full), e, "returned sum");
    return;
  }
  Vector diff;
  if(sx_choice("reused output", 2)) diff = sx::vec("old", d.size());
  o.stateDifference(e, x, diff);
  sx::eqm(diff, d, "difference");
  sx::eqm(o.stateDifference(e, x), d, "returned difference");
}
SX_SCENARIO(sum) { arithmetics(false); }
SX_SCENARIO(difference) { arithmetics(true); }
