// Kinematics: integration over a sampling period, and update with partial new information.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using kine::Kinematics;
using ref::M3; using ref::V3; using ref::V4;
typedef Kinematics::Flags F;
SX_SCENARIO(integrate)
{
  int m = sx_choice("fields", 64);
  double dt = sx::var("dt", 0.001, 1);
  V3 p = sx::vec3("p"), v = sx::vec3("v"), w = sx::vec3("w"), a = sx::vec3("a"), al = sx::vec3("al");
  V4 q = ref::unitQuat("q");
  V3 d = w * dt, d2 = w * dt + al * (dt * dt / 2);
  sx::assumeLt(1e-12, d.squaredNorm());
  sx::assumeLt(1e-12, d2.squaredNorm());
  Kinematics k;
  if(m & 1) k.position = p;
  if(m & 2) k.linVel = v;
  if(m & 4) k.linAcc = a;
  if(m & 8)
  {
    int rep = sx_choice("rep", 3);
    if(rep == 0) k.orientation = ref::Q(q);
    if(rep == 1) k.orientation = Matrix3(ref::quatToMat(q));
    if(rep == 2) k.orientation.setValue(ref::Q(q), ref::quatToMat(q));
  }
  if(m & 16) k.angVel = w;
  if(m & 32) k.angAcc = al;
  k.integrate(dt);
  sx::yes(k.position.isSet() == bool(m & 1) && k.linVel.isSet() == bool(m & 2) && k.linAcc.isSet() == bool(m & 4)
              && k.orientation.isSet() == bool(m & 8) && k.angVel.isSet() == bool(m & 16) && k.angAcc.isSet() == bool(m & 32),
          "the same fields are set");
  bool V = m & 2, A = m & 4, W = m & 16, L = m & 32;
  if(m & 1)
  {
    V3 e = p;
    if(V) e += v * dt;
    if(V && A) e += a * (dt * dt / 2);
    sx::eqm(k.position(), e, "position");
  }
  if(V) sx::eqm(k.linVel(), A ? V3(v + a * dt) : v, "linear velocity");
  if(A) sx::eqm(k.linAcc(), a, "linear acceleration");
  if(m & 8)
  {
    M3 R = ref::quatToMat(q);
    if(W) R = ref::mul(ref::expMat(L ? d2 : d), R);
    sx::eqm(k.orientation.toMatrix3(), R, "orientation");
    if(k.orientation.isQuaternionSet()) sx::eqm(ref::quatToMat(ref::C(k.orientation.toQuaternion())), R, "quaternion");
  }
  if(W) sx::eqm(k.angVel(), L ? V3(w + al * dt) : w, "angular velocity");
  if(L) sx::eqm(k.angAcc(), al, "angular acceleration");
}
// What update() must produce for one triple (pose, velocity, acceleration). have/got/flag are masks
// (1 pose, 2 velocity, 4 acceleration) of the current value, the new value and the requested fields.
struct Spec
{
  bool valid; // preconditions of update()
  int pose; // 0 new, 1 old + v dt + a dt^2/2, 2 old + v dt, 3 old + a dt^2/2, 4 old
  int vel; // 0 new, 1 pose difference, 2 old + a dt, 3 old
  int acc; // 0 new, 1 velocity difference, 2 (pose difference/dt - v)/dt, 3 2*pose difference/dt^2, 4 old, -1 not specified
};
static Spec specify(int have, int got, int flag)
{
  Spec s;
  s.valid = true;
  bool p = have & 1, v = have & 2, a = have & 4, np = got & 1, nv = got & 2, na = got & 4;
  s.pose = s.vel = s.acc = 4;
  if(flag & 1)
  {
    if(np) s.pose = 0;
    else
    {
      if(!p) s.valid = false;
      s.pose = v ? (a ? 1 : 2) : (a ? 3 : 4);
    }
  }
  if(flag & 2)
  {
    if(nv) s.vel = 0;
    else if(p && np) s.vel = 1;
    else
    {
      if(!v) s.valid = false;
      s.vel = a ? 2 : 3;
    }
  }
  if(flag & 4)
  {
    if(na) s.acc = 0;
    else if(v && nv) s.acc = 1;
    else if(p && np)
    {
      if(v) s.acc = (flag & 2) && !nv ? 2 : -1;
      else s.acc = 3;
    }
    else
    {
      if(!a) s.valid = false;
      s.acc = 4;
    }
  }
  return s;
}
SX_SCENARIO(update_linear)
{
  int have = sx_choice("have", 8), got = sx_choice("got", 8), flag = sx_choice("flags", 8);
  Spec s = specify(have, got, flag);
  if(!s.valid) return;
  double dt = sx::var("dt", 0.001, 1);
  V3 p = sx::vec3("p"), v = sx::vec3("v"), a = sx::vec3("a"), np = sx::vec3("np"), nv = sx::vec3("nv"), na = sx::vec3("na");
  // the position is extrapolated while the acceleration is re-derived from the velocities: decided on the motions where
  // the two sources of acceleration agree
  if(s.pose == 1 && s.acc == 1) nv = v + a * dt;
  Kinematics k, n;
  k.reset();
  n.reset();
  if(have & 1) k.position = p;
  if(have & 2) k.linVel = v;
  if(have & 4) k.linAcc = a;
  if(got & 1) n.position = np;
  if(got & 2) n.linVel = nv;
  if(got & 4) n.linAcc = na;
  k.update(n, dt, (flag & 1 ? F::position : 0) | (flag & 2 ? F::linVel : 0) | (flag & 4 ? F::linAcc : 0));
  if(!(flag & 1)) sx::yes(!k.position.isSet(), "unrequested position is unset");
  if(!(flag & 2)) sx::yes(!k.linVel.isSet(), "unrequested velocity is unset");
  if(!(flag & 4)) sx::yes(!k.linAcc.isSet(), "unrequested acceleration is unset");
  sx::yes(!k.orientation.isSet() && !k.angVel.isSet() && !k.angAcc.isSet(), "angular part untouched");
  if(flag & 1)
  {
    V3 e = s.pose == 0 ? np : p;
    if(s.pose == 1 || s.pose == 2) e += v * dt;
    if(s.pose == 1 || s.pose == 3) e += a * (dt * dt / 2);
    sx::yes(k.position.isSet(), "position set");
    if(k.position.isSet()) sx::eqm(k.position(), e, "position");
  }
  if(flag & 2)
  {
    V3 e = s.vel == 0 ? nv : s.vel == 1 ? V3((np - p) / dt) : s.vel == 2 ? V3(v + a * dt) : v;
    sx::yes(k.linVel.isSet(), "velocity set");
    if(k.linVel.isSet()) sx::eqm(k.linVel(), e, "velocity");
  }
  if(flag & 4)
  {
    sx::yes(k.linAcc.isSet(), "acceleration set");
    V3 e = s.acc == 0 ? na : s.acc == 1 ? V3((nv - v) / dt) : s.acc == 2 ? V3(((np - p) / dt - v) / dt)
               : s.acc == 3 ? V3((np - p) * 2 / (dt * dt)) : a;
    if(s.acc >= 0 && k.linAcc.isSet()) sx::eqm(k.linAcc(), e, "acceleration");
  }
}
SX_SCENARIO(update_angular)
{
  int have = sx_choice("have", 8), got = sx_choice("got", 8), flag = sx_choice("flags", 8);
  Spec s = specify(have, got, flag);
  if(!s.valid) return;
  double dt = sx::var("dt", 0.001, 1);
  V3 v = sx::vec3("w"), a = sx::vec3("al"), nv = sx::vec3("nw"), na = sx::vec3("nal");
  V4 q = ref::unitQuat("q");
  bool useD = (have & 1) && (got & 1) && (s.vel == 1 || s.acc == 2 || s.acc == 3);
  V3 d = V3::Zero();
  V4 nq = q;
  if(got & 1)
  {
    if(useD)
    {
      d = ref::rotVec("d", 1e-6, 9.8);
      nq = ref::quatMul(ref::expQuat(d), q);
    }
    else nq = ref::unitQuat("n");
  }
  if(s.pose == 1 && s.acc == 1) nv = v + a * dt;
  Kinematics k, n;
  k.reset();
  n.reset();
  if(have & 1) k.orientation = ref::Q(q);
  if(have & 2) k.angVel = v;
  if(have & 4) k.angAcc = a;
  if(got & 1) n.orientation = ref::Q(nq);
  if(got & 2) n.angVel = nv;
  if(got & 4) n.angAcc = na;
  V3 inc = V3::Zero();
  if(s.pose == 1 || s.pose == 2) inc += v * dt;
  if(s.pose == 1 || s.pose == 3) inc += a * (dt * dt / 2);
  bool moved = (flag & 1) && s.pose >= 1 && s.pose <= 3;
  if(moved) sx::assumeLt(1e-6, inc.squaredNorm());
  k.update(n, dt, (flag & 1 ? F::orientation : 0) | (flag & 2 ? F::angVel : 0) | (flag & 4 ? F::angAcc : 0));
  if(!(flag & 1)) sx::yes(!k.orientation.isSet(), "unrequested orientation is unset");
  if(!(flag & 2)) sx::yes(!k.angVel.isSet(), "unrequested angular velocity is unset");
  if(!(flag & 4)) sx::yes(!k.angAcc.isSet(), "unrequested angular acceleration is unset");
  sx::yes(!k.position.isSet() && !k.linVel.isSet() && !k.linAcc.isSet(), "linear part untouched");
  if(flag & 1)
  {
    sx::yes(k.orientation.isSet(), "orientation set");
    V4 e = s.pose == 0 ? nq : moved ? ref::quatMul(ref::expQuat(inc), q) : q;
    if(k.orientation.isSet()) sx::eqm(ref::quatToMat(ref::C(k.orientation.toQuaternion())), ref::quatToMat(e), "orientation");
  }
  if(flag & 2)
  {
    V3 e = s.vel == 0 ? nv : s.vel == 1 ? V3(d / dt) : s.vel == 2 ? V3(v + a * dt) : v;
    sx::yes(k.angVel.isSet(), "angular velocity set");
    if(k.angVel.isSet()) sx::eqm(k.angVel(), e, "angular velocity");
  }
  if(flag & 4)
  {
    sx::yes(k.angAcc.isSet(), "angular acceleration set");
    V3 e = s.acc == 0 ? na : s.acc == 1 ? V3((nv - v) / dt) : s.acc == 2 ? V3((d / dt - v) / dt)
               : s.acc == 3 ? V3(d * 2 / (dt * dt)) : a;
    if(s.acc >= 0 && k.angAcc.isSet()) sx::eqm(k.angAcc(), e, "angular acceleration");
  }
}
