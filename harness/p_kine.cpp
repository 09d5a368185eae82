// Kinematics: composition, inversion, vector conversion, and which fields are set.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using kine::Kinematics; using kine::Orientation;
using ref::M3; using ref::V3; using ref::V4; using ref::cross; using ref::mulv;
struct K
{
  V3 p, v, w, a, al;
  V4 q;
  M3 R;
};
static K raw(const std::string & n)
{
  K k;
  k.p = sx::vec3(n + "p"); k.v = sx::vec3(n + "v"); k.w = sx::vec3(n + "w"); k.a = sx::vec3(n + "a"); k.al = sx::vec3(n + "al");
  k.q = ref::unitQuat(n + "q");
  k.R = ref::quatToMat(k.q);
  return k;
}
static Kinematics make(const K & k, int rep = 0)
{
  Kinematics x;
  x.position = k.p; x.linVel = k.v; x.angVel = k.w; x.linAcc = k.a; x.angAcc = k.al;
  if(rep == 0) x.orientation = ref::Q(k.q);
  else if(rep == 1) x.orientation = Matrix3(k.R);
  else x.orientation.setValue(ref::Q(k.q), k.R);
  return x;
}
// composition of motions derived by differentiating p = p1 + R1 p2, R = R1 R2 twice
static K compose(const K & x, const K & y)
{
  K r;
  V3 rp = mulv(x.R, y.p), rv = mulv(x.R, y.v), ra = mulv(x.R, y.a);
  r.p = x.p + rp;
  r.v = x.v + cross(x.w, rp) + rv;
  r.a = x.a + cross(x.al, rp) + cross(x.w, cross(x.w, rp)) + 2 * cross(x.w, rv) + ra;
  V3 rw = mulv(x.R, y.w);
  r.w = x.w + rw;
  r.al = x.al + cross(x.w, rw) + mulv(x.R, y.al);
  r.R = ref::mul(x.R, y.R);
  r.q = ref::quatMul(x.q, y.q);
  return r;
}
static void same(const Kinematics & x, const K & k, const std::string & l)
{
  sx::yes(x.position.isSet() && x.orientation.isSet() && x.linVel.isSet() && x.angVel.isSet() && x.linAcc.isSet() && x.angAcc.isSet(),
          l + ": all set");
  sx::eqm(x.position(), k.p, l + ": position");
  sx::eqm(x.orientation.toMatrix3(), k.R, l + ": orientation");
  sx::eqm(x.linVel(), k.v, l + ": linear velocity");
  sx::eqm(x.angVel(), k.w, l + ": angular velocity");
  sx::eqm(x.linAcc(), k.a, l + ": linear acceleration");
  sx::eqm(x.angAcc(), k.al, l + ": angular acceleration");
}
SX_SCENARIO(composition)
{
  K a = raw("a"), b = raw("b");
  Kinematics A = make(a, sx_choice("repA", 3)), B = make(b, sx_choice("repB", 3));
  int how = sx_choice("how", 3);
  if(how == 0) same(A * B, compose(a, b), "A*B");
  if(how == 1) same(Kinematics(A, B), compose(a, b), "Kinematics(A,B)");
  if(how == 2)
  {
    Kinematics C;
    if(sx_choice("dirty", 2)) C = make(raw("c"), 2);
    C.setToProductNoAlias(A, B);
    same(C, compose(a, b), "setToProductNoAlias");
  }
  same(A, a, "left operand unchanged");
  same(B, b, "right operand unchanged");
}
SX_SCENARIO(inverse)
{
  K a = raw("a");
  Kinematics A = make(a, sx_choice("repA", 3));
  Kinematics I = A.getInverse();
  K id;
  id.p = id.v = id.w = id.a = id.al = V3::Zero();
  id.R = M3::Identity();
  same(A * I, id, "A*inv(A)");
  same(I * A, id, "inv(A)*A");
  same(A, a, "operand unchanged");
}
SX_SCENARIO(inverse_twice)
{
  K a = raw("a");
  Kinematics A = make(a, sx_choice("repA", 3));
  same(A.getInverse().getInverse(), a, "inverse of the inverse");
}
// which fields of a product / an inverse are available, for every combination of available fields
static Kinematics part(const K & k, int mask, bool ori)
{
  Kinematics x;
  x.reset();
  if(mask & 1) x.position = k.p;
  if(mask & 2) x.linVel = k.v;
  if(mask & 4) x.angVel = k.w;
  if(mask & 8) x.linAcc = k.a;
  if(mask & 16) x.angAcc = k.al;
  if(ori) x.orientation = ref::Q(k.q);
  return x;
}
static void sameIfSet(const Kinematics & x, const K & k, const std::string & l)
{
  if(x.position.isSet()) sx::eqm(x.position(), k.p, l + ": position");
  if(x.orientation.isSet()) sx::eqm(x.orientation.toMatrix3(), k.R, l + ": orientation");
  if(x.linVel.isSet()) sx::eqm(x.linVel(), k.v, l + ": linear velocity");
  if(x.angVel.isSet()) sx::eqm(x.angVel(), k.w, l + ": angular velocity");
  if(x.linAcc.isSet()) sx::eqm(x.linAcc(), k.a, l + ": linear acceleration");
  if(x.angAcc.isSet()) sx::eqm(x.angAcc(), k.al, l + ": angular acceleration");
}
SX_SCENARIO(partial_product)
{
  int ma = sx_choice("fieldsA", 32), mb = sx_choice("fieldsB", 32);
  bool ob = sx_choice("orientationB", 2);
  if(!ob && !(mb & 1)) return; // documented precondition
#ifndef SX_THOROUGH
  // one field missing on one side at a time, plus the usual truncations (positions only, up to velocities)
  auto common = [](int m) { return m == 31 || m == 30 || m == 29 || m == 27 || m == 23 || m == 15 || m == 1 || m == 7 || m == 0; };
  if(!common(ma) || !common(mb)) return;
#endif
  K a = raw("a"), b = raw("b");
  Kinematics A = part(a, ma, true), B = part(b, mb, ob);
  Kinematics C = make(raw("c"), 2); // previous content must not leak
  C.setToProductNoAlias(A, B);
  bool P = (ma & 1) && (mb & 1), V = P && (ma & 2) && (mb & 2) && (ma & 4), L = V && (ma & 8) && (mb & 8) && (ma & 16);
  bool W = ob && (ma & 4) && (mb & 4), G = W && (ma & 16) && (mb & 16);
  sx::yes(C.position.isSet() == P, "position available iff both positions are");
  sx::yes(C.linVel.isSet() == V, "linear velocity available iff its terms are");
  sx::yes(C.linAcc.isSet() == L, "linear acceleration available iff its terms are");
  sx::yes(C.orientation.isSet() == ob, "orientation available iff the second one is");
  sx::yes(C.angVel.isSet() == W, "angular velocity available iff its terms are");
  sx::yes(C.angAcc.isSet() == G, "angular acceleration available iff its terms are");
  sameIfSet(C, compose(a, b), "partial product");
}
SX_SCENARIO(partial_inverse)
{
  int m = sx_choice("fields", 32);
  K a = raw("a");
  Kinematics A = part(a, m, true), I = A.getInverse(), F = make(a).getInverse();
  bool P = m & 1, W = m & 4, G = W && (m & 16), V = P && (m & 2) && W, L = V && (m & 8) && (m & 16);
  sx::yes(I.orientation.isSet(), "orientation");
  sx::yes(I.position.isSet() == P, "position available");
  sx::yes(I.angVel.isSet() == W, "angular velocity available");
  sx::yes(I.angAcc.isSet() == G, "angular acceleration available");
  sx::yes(I.linVel.isSet() == V, "linear velocity available");
  sx::yes(I.linAcc.isSet() == L, "linear acceleration available");
  K f;
  f.p = F.position(); f.R = F.orientation.toMatrix3(); f.v = F.linVel(); f.w = F.angVel(); f.a = F.linAcc(); f.al = F.angAcc();
  sameIfSet(I, f, "partial inverse agrees with the full one");
}
SX_SCENARIO(associativity)
{
  K a = raw("a"), b = raw("b"), c = raw("c");
  Kinematics A = make(a), B = make(b), C = make(c);
  Kinematics l = (A * B) * C, r = A * (B * C);
  sx::eqm(l.position(), r.position(), "position");
  sx::eqm(l.linVel(), r.linVel(), "linear velocity");
  sx::eqm(l.angVel(), r.angVel(), "angular velocity");
  sx::eqm(l.orientation.toVector4(), r.orientation.toVector4(), "orientation");
  sx::eqm(l.angAcc(), r.angAcc(), "angular acceleration");
  sx::eqm(l.linAcc(), r.linAcc(), "linear acceleration");
}
