// Kinematics <-> vector conversions, zeroing, reset: selected by flags.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using kine::Kinematics;
using ref::V3; using ref::V4; using ref::M3;
typedef Kinematics::Flags F;
static const F::Byte BIT[6] = {F::position, F::orientation, F::linVel, F::angVel, F::linAcc, F::angAcc};
static const int SZ[6] = {3, 4, 3, 3, 3, 3};
static int setMask(const Kinematics & k)
{
  return k.position.isSet() | k.orientation.isSet() << 1 | k.linVel.isSet() << 2 | k.angVel.isSet() << 3 | k.linAcc.isSet() << 4
         | k.angAcc.isSet() << 5;
}
static Vector field(const Kinematics & k, int i)
{
  switch(i)
  {
    case 0: return k.position();
    case 1: return k.orientation.toVector4();
    case 2: return k.linVel();
    case 3: return k.angVel();
    case 4: return k.linAcc();
    default: return k.angAcc();
  }
}
static Vector fieldVar(const std::string & n, int i)
{
  if(i == 1) return Vector(ref::unitQuat(n + "q"));
  return Vector(sx::vec3(n + std::to_string(i) + "_"));
}
static Vector fullVector(const std::string & n, int mask, Vector parts[6])
{
  int size = 0;
  for(int i = 0; i < 6; ++i)
    if(mask >> i & 1) size += SZ[i];
  Vector v(size);
  int idx = 0;
  for(int i = 0; i < 6; ++i)
    if(mask >> i & 1)
    {
      parts[i] = fieldVar(n, i);
      v.segment(idx, SZ[i]) = parts[i];
      idx += SZ[i];
    }
  return v;
}
static F::Byte flags(int mask)
{
  F::Byte f = 0;
  for(int i = 0; i < 6; ++i)
    if(mask >> i & 1) f |= BIT[i];
  return f;
}
SX_SCENARIO(round_trip)
{
  int mask = sx_choice("flags", 64);
  Vector parts[6];
  Vector v = fullVector("n", mask, parts);
  Kinematics k;
  k.reset();
  int how = sx_choice("how", 2);
  if(how == 0) k.fromVector(v, flags(mask));
  else k = Kinematics(v, flags(mask));
  int got = setMask(k);
  for(int i = 0; i < 6; ++i)
    if(mask >> i & 1)
    {
      sx::yes(got >> i & 1, "loaded field is set");
      sx::eqm(field(k, i), parts[i], "field " + std::to_string(i));
    }
    else if(how == 0) sx::yes(!(got >> i & 1), "field not loaded stays unset");
  sx::eqm(k.toVector(flags(mask)), v, "toVector(flags) returns the vector");
  if(how == 0) sx::eqm(k.toVector(), v, "toVector() returns the set fields in order");
}
SX_SCENARIO(partial_extraction)
{
  // extracting a subset of the fields of a full kinematics
  int mask = sx_choice("flags", 64);
  Vector parts[6];
  Vector v = fullVector("n", 63, parts);
  Kinematics k(v, F::all);
  sx::eqm(k.toVector(), v, "all fields");
  Vector w = k.toVector(flags(mask));
  int idx = 0;
  for(int i = 0; i < 6; ++i)
    if(mask >> i & 1)
    {
      sx::eqm(w.segment(idx, SZ[i]), parts[i], "extracted field " + std::to_string(i));
      idx += SZ[i];
    }
  sx::eqi(w.size(), idx, "size");
}
SX_SCENARIO(representations)
{
  // the orientation can be held as a quaternion, as a matrix or as both
  int mask = sx_choice("flags", 64) | 2, rep = sx_choice("representation", 3);
  Vector parts[6];
  Vector v = fullVector("n", mask, parts);
  Kinematics k(v, flags(mask));
  V4 q = parts[1];
  // the sign of the quaternion is not determined by the matrix
  sx::assumeLt(0.01, q(3));
  M3 R = ref::quatToMat(q);
  sx::assumeLt(0.01, R(0, 0) + R(1, 1) + R(2, 2));
  if(rep == 0) k.orientation.toMatrix3();
  if(rep == 1) k.orientation = Matrix3(R);
  if(rep == 2)
  {
    k.orientation = Matrix3(R);
    k.orientation.toQuaternion();
  }
  if(sx_choice("with flags", 2)) sx::eqm(k.toVector(flags(mask)), v, "toVector(flags)");
  else
  {
    Vector w = k.toVector();
    int idx = 0;
    for(int i = 0; i < 6; ++i)
      if((setMask(k) >> i & 1) && (mask >> i & 1)) sx::eqm(w.segment(idx, SZ[i]), parts[i], "field " + std::to_string(i)), idx += SZ[i];
      else if(setMask(k) >> i & 1) idx += SZ[i];
    sx::eqi(w.size(), idx, "size of toVector()");
  }
}
SX_SCENARIO(partial_load)
{
  // loading a subset leaves the other fields untouched
  int mask = sx_choice("flags", 64);
  Vector old[6], parts[6];
  Vector v0 = fullVector("o", 63, old);
  Vector v = fullVector("n", mask, parts);
  Kinematics k(v0, F::all);
  k.fromVector(v, flags(mask));
  for(int i = 0; i < 6; ++i) sx::eqm(field(k, i), mask >> i & 1 ? parts[i] : old[i], "field " + std::to_string(i));
}
SX_SCENARIO(zero)
{
  int mask = sx_choice("flags", 64), how = sx_choice("how", 3);
  Vector old[6];
  Vector v0 = fullVector("o", 63, old);
  Kinematics k(v0, F::all);
  if(how == 0) k.setZero(flags(mask));
  if(how == 1) k.setZero<Matrix3>(flags(mask));
  if(how == 2)
  {
    k.reset();
    sx::eqi(setMask(k), 0, "reset unsets every field");
    k.setZero(flags(mask));
    sx::eqi(setMask(k), mask, "setZero sets the flagged fields");
    return;
  }
  for(int i = 0; i < 6; ++i)
  {
    Vector z = Vector::Zero(SZ[i]);
    if(i == 1)
    {
      Matrix3 R = mask >> i & 1 ? Matrix3(Matrix3::Identity()) : Matrix3(ref::quatToMat(V4(old[1])));
      sx::eqm(k.orientation.toMatrix3(), R, "orientation");
      if(k.orientation.isQuaternionSet()) sx::eqm(ref::quatToMat(ref::C(k.orientation.toQuaternion())), R, "quaternion");
    }
    else sx::eqm(field(k, i), mask >> i & 1 ? z : old[i], "field " + std::to_string(i));
  }
}
