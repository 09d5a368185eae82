// Building rotations from directions: two vectors, tilt + yaw merging.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
static void isRotation(const Matrix3 & R, const char * l)
{
  sx::eqm(ref::mul(R, ref::tr(R)), Matrix3::Identity(), std::string(l) + " orthogonal");
  sx::eqm(ref::cross(R.col(0), R.col(1)), Vector3(R.col(2)), std::string(l) + " right handed");
}
// |x| > e for one of two numbers: every case, as a choice
static void oneIsNotSmall(double x, double y, double e)
{
  switch(sx_choice("which component", 4))
  {
    case 0: sx::assumeLt(e, x); break;
    case 1: sx::assumeLt(x, -e); break;
    case 2: sx::assumeLt(e, y); break;
    default: sx::assumeLt(y, -e);
  }
}
SX_SCENARIO(two_vectors)
{
  Vector3 a = ref::unitVec("a"), b = ref::unitVec("b");
  double d = a.dot(b);
  sx::assumeLt(-0.9999, d);
  sx::assumeLt(d, 0.999999);
  sx_lemma_(2, 0, (1 - d) * (1 + d), "not colinear");
  Matrix3 R = kine::twoVectorsToRotationMatrix(a, b);
  sx::eqm(ref::mulv(R, a), b, "R v1 = Rv1");
  isRotation(R, "two vectors");
  // smallest angle: the rotation axis is v1 x Rv1
  sx::eqm(ref::mulv(R, ref::cross(a, b)), ref::cross(a, b), "axis invariant");
}
SX_SCENARIO(two_vectors_equal)
{
  Vector3 a = ref::unitVec("a");
  sx::eqm(kine::twoVectorsToRotationMatrix(a, a), Matrix3::Identity(), "same vectors: identity");
}
SX_SCENARIO(two_vectors_opposite)
{
  Vector3 a = ref::unitVec("a");
  bool thrown = false;
  try
  {
    kine::twoVectorsToRotationMatrix(a, -a);
  }
  catch(const std::invalid_argument &)
  {
    thrown = true;
  }
  sx::yes(thrown, "opposite vectors are rejected");
}
SX_SCENARIO(merge_tilt_yaw)
{
  ref::V4 c = ref::unitQuat("q");
  Matrix3 R2 = ref::quatToMat(c);
  Vector3 t = ref::unitVec("t");
  Vector3 ml = R2.row(0).transpose();
  sx::assumeLt(1e-4, ref::cross(ml, t).squaredNorm());
  Matrix3 R = kine::mergeTiltWithYaw(t, R2);
  isRotation(R, "merge");
  sx::eqm(Vector3(R.row(2).transpose()), t, "tilt of the result is the given tilt");
  // the local image of the reference vector deviates as little as possible from the one of R2
  Vector3 rl = R.row(0).transpose();
  sx::eq(rl.dot(ref::cross(ml, t)), 0, "deviation of the reference vector is minimal (coplanar)");
  sx::lt(0, rl.dot(ml), "deviation of the reference vector is minimal (same side)");
  sx::eqm(kine::mergeTiltWithYaw(t, R2, Vector3::UnitX()), R, "default reference vector is e_x");
}
static double symbolicAngle(const std::string & n, double & s)
{
  double a = sx::var(n);
  s = std::sin(a);
  return std::cos(a);
}
SX_SCENARIO(merge_tilt_yaw_axis)
{
  // any horizontal reference direction
  ref::V4 c = ref::unitQuat("q");
  Matrix3 R2 = ref::quatToMat(c);
  Vector3 t = ref::unitVec("t"), m;
  switch(sx_choice("direction", 4))
  {
    case 0: m << -1, 0, 0; break;
    case 1: m << 0, 1, 0; break;
    case 2: m << 0, -1, 0; break;
    default:
    {
      double s, k = symbolicAngle("m", s);
      m << k, s, 0;
    }
  }
  Vector3 ml = ref::mulv(ref::tr(R2), m);
  sx::assumeLt(1e-4, ref::cross(ml, t).squaredNorm());
  Matrix3 R = kine::mergeTiltWithYaw(t, R2, m);
  isRotation(R, "merge on a direction");
  sx::eqm(Vector3(R.row(2).transpose()), t, "tilt of the result is the given tilt");
  Vector3 rl = ref::mulv(ref::tr(R), m);
  sx::eq(rl.dot(ref::cross(ml, t)), 0, "deviation of the given direction is minimal (coplanar)");
  sx::lt(0, rl.dot(ml), "deviation of the given direction is minimal (same side)");
}
SX_SCENARIO(merge_roll_pitch_yaw)
{
  // the version given by two rotations
  ref::V4 c = ref::unitQuat("q"), d = ref::unitQuat("r");
  Matrix3 R1 = ref::quatToMat(d), R2 = ref::quatToMat(c);
  Vector3 t = R1.row(2).transpose();
  if(sx_choice("agnostic", 2))
  {
    Vector3 h = ref::mulv(R2, t);
    oneIsNotSmall(h(0), h(1), 1e-3);
    sx::eqm(kine::mergeRoll1Pitch1WithYaw2AxisAgnostic(R1, R2), kine::mergeTiltWithYawAxisAgnostic(t, R2), "agnostic merge of two rotations");
  }
  else
  {
    Vector3 m = Vector3::UnitX();
    bool given = sx_choice("direction given", 2);
    if(given) m << 0, 1, 0;
    Vector3 ml = ref::mulv(ref::tr(R2), m);
    sx::assumeLt(1e-4, ref::cross(ml, t).squaredNorm());
    Matrix3 R = given ? kine::mergeRoll1Pitch1WithYaw2(R1, R2, m) : kine::mergeRoll1Pitch1WithYaw2(R1, R2);
    sx::eqm(R, kine::mergeTiltWithYaw(t, R2, m), "merge of two rotations");
  }
}
SX_SCENARIO(merge_tilt_yaw_angle)
{
  // when both rotations agree on the tilt, the merge returns R2 itself
  ref::V4 c = ref::unitQuat("q");
  Matrix3 R2 = ref::quatToMat(c);
  Matrix3 R = kine::mergeTiltWithYaw(R2.row(2).transpose(), R2);
  sx::eqm(R, R2, "merging a rotation with its own tilt");
  Matrix3 S = kine::mergeTiltWithYawAxisAgnostic(R2.row(2).transpose(), R2);
  sx::eqm(S, R2, "axis agnostic merge of a rotation with its own tilt");
}
SX_SCENARIO(merge_agnostic)
{
  ref::V4 c = ref::unitQuat("q");
  Matrix3 R2 = ref::quatToMat(c);
  Vector3 t = ref::unitVec("t");
  Vector3 h = ref::mulv(R2, t);
  oneIsNotSmall(h(0), h(1), 1e-3);
  Matrix3 R = kine::mergeTiltWithYawAxisAgnostic(t, R2);
  isRotation(R, "agnostic merge");
  sx::eqm(Vector3(R.row(2).transpose()), t, "tilt of the result is the given tilt");
  // R = (rotation about a horizontal axis) * R2 : no yaw added
  Vector3 m(h(1), -h(0), 0);
  sx::eqm(ref::mulv(R, ref::mulv(ref::tr(R2), m)), m, "the horizontal vector is kept");
}
SX_SCENARIO(invariants)
{
  ref::V4 c = ref::unitQuat("q");
  Matrix3 R = ref::quatToMat(c);
  oneIsNotSmall(R(2, 0), R(2, 1), 1e-3);
  Vector3 v = kine::getInvariantHorizontalVector(R);
  sx::eq(v(2), 0, "horizontal");
  sx::eq(ref::mulv(R, v)(2), 0, "stays horizontal");
  sx::lt(0, v.squaredNorm(), "not zero");
  Vector3 t = ref::unitVec("t");
  Vector3 h = ref::mulv(R, t);
  oneIsNotSmall(h(0), h(1), 1e-3);
  Vector3 w = kine::getInvariantOrthogonalVector(R, t);
  sx::eq(w(2), 0, "horizontal (general)");
  sx::eq(ref::mulv(ref::tr(R), w).dot(t), 0, "orthogonal to the tilt");
  sx::lt(0, w.squaredNorm(), "not zero (general)");
}
SX_SCENARIO(yaw_agnostic)
{
  // yaw then a tilt about a horizontal axis: axis agnostic yaw extraction returns the yaw
  double y = sx::var("y", -3.1, 3.1), a = sx::var("a"), r = sx::var("r", 0.01, 1.5);
  sx::assumeLt(0.001, std::sin(r));
  Matrix3 Ra = ref::rotZ(std::cos(a), std::sin(a));
  Matrix3 T = ref::mul(ref::mul(Ra, ref::rotX(std::cos(r), std::sin(r))), ref::tr(Ra));
  Matrix3 R = ref::mul(ref::rotZ(std::cos(y), std::sin(y)), T);
  oneIsNotSmall(R(2, 0), R(2, 1), 1e-4);
  sx::eq(kine::rotationMatrixToYawAxisAgnostic(R), y, "axis agnostic yaw");
}
