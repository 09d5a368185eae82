// Roll/pitch/yaw conversions and yaw extraction.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
static Matrix3 refRpy(double r, double p, double y)
{
  return ref::mul(ref::mul(ref::rotZ(std::cos(y), std::sin(y)), ref::rotY(std::cos(p), std::sin(p))),
                  ref::rotX(std::cos(r), std::sin(r)));
}
SX_SCENARIO(rpy_to_matrix)
{
  double r = sx::var("roll"), p = sx::var("pitch"), y = sx::var("yaw");
  Matrix3 R = kine::rollPitchYawToRotationMatrix(r, p, y);
  sx::eqm(R, refRpy(r, p, y), "R=Rz(yaw)Ry(pitch)Rx(roll)");
  sx::eqm(kine::rollPitchYawToRotationMatrix(Vector3(r, p, y)), refRpy(r, p, y), "vector overload");
  Quaternion q = kine::rollPitchYawToQuaternion(r, p, y);
  sx::eq(q.squaredNorm(), 1, "unit quaternion");
  sx::eqm(ref::quatToMat(ref::C(q)), refRpy(r, p, y), "quaternion");
  Quaternion q2 = kine::rollPitchYawToQuaternion(Vector3(r, p, y));
  sx::eqm(ref::quatToMat(ref::C(q2)), refRpy(r, p, y), "quaternion vector overload");
}
SX_SCENARIO(rpy_roundtrip)
{
  double r = sx::var("roll", -3.1, 3.1), p = sx::var("pitch", -1.5, 1.5), y = sx::var("yaw", -3.1, 3.1);
  Matrix3 R = refRpy(r, p, y);
  Vector3 v = kine::rotationMatrixToRollPitchYaw(R);
  sx::eq(v(0), r, "roll");
  sx::eq(v(1), p, "pitch");
  sx::eq(v(2), y, "yaw");
  Vector3 w;
  Vector3 w2 = kine::rotationMatrixToRollPitchYaw(R, w);
  sx::eqm(w, v, "output parameter");
  sx::eqm(w2, v, "returned");
  sx::eq(kine::rotationMatrixToYaw(R), y, "yaw extraction");
}
SX_SCENARIO(matrix_to_rpy_to_matrix)
{
  ref::V4 c = ref::unitQuat("q");
  Matrix3 R = ref::quatToMat(c);
  // away from gimbal lock
  sx::assumeLt(1e-6, R(0, 0) * R(0, 0) + R(1, 0) * R(1, 0));
  Vector3 v = kine::rotationMatrixToRollPitchYaw(R);
  sx::eqm(refRpy(v(0), v(1), v(2)), R, "rpy of R gives R back");
}
// yaw angle of a pure yaw rotation, with every extraction method
SX_SCENARIO(pure_yaw)
{
  double y = sx::var("yaw", -3.1, 3.1);
  Matrix3 R = ref::rotZ(std::cos(y), std::sin(y));
  sx::yes(kine::isPureYaw(R), "is pure yaw");
  sx::eq(kine::rotationMatrixToYaw(R), y, "yaw");
  sx::eq(kine::rotationMatrixToYawAxisAgnostic(R), y, "yaw axis agnostic");
  double a = sx::var("a");
  sx::eq(kine::rotationMatrixToYaw(R, Vector2(std::cos(a), std::sin(a))), y, "yaw with a reference vector");
}
SX_SCENARIO(angle_about_axis)
{
  // rotation of angle t about a unit axis: measured on any unit vector orthogonal to the axis
  double t = sx::var("t", -3.1, 3.1);
  ref::V4 c = ref::unitQuat("q");
  Matrix3 B = ref::quatToMat(c);
  Vector3 v = B.col(0), axis = B.col(2);
  Matrix3 R = ref::mul(ref::mul(B, ref::rotZ(std::cos(t), std::sin(t))), ref::tr(B));
  sx::eq(kine::rotationMatrixToAngle(R, axis, v), t, "angle about axis");
}
SX_SCENARIO(yaw_reference_vector)
{
  // with v = e_x the reference-vector version is the yaw of the matrix; general rotation
  ref::V4 c = ref::unitQuat("q");
  Matrix3 R = ref::quatToMat(c);
  sx::assumeLt(1e-6, R(0, 0) * R(0, 0) + R(1, 0) * R(1, 0));
  double y = kine::rotationMatrixToYaw(R);
  double n = std::sqrt(R(0, 0) * R(0, 0) + R(1, 0) * R(1, 0));
  sx::eq(std::cos(y) * n, R(0, 0), "cos yaw");
  sx::eq(std::sin(y) * n, R(1, 0), "sin yaw");
  double y2 = kine::rotationMatrixToYaw(R, Vector2(1, 0));
  sx::eq(std::cos(y2) * n, R(0, 0), "cos yaw (vector)");
  sx::eq(std::sin(y2) * n, R(1, 0), "sin yaw (vector)");
  double y3 = kine::rotationMatrixToAngle(R, Vector3::UnitZ(), Vector3::UnitX());
  sx::eq(std::cos(y3) * n, R(0, 0), "cos angle about z");
  sx::eq(std::sin(y3) * n, R(1, 0), "sin angle about z");
}
