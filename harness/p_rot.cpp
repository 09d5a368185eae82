// Rotation representations: exponential / logarithm and conversions between representations.
#include "common.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using ref::rotVec;
SX_SCENARIO(exp_matrix)
{
  Vector3 v = rotVec("v", 1e-20, 1000);
  Matrix3 R = kine::rotationVectorToRotationMatrix(v);
  sx::eqm(R, ref::quatToMat(ref::expQuat(v)), "R=exp(v)");
  sx::eqm(R * R.transpose(), Matrix3::Identity(), "orthogonal");
  sx::eqm(R.col(0).cross(R.col(1)), R.col(2), "right handed");
  sx::eqm(R * v, v, "axis invariant");
}
SX_SCENARIO(exp_quaternion)
{
  Vector3 v = rotVec("v", 1e-20, 1000);
  Quaternion q = kine::rotationVectorToQuaternion(v);
  sx::eqm(q.coeffs(), ref::expQuat(v), "q=exp(v)");
  sx::eq(q.squaredNorm(), 1, "unit");
  AngleAxis aa = kine::rotationVectorToAngleAxis(v);
  sx::eqm(aa.angle() * aa.axis(), v, "angle axis = v");
  sx::eq(aa.axis().squaredNorm(), 1, "axis unit");
  sx::eq(kine::scalarComponent(q), q.w(), "scalar component");
  sx::eqm(kine::vectorComponent(q), q.vec(), "vector component");
}
SX_SCENARIO(exp_small)
{
  double t = sx::var("t", -1e-9, 1e-9);
  Vector3 v = Vector3::Zero();
  v(sx_choice("axis", 3)) = t;
  Matrix3 R = kine::rotationVectorToRotationMatrix(v);
  for(int i = 0; i < 3; ++i)
    for(int j = 0; j < 3; ++j) sx::near(R(i, j), i == j, 1e-8, "small rotation near identity");
  Quaternion q = kine::rotationVectorToQuaternion(v);
  sx::near(q.w(), 1, 1e-8, "small quaternion");
  sx::eq(q.squaredNorm(), 1, "small quaternion unit");
  Vector3 w = kine::quaternionToRotationVector(q);
  for(int i = 0; i < 3; ++i) sx::near(w(i), v(i), 1e-8, "small log");
}
SX_SCENARIO(log_exp_quaternion)
{
  Vector3 v = rotVec("v", 1e-12, 9.8);
  Quaternion q = kine::rotationVectorToQuaternion(v);
  sx::eqm(kine::quaternionToRotationVector(q), v, "log(exp(v))=v");
  Vector4 c = q.coeffs();
  sx::eqm(kine::quaternionToRotationVector(c), v, "log(exp(v) coeffs)=v");
}
SX_SCENARIO(log_exp_matrix)
{
  sx_abs_fork(1);
  Vector3 v = rotVec("v", 1e-6, 9.8);
  Matrix3 R = kine::rotationVectorToRotationMatrix(v);
  sx::eqm(kine::rotationMatrixToRotationVector(R), v, "log(exp(v))=v");
}
SX_SCENARIO(exp_log_quaternion)
{
  ref::V4 c = ref::unitQuat("q");
  Quaternion q(c(3), c(0), c(1), c(2));
  sx::assumeLt(1e-6, c.head<3>().squaredNorm());
  Vector3 v = kine::quaternionToRotationVector(q);
  Matrix3 R = kine::rotationVectorToRotationMatrix(v);
  Vector4 coeffs = c;
  sx::eqm(kine::quaternionToRotationVector(coeffs), v, "log of the components");
  sx::eqm(R, ref::quatToMat(c), "exp(log(q))=q as a rotation");
  sx::le(v.squaredNorm(), 9.86960440108936, "|log q| <= pi");
}
SX_SCENARIO(skew)
{
  Vector3 v = sx::vec3("v"), w = sx::vec3("w");
  Matrix3 A, B;
  sx::eqm(kine::skewSymmetric(v) * w, ref::cross(v, w), "skew v * w = v x w");
  sx::eqm(kine::skewSymmetric(v, A), ref::skew(v), "skew out return");
  sx::eqm(A, ref::skew(v), "skew out param");
  sx::eqm(kine::skewSymmetric2(v), ref::skew(v) * ref::skew(v), "skew2");
  sx::eqm(kine::skewSymmetric2(v, B), ref::skew(v) * ref::skew(v), "skew2 out return");
  sx::eqm(B, ref::skew(v) * ref::skew(v), "skew2 out param");
}
SX_SCENARIO(regulate)
{
  Vector3 v = rotVec("v", 1e-6, 190);
  Vector3 w = kine::regulateOrientationVector(v);
  sx::eqm(ref::cross(v, w), Vector3::Zero(), "colinear");
  double n = std::sqrt(v.squaredNorm());
  double a = w.dot(v) / n; // signed angle of the result
  double P = M_PI;
  sx::eq((n - a) * (n - a - 2 * P) * (n - a - 4 * P), 0, "angle changed by a multiple of 2 pi");
  sx::le(a, 4.7124, "norm <= 3pi/2");
  sx::le(-4.7124, a, "norm >= -3pi/2");
}
// a right-handed orthonormal matrix is a rotation matrix, a reflected, stretched or sheared one is not
SX_SCENARIO(rotation_matrix)
{
  int kind = sx_choice("kind", 4);
  Matrix3 R;
  if(kind == 0)
    R = ref::quatToMat(ref::unitQuat("q"));
  else
  {
    // a rotation about one axis, then a change of axes
    int a = sx_choice("axis", 3), p = sx_choice("axes", 3);
    double c = sx::var("c", -1, 1), s = sx::var("s", -1, 1);
    sx::assumeEq(c * c + s * s, 1);
    Matrix3 A = Matrix3::Zero();
    A(a, a) = 1;
    A((a + 1) % 3, (a + 1) % 3) = A((a + 2) % 3, (a + 2) % 3) = c;
    A((a + 2) % 3, (a + 1) % 3) = s;
    A((a + 1) % 3, (a + 2) % 3) = -s;
    for(int j = 0; j < 3; ++j) R.col(j) = A.col((j + p) % 3);
  }
  switch(kind)
  {
    case 0:
      sx::yes(kine::isRotationMatrix(R, 1e-8), "rotation");
      sx::yes(kine::isRotationMatrix(R), "rotation, default precision");
      break;
    case 1:
    {
      Matrix3 M = -R;
      sx::yes(!kine::isRotationMatrix(M, 1e-8), "reflection");
      break;
    }
    case 2:
    {
      double k = sx::var("k", -2, 2);
      sx::assumeLt(0.01, (k - 1) * (k - 1));
      R.col(sx_choice("column", 3)) *= k;
      sx::yes(!kine::isRotationMatrix(R, 1e-8), "a column scaled");
      break;
    }
    case 3:
    {
      double k = sx::var("k", 0.01, 2);
      int i = sx_choice("column", 3);
      Vector3 d = R.col((i + 1) % 3);
      R.col(i) += k * d;
      sx::yes(!kine::isRotationMatrix(R, 1e-8), "a column sheared");
      break;
    }
  }
  Quaternion z = kine::zeroRotationQuaternion();
  sx::eq(z.w(), 1, "zero rotation: scalar part");
  sx::eqm(z.vec(), Vector3::Zero(), "zero rotation: vector part");
}
