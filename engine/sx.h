// Harness API shared by the symbolic build (sx_rt.cpp, code instrumented by SxPass) and the native replay
// build (sx_native.cpp, plain compilation of the same sources).
#pragma once
#include <Eigen/Core>
#include <functional>
#include <string>
extern "C"
{
  double sx_var_(const char * name, double lo, double hi); // lo>hi : unbounded
  double sx_unit_dep_(const char * name, const double * others, int n); // w with w^2 = 1 - sum others^2
  // gives the components of a unit vector expression names of their own: from then on they are only known to be a unit vector
  void sx_define_unit_(const char * name, const double * comps, int n);
  int sx_choice(const char * name, int n); // symbolic integer in [0,n)
  // op: 0 '==', 1 '<=', 2 '<', 3 '!='
  void sx_assume_(int op, double a, double b);
  void sx_assert_(int op, double a, double b, const char * label);
  void sx_assert_near_(double a, double b, double tol, const char * label);
  void sx_assert_true_(int cond, const char * label);
  void sx_lemma_(int op, double a, double b, const char * label); // asserted (proved) first, then assumed
  void sx_mode_native_concrete(int on); // concrete (op) concrete evaluated in IEEE double instead of exactly
  void sx_tolerance(double tol); // replay tolerance (native only)
  void sx_abs_fork(int on); // fork on the sign in fabs instead of introducing an absolute-value variable
  void sx_note(const char * text);
  int sx_is_symbolic_build(void);
  // force the value of the next calls of the random generator (noise) : see noise harness
}
struct SxScenario
{
  SxScenario(const char * name, void (*f)());
};
#define SX_SCENARIO(name)                          \
  static void name();                              \
  static SxScenario sx_reg_##name(#name, &name);   \
  static void name()

namespace sx
{
inline double var(const std::string & n, double lo = 1, double hi = -1) { return sx_var_(n.c_str(), lo, hi); }
inline void assumeEq(double a, double b) { sx_assume_(0, a, b); }
inline void assumeLe(double a, double b) { sx_assume_(1, a, b); }
inline void assumeLt(double a, double b) { sx_assume_(2, a, b); }
inline void assumeNe(double a, double b) { sx_assume_(3, a, b); }
inline void eq(double a, double b, const std::string & l) { sx_assert_(0, a, b, l.c_str()); }
inline void le(double a, double b, const std::string & l) { sx_assert_(1, a, b, l.c_str()); }
inline void lt(double a, double b, const std::string & l) { sx_assert_(2, a, b, l.c_str()); }
inline void ne(double a, double b, const std::string & l) { sx_assert_(3, a, b, l.c_str()); }
inline void near(double a, double b, double tol, const std::string & l) { sx_assert_near_(a, b, tol, l.c_str()); }
inline void yes(bool c, const std::string & l) { sx_assert_true_(c, l.c_str()); }
inline void eqi(long a, long b, const std::string & l)
{
  sx_assert_true_(a == b, (l + " [" + std::to_string(a) + " vs " + std::to_string(b) + "]").c_str());
}
template<typename A, typename B>
void eqm(const Eigen::MatrixBase<A> & a, const Eigen::MatrixBase<B> & b, const std::string & l)
{
  Eigen::MatrixXd x = a, y = b;
  if(x.rows() != y.rows() || x.cols() != y.cols())
  {
    sx_assert_true_(0, (l + ": size mismatch").c_str());
    return;
  }
  for(int i = 0; i < x.rows(); ++i)
    for(int j = 0; j < x.cols(); ++j)
      eq(x(i, j), y(i, j), l + "(" + std::to_string(i) + "," + std::to_string(j) + ")");
}
inline Eigen::MatrixXd mat(const std::string & n, int r, int c, double lo = 1, double hi = -1)
{
  Eigen::MatrixXd m(r, c);
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j) m(i, j) = var(n + (c == 1 ? std::to_string(i) : std::to_string(i) + "_" + std::to_string(j)), lo, hi);
  return m;
}
inline Eigen::VectorXd vec(const std::string & n, int r, double lo = 1, double hi = -1)
{
  return Eigen::VectorXd(mat(n, r, 1, lo, hi));
}
inline Eigen::Vector3d vec3(const std::string & n, double lo = 1, double hi = -1)
{
  return Eigen::Vector3d(mat(n, 3, 1, lo, hi));
}
// symmetric matrix with free entries
inline Eigen::MatrixXd sym(const std::string & n, int r)
{
  Eigen::MatrixXd m(r, r);
  for(int i = 0; i < r; ++i)
    for(int j = 0; j <= i; ++j) m(i, j) = m(j, i) = var(n + std::to_string(j) + "_" + std::to_string(i));
  return m;
}
} // namespace sx
