// Linear Kalman filter: one step against the textbook equations, and short time-varying histories.
#include "common.hpp"
#include <state-observation/observer/linear-kalman-filter.hpp>
using namespace stateObservation;
static void assumePD(const Matrix & S)
{
  sx::assumeLt(0, S(0, 0));
  if(S.rows() > 1) sx::assumeLt(0, S(1, 1) - S(1, 0) * S(1, 0) / S(0, 0));
}
static Matrix mm(const Matrix & a, const Matrix & b)
{
  Matrix r(a.rows(), b.cols());
  for(int i = 0; i < a.rows(); ++i)
    for(int j = 0; j < b.cols(); ++j)
    {
      double s = 0;
      for(int k = 0; k < a.cols(); ++k) s = s + a(i, k) * b(k, j);
      r(i, j) = s;
    }
  return r;
}
static Matrix tp(const Matrix & a)
{
  Matrix r(a.cols(), a.rows());
  for(int i = 0; i < a.rows(); ++i)
    for(int j = 0; j < a.cols(); ++j) r(j, i) = a(i, j);
  return r;
}
static Matrix plus(const Matrix & a, const Matrix & b, double s = 1)
{
  Matrix r(a.rows(), a.cols());
  for(int i = 0; i < a.rows(); ++i)
    for(int j = 0; j < a.cols(); ++j) r(i, j) = a(i, j) + s * b(i, j);
  return r;
}
// inv(S) through cofactors
static Matrix inv(const Matrix & S)
{
  Matrix r(S.rows(), S.cols());
  if(S.rows() == 1)
  {
    r(0, 0) = 1 / S(0, 0);
    return r;
  }
  double d = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
  r << S(1, 1) / d, -S(0, 1) / d, -S(1, 0) / d, S(0, 0) / d;
  return r;
}
static void step(int n, int m, int p, bool full, bool order, bool simpleP = false)
{
  LinearKalmanFilter f(n, m, p);
  Matrix A = full ? sx::mat("A", n, n) : Matrix(Matrix::Identity(n, n) * 2), C = sx::mat("C", m, n), B = sx::mat("B", n, p),
         D = sx::mat("D", m, p);
  Matrix P = sx::sym("P", n), Q = sx::sym("Q", n), R = sx::sym("R", m);
  if(simpleP)
  {
    P << 2, 0.5, -1, 0.5, 3, 0.25, -1, 0.25, 4;
    Q << 1, 0.5, 0, 0.5, 2, -0.5, 0, -0.5, 1;
    C = Matrix(1, 3);
    C << 1, -2, 0.5;
  }
  Vector x = sx::vec("x", n), y = sx::vec("y", m), u = sx::vec("u", p), u1 = sx::vec("v", p);
  bool noB = false, noD = false;
  if(p)
  {
    noB = sx_choice("no B", 2);
    noD = sx_choice("no D", 2);
    if(noB) B = f.getBmatrixZero();
    if(noD) D = f.getDmatrixZero();
  }
  Matrix Pb = plus(Q, mm(A, mm(P, tp(A))));
  Matrix S = plus(R, mm(C, mm(Pb, tp(C))));
  assumePD(S);
  if(order)
  {
    f.setQ(Q);
    f.setR(R);
    f.setC(C);
    f.setA(A);
    if(p) f.setB(B), f.setD(D);
    else f.setB(f.getBmatrixZero());
    f.setState(x, 3);
    f.setStateCovariance(P);
  }
  else
  {
    f.setState(x, 3);
    f.setA(A);
    if(p) f.setB(B), f.setD(D);
    else f.setB(f.getBmatrixZero());
    f.setC(C);
    f.setQ(Q);
    f.setR(R);
    f.setStateCovariance(P);
  }
  f.setMeasurement(y, 4);
  if(p)
  {
    f.setInput(u, 3);
    f.setInput(u1, 4);
  }
  Vector xb = plus(mm(A, x), mm(B, u));
  Vector yb = plus(mm(C, xb), mm(D, u1));
  if(sx_choice("predict first", 2))
  {
    sx::eqm(f.updateStatePrediction(), xb, "prediction on demand");
    sx::eqm(f.updateStateAndMeasurementPrediction(), yb, "measurement prediction on demand");
    sx::eqm(f.getCurrentEstimatedState(), x, "predicting does not change the state");
    sx::eqi(f.getCurrentTime(), 3, "predicting does not change the time");
  }
  Vector xh = f.getEstimatedState(4);
  sx::eqi(f.getCurrentTime(), 4, "time");
  sx::eqm(f.getLastPrediction(), xb, "state prediction");
  sx::eqm(f.getLastPredictedMeasurement(), yb, "measurement prediction");
  Matrix K = f.getLastGain();
  sx::eqi(K.rows(), n, "gain rows");
  sx::eqi(K.cols(), m, "gain columns");
  Matrix Kr = mm(mm(Pb, tp(C)), inv(S));
  sx::eqm(K, Kr, "gain");
  Vector in = mm(Kr, plus(y, yb, -1));
  sx::eqm(f.getInnovation(), in, "innovation");
  sx::eqm(xh, plus(xb, in), "estimate");
  sx::eqm(f.getCurrentEstimatedState(), xh, "current estimate");
  Matrix Pr = f.getStateCovariance();
  Matrix IKC = plus(Matrix::Identity(n, n), mm(Kr, C), -1);
  Matrix Px = mm(IKC, Pb);
  sx::eqm(Pr, Px, "updated covariance");
  sx::eqm(Pr, tp(Pr), "symmetric covariance");
  sx::eqm(f.getA(), A, "A kept");
  sx::eqm(f.getC(), C, "C kept");
  sx::eqm(f.getQ(), Q, "Q kept");
  sx::eqm(f.getR(), R, "R kept");
  if(p && !noD && !noB)
  {
    Matrix ys = plus(mm(C, xh), mm(D, u1));
    sx::eqm(f.getSimulatedMeasurement(4), ys, "simulated measurement at the estimate");
  }
}
SX_SCENARIO(step_1_1_1) { step(1, 1, 1, true, true); }
SX_SCENARIO(step_2_1_0) { step(2, 1, 0, true, true); }
SX_SCENARIO(step_2_1_1) { step(2, 1, 1, true, false); }
SX_SCENARIO(step_1_2_1) { step(1, 2, 1, true, false); }
SX_SCENARIO(step_2_2_0) { step(2, 2, 0, false, true); }
SX_SCENARIO(step_3_1_2) { step(3, 1, 2, false, true); }
SX_SCENARIO(step_3_1_0_A) { step(3, 1, 0, true, false, true); }
#ifdef SX_THOROUGH
SX_SCENARIO(step_2_2_1_full) { step(2, 2, 1, true, true); }
SX_SCENARIO(step_3_1_1_full) { step(3, 1, 1, true, true); }
SX_SCENARIO(step_3_2_0) { step(3, 2, 0, false, true); }
static const int STEPS = 3;
#else
static const int STEPS = 2;
#endif
// scalar time-varying system over several steps, in one go or step by step
SX_SCENARIO(time_varying)
{
  LinearKalmanFilter f(1, 1, 1);
  Matrix one(1, 1);
  double x = sx::var("x"), P = sx::var("P");
  bool go = sx_choice("in one go", 2);
  f.setState(sx::vec("x", 1) * 0 + Vector::Constant(1, x), 0);
  f.setStateCovariance(Matrix::Constant(1, 1, P));
  double a = sx::var("a"), b = sx::var("b"), c = sx::var("c"), d = sx::var("d"), q = sx::var("q"), r = sx::var("r");
  std::vector<double> us, ys;
  for(int i = 0; i <= STEPS; ++i) us.push_back(sx::var("u" + std::to_string(i)));
  for(int i = 1; i <= STEPS; ++i) ys.push_back(sx::var("y" + std::to_string(i)));
  for(int i = 0; i <= STEPS; ++i) f.setInput(Vector::Constant(1, us[i]), i);
  for(int i = 1; i <= STEPS; ++i) f.setMeasurement(Vector::Constant(1, ys[i - 1]), i);
  double xr = x, Pr = P;
  for(int i = 1; i <= STEPS; ++i)
  {
    if(i > 1 && !go)
    {
      std::string s = std::to_string(i);
      a = sx::var("a" + s);
      c = sx::var("c" + s);
      q = sx::var("q" + s);
      r = sx::var("r" + s);
    }
    if(i == 1 || !go)
    {
      f.setA(Matrix::Constant(1, 1, a));
      f.setB(Matrix::Constant(1, 1, b));
      f.setC(Matrix::Constant(1, 1, c));
      f.setD(Matrix::Constant(1, 1, d));
      f.setQ(Matrix::Constant(1, 1, q));
      f.setR(Matrix::Constant(1, 1, r));
    }
    double xb = a * xr + b * us[i - 1], pb = a * a * Pr + q, S = c * c * pb + r;
    sx::assumeLt(0, S);
    sx::assumeNe(b, 0);
    double K = pb * c / S;
    xr = xb + K * (ys[i - 1] - c * xb - d * us[i]);
    Pr = (1 - K * c) * pb;
    if(!go)
    {
      sx::eq(f.getEstimatedState(i)(0), xr, "estimate at step " + std::to_string(i));
      sx::eq(f.getStateCovariance()(0, 0), Pr, "covariance at step " + std::to_string(i));
      sx::eq(f.getLastGain()(0, 0), K, "gain at step " + std::to_string(i));
    }
  }
  if(go)
  {
    sx::eqi(f.estimateState(), STEPS, "reached time");
    sx::eq(f.getCurrentEstimatedState()(0), xr, "final estimate");
    sx::eq(f.getStateCovariance()(0, 0), Pr, "final covariance");
  }
}
// matrices of the wrong size are recognised, and resizing drops what depends on the changed size
SX_SCENARIO(sizes)
{
  int n = 1 + sx_choice("n", 3), m = 1 + sx_choice("m", 3), p = sx_choice("p", 3);
  LinearKalmanFilter f(n, m, p);
  sx::eqi(f.getStateSize(), n, "n");
  sx::eqi(f.getMeasureSize(), m, "m");
  sx::eqi(f.getInputSize(), p, "p");
  int r = 1 + sx_choice("r", 3), c = 1 + sx_choice("c", 3);
  Matrix M = sx::mat("M", r, c);
  sx::yes(f.checkAmatrix(M) == (r == n && c == n), "A size");
  sx::yes(f.checkCmatrix(M) == (r == m && c == n), "C size");
  sx::yes(f.checkQmatrix(M) == (r == n && c == n), "Q size");
  sx::yes(f.checkRmatrix(M) == (r == m && c == m), "R size");
  sx::yes(f.checkPmatrix(M) == (r == n && c == n), "P size");
  sx::yes(f.checkBmatrix(M) == (r == n && c == p), "B size");
  sx::yes(f.checkDmatrix(M) == (r == m && c == p), "D size");
  double k = sx::var("k");
  sx::eqm(f.getAmatrixConstant(k), Matrix::Constant(n, n, k), "constant A");
  sx::eqm(f.getCmatrixConstant(k), Matrix::Constant(m, n, k), "constant C");
  sx::eqm(f.getQmatrixConstant(k), Matrix::Constant(n, n, k), "constant Q");
  sx::eqm(f.getRmatrixConstant(k), Matrix::Constant(m, m, k), "constant R");
  sx::eqm(f.getPmatrixConstant(k), Matrix::Constant(n, n, k), "constant P");
  sx::eqm(f.getBmatrixConstant(k), Matrix::Constant(n, p, k), "constant B");
  sx::eqm(f.getDmatrixConstant(k), Matrix::Constant(m, p, k), "constant D");
  sx::eqm(f.getAmatrixIdentity(), Matrix::Identity(n, n), "identity A");
  sx::eqm(f.getQmatrixIdentity(), Matrix::Identity(n, n), "identity Q");
  sx::eqm(f.getRmatrixIdentity(), Matrix::Identity(m, m), "identity R");
  sx::eqm(f.getPmatrixIdentity(), Matrix::Identity(n, n), "identity P");
  sx::eqm(f.getAmatrixZero(), Matrix::Zero(n, n), "zero A");
  sx::eqm(f.getCmatrixZero(), Matrix::Zero(m, n), "zero C");
  sx::eqm(f.getQmatrixZero(), Matrix::Zero(n, n), "zero Q");
  sx::eqm(f.getRmatrixZero(), Matrix::Zero(m, m), "zero R");
  sx::eqm(f.getPmatrixZero(), Matrix::Zero(n, n), "zero P");
}
SX_SCENARIO(resizing)
{
  LinearKalmanFilter f(2, 2, 1);
  Matrix A = sx::mat("A", 2, 2), C = sx::mat("C", 2, 2), Q = sx::sym("Q", 2), R = sx::sym("R", 2), P = sx::sym("P", 2);
  f.setA(A);
  f.setC(C);
  f.setQ(Q);
  f.setR(R);
  Matrix B = sx::mat("B", 2, 1), D = sx::mat("D", 2, 1);
  sx::assumeLt(0.01, B(0, 0));
  sx::assumeLt(0.01, D(0, 0));
  f.setB(B);
  f.setD(D);
  f.setState(sx::vec("x", 2), 0);
  f.setStateCovariance(P);
  f.setMeasurement(sx::vec("y", 2), 1);
  f.setInput(sx::vec("u", 1), 0);
  int which = sx_choice("which", 3), size = 1 + sx_choice("size", 3);
  if(which == 0) f.setStateSize(size);
  if(which == 1) f.setMeasureSize(size);
  if(which == 2) f.setInputSize(size);
  bool ns = which == 0 && size != 2, nm = which == 1 && size != 2;
  sx::yes((f.getA().size() == 0) == ns, "A dropped with the state size");
  sx::yes((f.getQ().size() == 0) == ns, "Q dropped with the state size");
  sx::yes((f.getStateCovariance().size() == 0) == ns, "P dropped with the state size");
  sx::yes((f.getC().size() == 0) == (ns || nm), "C dropped with the state or measurement size");
  sx::yes((f.getR().size() == 0) == nm, "R dropped with the measurement size");
  sx::yes(f.stateIsSet() == !ns, "state dropped with its size");
  if(!ns) sx::eqm(f.getA(), A, "A kept");
  if(!ns && !nm) sx::eqm(f.getC(), C, "C kept");
  if(!nm) sx::eqm(f.getR(), R, "R kept");
  sx::eqi(f.getMeasurementsNumber(), nm ? 0 : 1, "measurements dropped with their size");
  sx::eqi(f.getInputsNumber(), which == 2 && size != 1 ? 0 : 1, "inputs dropped with their size");
  sx::eqi(f.getStateSize(), which == 0 ? size : 2, "state size");
  sx::eqi(f.getMeasureSize(), which == 1 ? size : 2, "measurement size");
  sx::eqi(f.getInputSize(), which == 2 ? size : 1, "input size");
  if(size != 2 || which == 2)
  {
    // back to the first sizes: what was dropped does not come back
    f.setStateSize(2);
    f.setMeasureSize(2);
    f.setInputSize(1);
    f.setA(A);
    f.setC(C);
    f.setQ(Q);
    f.setR(Matrix::Identity(2, 2));
    f.setStateCovariance(Matrix::Identity(2, 2));
    bool dropsD = which == 2 ? size != 1 : which == 1;
    if(which == 0 || (which == 2 && size != 1)) f.setB(B);
    Vector x = sx::vec("w", 2), u = sx::vec("v", 1), u1 = sx::vec("z", 1);
    f.clearInputsAndMeasurements();
    f.setState(x, 5);
    f.setInput(u, 5);
    f.setInput(u1, 6);
    Vector xb = plus(mm(A, x), mm(B, u)), yb = mm(C, xb);
    if(!dropsD) yb = plus(yb, mm(D, u1));
    sx::eqm(f.updateStateAndMeasurementPrediction(), yb, "feed-through after sizes have changed and changed back");
    sx::eqm(f.updateStatePrediction(), xb, "input matrix after sizes have changed and changed back");
  }
  f.setStateCovariance(f.getPmatrixConstant(3));
  f.clearStates();
  sx::yes(!f.stateIsSet(), "state cleared");
  sx::eqi(f.getStateCovariance().size(), 0, "clearing the state clears its covariance");
  f.clearA();
  f.clearC();
  f.clearQ();
  f.clearR();
  sx::eqi(f.getA().size() + f.getC().size() + f.getQ().size() + f.getR().size(), 0, "cleared matrices");
}

// vectors of the announced sizes, the other names of the covariances, and what each clear forgets
SX_SCENARIO(vectors)
{
  int n = 1 + sx_choice("n", 3), m = 1 + sx_choice("m", 3), p = sx_choice("p", 3);
  LinearKalmanFilter f(n, m, p);
  double k = sx::var("k");
  sx::eqm(f.stateVectorConstant(k), Vector::Constant(n, k), "constant state");
  sx::eqm(f.measureVectorConstant(k), Vector::Constant(m, k), "constant measurement");
  sx::eqm(f.inputVectorConstant(k), Vector::Constant(p, k), "constant input");
  sx::eqm(f.stateTangentVectorConstant(k), Vector::Constant(n, k), "constant tangent state");
  sx::eqm(f.measureTangentVectorConstant(k), Vector::Constant(m, k), "constant tangent measurement");
  sx::eqm(f.stateVectorZero(), Vector::Zero(n), "zero state");
  sx::eqm(f.measureVectorZero(), Vector::Zero(m), "zero measurement");
  sx::eqm(f.inputVectorZero(), Vector::Zero(p), "zero input");
  sx::eqi(f.stateVectorRandom().size(), n, "random state");
  sx::eqi(f.measureVectorRandom().size(), m, "random measurement");
  sx::eqi(f.inputVectorRandom().size(), p, "random input");
  for(int r = 0; r < 4; ++r)
  {
    Vector v = Vector::Zero(r);
    sx::yes(f.checkStateVector(v) == (r == n), "state vectors recognised");
    sx::yes(f.checkMeasureVector(v) == (r == m), "measurement vectors recognised");
    sx::yes(f.checkInputVector(v) == (r == p), "input vectors recognised");
  }
}
SX_SCENARIO(forgetting)
{
  LinearKalmanFilter f(1, 1, 1);
  double a = sx::var("a"), b = sx::var("b"), c = sx::var("c"), d = sx::var("d"), q = sx::var("q", 0, 10), r = sx::var("r", 0.1, 10), P = sx::var("P", 0, 10);
  double x = sx::var("x"), u = sx::var("u"), u1 = sx::var("u1"), y = sx::var("y");
  sx::assumeLt(0.01, b);
  sx::assumeLt(0.01, d);
  auto one = [](double v) { return Matrix(Matrix::Constant(1, 1, v)); };
  f.setA(one(a));
  f.setB(one(b));
  f.setC(one(c));
  f.setD(one(d));
  f.setProcessCovariance(one(q));
  f.setMeasurementCovariance(one(r));
  sx::eqm(f.getQ(), one(q), "process covariance is Q");
  sx::eqm(f.getR(), one(r), "measurement covariance is R");
  sx::eqm(f.getProcessCovariance(), one(q), "process covariance");
  sx::eqm(f.getMeasurementCovariance(), one(r), "measurement covariance");
  f.setState(Vector::Constant(1, x), 3);
  f.setStateCovariance(one(P));
  f.setInput(Vector::Constant(1, u), 3);
  f.setInput(Vector::Constant(1, u1), 4);
  f.setMeasurement(Vector::Constant(1, y), 4);
  int what = sx_choice("what", 12);
  if(what == 1) f.clearA();
  if(what == 2) f.clearB();
  if(what == 3) f.clearC();
  if(what == 4) f.clearD();
  if(what == 5) f.clearQ();
  if(what == 6) f.clearR();
  if(what == 7) f.clearStateCovariance();
  if(what == 8) f.clearStates();
  if(what == 9) f.clearMeasurements();
  if(what == 10) f.clearInputs();
  if(what == 11) f.clearInputsAndMeasurements();
  sx::yes((f.getA().size() == 0) == (what == 1), "A");
  sx::yes((f.getC().size() == 0) == (what == 3), "C");
  sx::yes((f.getQ().size() == 0) == (what == 5), "Q");
  sx::yes((f.getR().size() == 0) == (what == 6), "R");
  sx::yes((f.getStateCovariance().size() == 0) == (what == 7 || what == 8), "P");
  sx::yes(f.stateIsSet() == (what != 8), "state");
  sx::eqi(f.getMeasurementsNumber(), what == 9 || what == 11 ? 0 : 1, "measurements");
  sx::eqi(f.getInputsNumber(), what == 10 || what == 11 ? 0 : 2, "inputs");
  // what was forgotten is given again, the step is that of the new values
  double z = sx::var("z");
  if(what == 1) f.setA(one(a = z));
  if(what == 3) f.setC(one(c = z));
  if(what == 2 || what == 4) sx::assumeLt(0.01, z);
  if(what == 2) f.setB(one(b = z));
  if(what == 4) f.setD(one(d = z));
  if(what == 5) f.setQ(one(q = sx::var("q'", 0, 10)));
  if(what == 6) f.setR(one(r = sx::var("r'", 0.1, 10)));
  if(what == 8) f.setState(Vector::Constant(1, x = z), 3);
  if(what == 7 || what == 8) f.setStateCovariance(one(P = sx::var("P'", 0, 10)));
  if(what == 10 || what == 11)
  {
    f.setInput(Vector::Constant(1, u = z), 3);
    f.setInput(Vector::Constant(1, u1 = z), 4);
  }
  if(what == 9 || what == 11) f.setMeasurement(Vector::Constant(1, y = z), 4);
  double xb = a * x + b * u, Pb = a * P * a + q, S = c * Pb * c + r;
  sx::assumeLt(0.001, S);
  double K = Pb * c / S;
  sx::eqm(f.getEstimatedState(4), one(xb + K * (y - c * xb - d * u1)), "estimate");
  sx::eqm(f.getStateCovariance(), one((1 - K * c) * Pb), "covariance");
}
// the covariance of the estimate is made symmetric, whatever the rounding errors or the user left in the previous one
static void symmetrized(int n)
{
  LinearKalmanFilter f(n, 1, 0);
  Matrix A = Matrix::Identity(n, n) * 2, P = sx::mat("P", n, n), Q = sx::sym("Q", n), R = sx::sym("R", 1), C = sx::mat("C", 1, n);
  A(0, n - 1) = -1;
  if(n == 3)
  {
    Q << 1, 0.5, 0, 0.5, 2, -0.5, 0, -0.5, 1;
    C << 1, -2, 0.5;
  }
  Matrix Pb = plus(Q, mm(A, mm(P, tp(A)))), S = plus(R, mm(C, mm(Pb, tp(C))));
  assumePD(S);
  f.setA(A);
  f.setC(C);
  f.setQ(Q);
  f.setR(R);
  f.setB(f.getBmatrixZero());
  f.setState(Vector::Zero(n), 0);
  f.setStateCovariance(P);
  f.setMeasurement(sx::vec("y", 1), 1);
  f.getEstimatedState(1);
  Matrix K = mm(mm(Pb, tp(C)), inv(S)), T = mm(plus(Matrix::Identity(n, n), mm(K, C), -1), Pb), r = f.getStateCovariance();
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < n; ++j)
    {
      sx::eq(r(i, j), (T(i, j) + T(j, i)) / 2, "symmetric part of the updated covariance");
      sx::eq(r(i, j), r(j, i), "symmetric covariance");
    }
}
SX_SCENARIO(symmetrized_2) { symmetrized(2); }
SX_SCENARIO(symmetrized_3) { symmetrized(3); }
