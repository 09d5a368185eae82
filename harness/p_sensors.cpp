// Simulated sensors, noise on the measurements, Gaussian noise and random scalars.
#include "common.hpp"
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
#include <state-observation/tools/probability-law-simulation.hpp>
#include <state-observation/tools/miscellaneous-algorithms.hpp>
using namespace stateObservation;
using namespace ref;
static V3 G() { return V3(0, 0, 9.8); }
// a noise which is different at each draw, and depends on the vector it disturbs
struct Noise : NoiseBase
{
  int draws = 0;
  double a;
  std::vector<Vector> got;
  Noise(double a) : a(a) {}
  virtual Vector getNoisy(const Vector & v)
  {
    ++draws;
    got.push_back(v);
    Vector r = v;
    for(int i = 0; i < r.size(); ++i) r(i) = r(i) * 3 + a * (i + 1) + draws;
    return r;
  }
  Vector expected(const Vector & v, int draw)
  {
    Vector r = v;
    for(int i = 0; i < r.size(); ++i) r(i) = r(i) * 3 + a * (i + 1) + draw;
    return r;
  }
};
struct Case
{
  Vector x, y; // state given to the sensor, noiseless measurement expected
};
static Case make(const std::string & n, bool magneto, bool matrix, int extra)
{
  V4 q = unitQuat(n + "q");
  M3 R = quatToMat(q);
  V3 a = sx::vec3(n + "a"), w = sx::vec3(n + "w");
  Case c;
  int base = matrix ? 15 : 10;
  c.x.resize(base + extra);
  if(matrix)
    for(int j = 0; j < 3; ++j)
      for(int i = 0; i < 3; ++i) c.x(3 * j + i) = R(i, j);
  else
    c.x.head<4>() = q;
  c.x.segment(base - 6, 3) = a;
  c.x.segment(base - 3, 3) = w;
  int m = magneto ? 9 : 6;
  c.y.resize(m + extra);
  M3 Rt = tr(R);
  c.y.segment(0, 3) = mulv(Rt, V3(a + G()));
  c.y.segment(3, 3) = mulv(Rt, w);
  if(magneto) c.y.segment(6, 3) = mulv(Rt, V3(0, 28, -33.7));
  for(int i = 0; i < extra; ++i) c.x(base + i) = c.y(m + i) = sx::var(n + "e" + std::to_string(i));
  return c;
}
template<class S>
static void sensor(bool magneto)
{
  S s;
  bool matrix = sx_choice("matrix mode", 2);
  int extra = sx_choice("concatenated inputs", 3);
  if(matrix) s.setMatrixMode(true);
  else if(sx_choice("mode changed back", 2))
  {
    s.setMatrixMode(true);
    s.setMatrixMode(false);
  }
  int m = (magneto ? 9 : 6) + extra, n = (matrix ? 15 : 10) + extra;
  if(extra) sx::eqi(s.concatenateWithInput(extra), m, "size returned by the concatenation");
  sx::eqi(s.getMeasurementSize(), m, "measurement size");
  sx::eqi(s.getStateSize(), n, "state size");
  sx::yes(s.checkStateVector(Vector::Zero(n)) && !s.checkStateVector(Vector::Zero(n + 1)) && !s.checkStateVector(Vector::Zero(n - 1)), "state size check");
  sx::eqi(s.stateVectorZero().size(), n, "zero state");
  Case c = make("1", magneto, matrix, extra), d = make("2", magneto, matrix, extra);
  s.setState(c.x, 7);
  sx::eqi(s.getTime(), 7, "time");
  sx::yes(s.getNoise() == 0x0, "no noise at first");
  switch(sx_choice("order", 3))
  {
    case 0: // no noise at all
      sx::eqm(s.getMeasurements(), c.y, "measurement");
      sx::eqm(s.getMeasurements(false), c.y, "noiseless measurement");
      break;
    case 1: break;
    case 2: sx::eqm(s.getMeasurements(false), c.y, "noiseless measurement first"); break;
  }
  Noise z(sx::var("z"));
  // the time index does not tell the states apart
  int same = sx_choice("same time", 2);
  s.setState(d.x, same ? 7 : 3);
  sx::eqi(s.getTime(), same ? 7 : 3, "time can go back");
  s.setNoise(&z);
  sx::yes(s.getNoise() == &z, "noise is the one given");
  if(sx_choice("noiseless before noisy", 2)) sx::eqm(s.getMeasurements(false), d.y, "noiseless measurement with a noise set");
  sx::eqm(s.getMeasurements(), z.expected(d.y, 1), "noisy measurement");
  sx::eqm(s.getMeasurements(true), z.expected(d.y, 1), "the same noisy measurement for the same state");
  sx::eqm(s.getMeasurements(false), d.y, "noiseless measurement after noisy");
  sx::eqi(z.draws, 1, "one draw per state");
  s.setState(c.x, same ? 7 : 4);
  sx::eqm(s.getMeasurements(), z.expected(c.y, 2), "new draw for a new state");
  s.resetNoise();
  sx::yes(s.getNoise() == 0x0, "noise removed");
  sx::eqm(s.getMeasurements(), c.y, "no noise after its removal");
}
SX_SCENARIO(accelerometer_gyrometer) { sensor<AccelerometerGyrometer>(false); }
SX_SCENARIO(accelerometer_gyrometer_magnetometer) { sensor<AccelerometerGyrometerMagnetometer>(true); }
SX_SCENARIO(mode_change)
{
  AccelerometerGyrometer s;
  AccelerometerGyrometerMagnetometer t;
  bool first = sx_choice("first", 2);
  for(int i = 0; i < 3; ++i)
  {
    bool matrix = (i % 2 == 0) == first;
    s.setMatrixMode(matrix);
    t.setMatrixMode(matrix);
    Case c = make(std::to_string(i), false, matrix, 0), d = make("m" + std::to_string(i), true, matrix, 0);
    s.setState(c.x, i);
    t.setState(d.x, i);
    sx::eqm(s.getMeasurements(), c.y, "accelerometer-gyrometer after mode change");
    sx::eqm(t.getMeasurements(), d.y, "with magnetometer after mode change");
  }
}
struct Law : tools::ProbabilityLawSimulation
{
  static std::mt19937 & gen() { return gen_; }
};
static Vector standard(int n, unsigned seed)
{
  Law::gen().seed(seed);
  std::normal_distribution<double> g(0, 1);
  Vector r(n);
  for(int i = 0; i < n; ++i) r(i) = g(Law::gen());
  Law::gen().seed(seed);
  return r;
}
static void sumTwice(const Vector & a, const Vector & b, Vector & r) { r = a + 2 * b; }
SX_SCENARIO(gaussian_noise)
{
  sx_mode_native_concrete(1);
  int n = 1 + sx_choice("dimension", 3), how = sx_choice("how", 4);
  bool late = sx_choice("dimension set later", 2), biased = sx_choice("biased", 2), sum = sx_choice("sum function", 2);
  GaussianWhiteNoise z(late ? 5 : n);
  if(late)
  {
    if(sx_choice("default constructor", 2)) z = GaussianWhiteNoise();
    z.setDimension(n);
  }
  sx::eqi(z.getDimension(), n, "dimension");
  Matrix L = Matrix::Identity(n, n);
  if(how == 1)
  {
    L = sx::mat("s", n, n);
    z.setStandardDeviation(L);
  }
  if(how >= 2)
  {
    // covariance given by its factor : every positive definite matrix has one and only one with a positive diagonal
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) L(i, j) = j > i ? 0 : sx::var("l" + std::to_string(i) + std::to_string(j));
    for(int i = 0; i < n; ++i) sx::assumeLt(0.001, L(i, i));
    Matrix S(n, n);
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j)
      {
        S(i, j) = 0;
        for(int k = 0; k < n; ++k) S(i, j) += L(i, k) * L(j, k);
      }
    z.setCovarianceMatrix(S);
  }
  if(how == 3)
  {
    L = sx::mat("s", n, n);
    z.setStandardDeviation(L); // the last one given wins
  }
  Vector b = Vector::Zero(n);
  if(biased) z.setBias(b = sx::vec("b", n));
  if(sum) z.setSumFunction(&sumTwice);
  Vector x = sx::vec("x", n), w = standard(n, 42), got = z.getNoisy(x), want(n);
  for(int i = 0; i < n; ++i)
  {
    double e = b(i);
    for(int j = 0; j < n; ++j) e += L(i, j) * w(j);
    want(i) = x(i) + (sum ? 2 * e : e);
  }
  sx::eqm(got, want, "noisy vector");
}
SX_SCENARIO(random_scalars)
{
  sx_mode_native_concrete(1);
  double s = sx::var("s"), b = sx::var("b"), lo = sx::var("lo"), hi = sx::var("hi");
  sx::assumeLt(0, s);
  sx::assumeLt(lo, hi);
  double w = standard(1, 7)(0);
  sx::eq(tools::ProbabilityLawSimulation::getGaussianScalar(s, b), b + s * w, "Gaussian scalar has the given bias and deviation");
  Law::gen().seed(11);
  double u = tools::ProbabilityLawSimulation::getUniformScalar();
  sx::le(0, u, "default range low");
  sx::lt(u, 1, "default range high");
  Law::gen().seed(11);
  double v = tools::ProbabilityLawSimulation::getUniformScalar(lo, hi);
  sx::eq(v, lo + (hi - lo) * u, "uniform scalar is in the given range");
  Matrix c = sx::mat("c", 2, 1), S = sx::mat("S", 2, 2);
  Vector n = standard(2, 5);
  Matrix r = tools::ProbabilityLawSimulation::getGaussianVector(S, c, 2, 1);
  for(int i = 0; i < 2; ++i) sx::eq(r(i, 0), c(i, 0) + S(i, 0) * n(0) + S(i, 1) * n(1), "Gaussian vector has the given bias and deviation");
  n = standard(3, 6);
  M3 T = M3(sx::mat("T", 3, 3));
  V3 d = sx::vec3("d");
  V3 f = tools::ProbabilityLawSimulation::getGaussianVector<Vector3>(T, d);
  sx::eqm(f, V3(d + mulv(T, n)), "fixed-size Gaussian vector");
}
