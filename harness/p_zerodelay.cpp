// Zero-delay observers: buffering of states, measurements and inputs over histories of calls.
#include "common.hpp"
#include <map>
#include <state-observation/observer/zero-delay-observer.hpp>
using namespace stateObservation;
// one step reads exactly the state, the input at the current time and the measurement at the next time
struct Obs : public ZeroDelayObserver
{
  Obs(int p) : ZeroDelayObserver(1, 1, p) {}
  StateVector oneStepEstimation_()
  {
    long k = x_.getTime();
    Vector v(1);
    v(0) = 2 * x_()(0) + 3 * y_[k + 1](0);
    if(p_ > 0) v(0) = v(0) + 5 * u_[k](0);
    x_.set(v, k + 1);
    return v;
  }
};
static Vector one(double x)
{
  Vector v(1);
  v(0) = x;
  return v;
}
struct Model
{
  double x;
  long k;
  std::map<long, double> y, u;
  int p;
  bool can(long t) const
  {
    for(long i = k; i < t; ++i)
      if(!y.count(i + 1) || (p && !u.count(i))) return false;
    return true;
  }
  void run(long t)
  {
    while(k < t)
    {
      x = 2 * x + 3 * y[k + 1] + (p ? 5 * u[k] : 0.);
      u.erase(k);
      ++k;
    }
    while(!y.empty() && y.begin()->first <= k) y.erase(y.begin());
  }
  long nextY() const { return y.empty() ? k + 1 : y.rbegin()->first + 1; }
  long nextU() const { return u.empty() ? k : u.rbegin()->first + 1; }
};
static void compare(const Obs & o, const Model & m, const std::string & l)
{
  sx::eqi(o.getCurrentTime(), m.k, l + ": current time");
  sx::eq(o.getCurrentEstimatedState()(0), m.x, l + ": current state");
  for(auto & e : m.y) sx::eq(o.getMeasurement(e.first)(0), e.second, l + ": pending measurement");
  if(!m.y.empty()) sx::eqi(o.getMeasurementTime(), m.y.rbegin()->first, l + ": last measurement time");
  for(auto & e : m.u) sx::eq(o.getInput(e.first)(0), e.second, l + ": pending input");
  if(!m.u.empty()) sx::eqi(o.getInputTime(), m.u.rbegin()->first, l + ": last input time");
  if(m.p) sx::eqi(o.getInputsNumber(), m.u.size(), l + ": pending inputs");
}
#ifdef SX_THOROUGH
static const int DEPTH = 5;
#else
static const int DEPTH = 4;
#endif
SX_SCENARIO(history)
{
  int p = sx_choice("inputs", 2);
  Obs o(p);
  Model m;
  m.p = p;
  m.k = sx_choice("start", 2) * 5;
  m.x = sx::var("x");
  sx::yes(!o.stateIsSet(), "no state at first");
  o.setState(one(m.x), m.k);
  compare(o, m, "initial");
  for(int s = 0; s < DEPTH; ++s)
  {
    std::string n = std::to_string(s);
    int op = sx_choice(("op" + n).c_str(), 8);
    double v = sx::var("v" + n);
    switch(op)
    {
      case 0: // two consecutive measurements, one set and one pushed
      {
        if(!m.y.empty() && m.nextY() > m.k + 3) return;
        double v2 = sx::var("w" + n);
        long t = m.nextY();
        o.setMeasurement(one(v), t);
        o.pushMeasurement(one(v2));
        m.y[t] = v;
        m.y[t + 1] = v2;
        break;
      }
      case 1: // two inputs
      {
        double v2 = sx::var("w" + n);
        if(!p)
        {
          o.setInput(one(v), 123); // no effect
          o.pushInput(one(v2));
          break;
        }
        if(m.nextU() > m.k + 3) return;
        long t = m.nextU();
        o.pushInput(one(v));
        o.setInput(one(v2), t + 1);
        m.u[t] = v;
        m.u[t + 1] = v2;
        break;
      }
      case 2: // overwrite the last pending measurement and input
        if(m.y.empty()) return;
        o.setMeasurement(one(v), m.y.rbegin()->first);
        m.y[m.y.rbegin()->first] = v;
        if(!m.u.empty())
        {
          double v2 = sx::var("w" + n);
          o.setInput(one(v2), m.u.rbegin()->first);
          m.u[m.u.rbegin()->first] = v2;
        }
        break;
      case 3: // estimate 0, 1 or 2 steps ahead
      {
        long t = m.k + sx_choice(("ahead" + n).c_str(), 3);
        if(!m.can(t)) return;
        Vector r = o.getEstimatedState(t);
        m.run(t);
        sx::eq(r(0), m.x, "estimated state");
        break;
      }
      case 4: // estimate as far as the measurements go
      {
        long t = m.y.empty() ? m.k : m.y.rbegin()->first;
        if(!m.can(t)) return;
        long r = o.estimateState();
        m.run(t);
        sx::eqi(r, m.k, "estimateState returns the current time");
        break;
      }
      case 5: // new state in the past, at the present time, or in the future
      {
        long t = m.k - 1 + sx_choice(("to" + n).c_str(), 3);
        if(t < 0) return;
        o.setState(one(v), t);
        if(t < m.k)
        {
          m.y.clear();
          m.u.clear();
          sx::eqi(o.getMeasurementsNumber(), 0, "a past state clears the measurements");
          sx::eqi(o.getInputsNumber(), 0, "a past state clears the inputs");
        }
        m.k = t;
        m.x = v;
        while(!m.y.empty() && m.y.begin()->first <= t) m.y.erase(m.y.begin());
        while(!m.u.empty() && m.u.begin()->first < t) m.u.erase(m.u.begin());
        break;
      }
      case 6:
        o.setCurrentState(one(v));
        m.x = v;
        break;
      case 7:
        switch(sx_choice(("clear" + n).c_str(), 3))
        {
          case 0: o.clearMeasurements(); m.y.clear(); sx::eqi(o.getMeasurementsNumber(), 0, "measurements cleared"); break;
          case 1: o.clearInputs(); m.u.clear(); break;
          default: o.clearInputsAndMeasurements(); m.y.clear(); m.u.clear(); sx::eqi(o.getMeasurementsNumber(), 0, "measurements cleared");
        }
        break;
    }
    compare(o, m, "after op " + std::to_string(op));
  }
}
SX_SCENARIO(step_by_step_equals_batch)
{
  // the estimate at time N does not depend on how the time axis is cut into calls
  const int N = 4;
  int p = sx_choice("inputs", 2);
  Obs a(p), b(p);
  double x = sx::var("x");
  a.setState(one(x), 0);
  b.setState(one(x), 0);
  int cut = sx_choice("cuts", 8);
  for(int i = 0; i < N; ++i)
  {
    double y = sx::var("y" + std::to_string(i)), u = sx::var("u" + std::to_string(i));
    a.setMeasurement(one(y), i + 1);
    b.pushMeasurement(one(y));
    a.setInput(one(u), i);
    b.pushInput(one(u));
    if(i < N - 1 && (cut >> i & 1)) b.getEstimatedState(i + 1);
  }
  sx::eqi(a.estimateState(), N, "time");
  sx::eqi(b.estimateState(), N, "time");
  sx::eqm(a.getCurrentEstimatedState(), b.getCurrentEstimatedState(), "state");
}
SX_SCENARIO(sizes)
{
  Obs o(1);
  o.setState(one(sx::var("x")), 0);
  o.pushMeasurement(one(sx::var("y")));
  o.pushInput(one(sx::var("u")));
  int which = sx_choice("which", 3), change = sx_choice("change", 2);
  if(which == 0) o.setStateSize(1 + change);
  if(which == 1) o.setMeasureSize(1 + change);
  if(which == 2) o.setInputSize(1 + change);
  sx::yes(o.stateIsSet() == !(which == 0 && change), "state reset by a change of its size only");
  sx::eqi(o.getMeasurementsNumber(), which == 1 && change ? 0 : 1, "measurements reset by a change of their size only");
  sx::eqi(o.getInputsNumber(), which == 2 && change ? 0 : 1, "inputs reset by a change of their size only");
  sx::eqi(o.getStateSize(), which == 0 ? 1 + change : 1, "state size");
  sx::eqi(o.getMeasureSize(), which == 1 ? 1 + change : 1, "measurement size");
  sx::eqi(o.getInputSize(), which == 2 ? 1 + change : 1, "input size");
  o.reset();
  sx::yes(!o.stateIsSet(), "reset clears the state");
  sx::eqi(o.getMeasurementsNumber(), 0, "reset clears the measurements");
  sx::eqi(o.getInputsNumber(), 0, "reset clears the inputs");
}
