// Time-indexed containers against a reference map, over histories of operations; checked and indexed items.
#include "common.hpp"
#include <map>
#include <deque>
#include <state-observation/tools/definitions.hpp>
using namespace stateObservation;
#ifdef SX_THOROUGH
static const int DEPTH = 4;
#else
static const int DEPTH = 3;
#endif
struct Model
{
  std::deque<double> v;
  long first;
  bool firstKnown; // the index of the next pushed element when the array is empty is only specified in some cases
  Model() : first(0), firstKnown(true) {}
};
static void compare(const IndexedVectorArray & a, const Model & m, const std::string & l)
{
  sx::eqi(a.size(), m.v.size(), l + ": size");
  if(a.size() != TimeSize(m.v.size())) return;
  if(m.v.empty())
  {
    if(m.firstKnown) sx::eqi(a.getNextIndex(), m.first, l + ": next index of the empty array");
    return;
  }
  sx::eqi(a.getFirstIndex(), m.first, l + ": first index");
  sx::eqi(a.getLastIndex(), m.first + long(m.v.size()) - 1, l + ": last index");
  sx::eqi(a.getNextIndex(), m.first + long(m.v.size()), l + ": next index");
  if(a.getFirstIndex() != m.first) return;
  for(long k = m.first - 2; k < m.first + long(m.v.size()) + 2; ++k)
  {
    bool in = k >= m.first && k < m.first + long(m.v.size());
    sx::yes(a.checkIndex(k) == in, l + ": checkIndex");
    if(in && a.checkIndex(k)) sx::eq(a[k](0), m.v[k - m.first], l + ": value");
  }
  sx::eq(a.front()(0), m.v.front(), l + ": front");
  sx::eq(a.back()(0), m.v.back(), l + ": back");
}
static Vector one(double x)
{
  Vector v(1);
  v(0) = x;
  return v;
}
SX_SCENARIO(history)
{
  IndexedVectorArray a;
  Model m;
  long k0 = sx_choice("first", 3); // 0, 1 or 5
  if(k0 == 2) k0 = 5;
  int n0 = sx_choice("initial", 4);
  for(int i = 0; i < n0; ++i)
  {
    double x = sx::var("x" + std::to_string(i));
    a.setValue(one(x), k0 + i);
    if(i == 0) m.first = k0;
    m.v.push_back(x);
  }
  compare(a, m, "initial");
  for(int s = 0; s < DEPTH; ++s)
  {
    std::string n = std::to_string(s);
    int op = sx_choice(("op" + n).c_str(), 9);
    double y = 0;
    if(op <= 1) y = sx::var("y" + n);
    long next = m.first + long(m.v.size());
    switch(op)
    {
      case 0: // setValue at an existing or the next index
      {
        long d = sx_choice(("at" + n).c_str(), 3);
        long k = next - d;
        if(!m.v.empty() && k < m.first) return;
        if(m.v.empty())
        {
          k = 7 + d; // an empty array accepts any index
          m.first = k;
        }
        a.setValue(one(y), k);
        m.firstKnown = true;
        if(k - m.first < long(m.v.size())) m.v[k - m.first] = y;
        else m.v.push_back(y);
        break;
      }
      case 1:
        if(m.v.empty() && !m.firstKnown) return;
        a.pushBack(one(y));
        m.v.push_back(y);
        break;
      case 2:
        if(m.v.empty()) return;
        a.popFront();
        m.v.pop_front();
        m.first++;
        break;
      case 3:
      case 4:
      {
        if(m.v.empty()) return;
        long k = m.first - 1 + sx_choice(("at" + n).c_str(), 5);
        if(op == 3)
        {
          a.truncateAfter(k);
          while(!m.v.empty() && m.first + long(m.v.size()) - 1 > k) m.v.pop_back();
        }
        else
        {
          a.truncateBefore(k);
          while(!m.v.empty() && m.first < k)
          {
            m.v.pop_front();
            m.first++;
          }
        }
        if(m.v.empty()) m.firstKnown = false;
        break;
      }
      case 5:
        a.clear();
        m.first = next;
        m.v.clear();
        break;
      case 6:
        a.reset();
        m = Model();
        break;
      case 7:
      {
        long k = 10 + sx_choice(("at" + n).c_str(), 2);
        if(m.v.empty()) return;
        if(sx_choice(("end" + n).c_str(), 2))
        {
          a.setLastIndex(k);
          m.first = k - long(m.v.size()) + 1;
        }
        else
        {
          a.setFirstIndex(k);
          m.first = k;
        }
        break;
      }
      case 8:
      {
        if(m.v.empty()) return;
        int z = sx_choice(("size" + n).c_str(), 5);
        double f = sx::var("f" + n);
        a.resize(z, one(f));
        m.v.resize(z, f);
        break;
      }
    }
    compare(a, m, "after op " + std::to_string(op));
  }
}
SX_SCENARIO(sized_constructor)
{
  int n = sx_choice("n", 4);
  long k = sx_choice("k", 3) * 4;
  IndexedVectorArray a(n, k);
  sx::eqi(a.size(), n, "size");
  sx::eqi(a.getFirstIndex(), k, "first index");
  sx::eqi(a.getNextIndex(), k + n, "next index");
  for(int i = 0; i < n; ++i)
  {
    double x = sx::var("x" + std::to_string(i));
    a.setValue(one(x), k + i);
    sx::eq(a[k + i](0), x, "value");
  }
  sx::eqi(a.size(), n, "size unchanged");
}
SX_SCENARIO(copies_are_independent)
{
  IndexedVectorArray a;
  double x = sx::var("x"), y = sx::var("y"), z = sx::var("z");
  a.setValue(one(x), 3);
  IndexedVectorArray b = a;
  b.setValue(one(y), 3);
  b.pushBack(one(z));
  sx::eq(a[3](0), x, "original value");
  sx::eqi(a.size(), 1, "original size");
  sx::eq(b[3](0), y, "copy value");
  sx::eq(b[4](0), z, "copy pushed value");
}
SX_SCENARIO(indexed_vector)
{
  IndexedVector v;
  sx::yes(!v.isSet(), "default is unset");
  double x = sx::var("x"), y = sx::var("y");
  v.set(one(x), 4);
  sx::yes(v.isSet(), "set");
  sx::eqi(v.getTime(), 4, "time");
  sx::eq(v()(0), x, "value");
  v.setIndex(9);
  sx::eqi(v.getTime(), 9, "time changed");
  sx::eq(v()(0), x, "value kept");
  v() = one(y);
  sx::eq(v()(0), y, "value changed");
  IndexedVector w(v);
  v.reset();
  sx::yes(!v.isSet(), "reset");
  sx::yes(w.isSet(), "copy still set");
  sx::eq(w()(0), y, "copy value");
  sx::eqi(w.getTime(), 9, "copy time");
  IndexedVector u(one(x), 2);
  sx::yes(u.isSet(), "constructed set");
  sx::eqi(u.getTime(), 2, "constructed time");
  sx::eq(u()(0), x, "constructed value");
  w = u;
  sx::eqi(w.getTime(), 2, "assigned time");
  sx::eq(w()(0), x, "assigned value");
}
SX_SCENARIO(checked_item)
{
  Vector3 x = sx::vec3("x"), y = sx::vec3("y");
  CheckedVector3 a;
  sx::yes(!a.isSet(), "default is unset");
  CheckedVector3 b(x);
  sx::yes(b.isSet(), "constructed from a value is set");
  sx::eqm(b(), x, "constructed value");
  a = y;
  sx::yes(a.isSet(), "assigned is set");
  sx::eqm(a(), y, "assigned value");
  CheckedVector3 c(a);
  a.reset();
  sx::yes(!a.isSet(), "reset");
  sx::yes(c.isSet(), "copy not affected by reset");
  sx::eqm(c(), y, "copy value");
  c = a;
  sx::yes(!c.isSet(), "assigning an unset item unsets");
  CheckedVector3 d(a);
  sx::yes(!d.isSet(), "copying an unset item is unset");
  c = b;
  sx::yes(c.isSet(), "assigning a set item sets");
  sx::eqm(c(), x, "assigned item value");
  a.set() = x;
  sx::yes(a.isSet(), "set() sets");
  sx::eqm(a(), x, "set() value");
  a.set(false);
  sx::yes(!a.isSet(), "set(false) unsets");
  a.set(true);
  sx::yes(a.isSet(), "set(true) sets");
  sx::eqm(b.chckitm_getValue(), x, "getValue");
}
SX_SCENARIO(approximate_equality)
{
  double a = sx::var("a"), b = sx::var("b"), e = sx::var("e", 0, 1);
  bool c = isApproxAbs(a, b, e);
  if(c)
  {
    sx::lt(a - b, e, "|a-b| < e");
    sx::lt(b - a, e, "|a-b| < e");
  }
  else sx::le(e * e, (a - b) * (a - b), "|a-b| >= e");
}
