// The logger: histories of recordings, pushes, changes of address, clears and savings against lists kept here.
#include "common.hpp"
#include "memfile.hpp"
#include <deque>
#include <map>
#include <state-observation/tools/logger.hpp>
using namespace stateObservation;
#ifdef SX_THOROUGH
static const int DEPTH = 4;
#else
static const int DEPTH = 3;
#endif
struct Track
{
  long first;
  std::deque<Matrix> v;
  Track() : first(0) {}
};
static void compare(const IndexedMatrixArray & a, const Track & t, const std::string & l)
{
  sx::eqi(a.size(), t.v.size(), l + ": number of records");
  sx::eqi(a.getNextIndex(), t.first + long(t.v.size()), l + ": next index");
  if(a.size() != TimeSize(t.v.size()) || t.v.empty()) return;
  sx::eqi(a.getFirstIndex(), t.first, l + ": first index");
  if(a.getFirstIndex() != t.first) return;
  for(size_t i = 0; i < t.v.size(); ++i) sx::eqm(a[t.first + TimeIndex(i)], t.v[i], l + ": record " + std::to_string(i));
}
static Matrix one(double x)
{
  Matrix m(1, 1);
  m(0, 0) = x;
  return m;
}
// every supported type, recorded and pushed by reference or by address
SX_SCENARIO(types)
{
  tools::Logger log;
  Matrix m = sx::mat("m", 2, 3);
  Vector v = sx::vec("v", 2);
  Matrix3 m3 = sx::mat("a", 3, 3);
  Vector3 v3 = sx::vec3("b");
  double d = sx::var("d");
  float f = 2.5f;
  int i = 5 - 8 * sx_choice("int", 2);
  long n = 1 + 4000000000L * sx_choice("long", 2);
  const double c = sx::var("c");
  Track tm, tv, ta, tb, td, tf, ti, tn, tc;
  if(sx_choice("record", 2))
  {
    log.record(m);
    log.record(v);
    log.record(m3);
    log.record(v3);
    log.record(d);
    log.record(f);
    log.record(i);
    log.record(n);
    log.record(c);
  }
  else
  {
    log.record(&m);
    log.record(&v, "v");
    log.record(&m3);
    log.record(&v3);
    log.record(&d);
    log.record(&f);
    log.record(&i);
    log.record(&n);
    log.record(&c);
  }
  const tools::Logger & clog = log;
  for(int s = 0; s < 2; ++s)
  {
    if(s == 1)
    {
      m = sx::mat("m'", 1 + sx_choice("other size", 2), 2);
      v = sx::vec("v'", 3);
      m3 = sx::mat("a'", 3, 3);
      v3 = sx::vec3("b'");
      d = sx::var("d'");
      f = -0.25f;
      i = 77;
      n = -3;
    }
    int how = s == 0 ? sx_choice("push", 3) : 0;
    if(how == 0)
      log.push();
    else if(how == 1)
    {
      log.push(m);
      log.push(v);
      log.push(m3);
      log.push(v3);
      log.push(d);
      log.push(f);
      log.push(i);
      log.push(n);
      log.push(c);
    }
    else
    {
      log.push(&m);
      log.push(&v);
      log.push(&m3);
      log.push(&v3);
      log.push(&d);
      log.push(&f);
      log.push(&i);
      log.push(&n);
      log.push(&c);
    }
    tm.v.push_back(m);
    tv.v.push_back(v);
    ta.v.push_back(m3);
    tb.v.push_back(v3);
    td.v.push_back(one(d));
    tf.v.push_back(one(s ? -0.25 : 2.5));
    ti.v.push_back(one(i));
    tn.v.push_back(one(n));
    tc.v.push_back(one(c));
  }
  compare(clog.getRecord(&m), tm, "matrix");
  compare(clog.getRecord(&v), tv, "vector");
  compare(log.getRecord(&m3), ta, "3x3 matrix");
  compare(log.getRecord(&v3), tb, "3D vector");
  compare(clog.getRecord(&d), td, "double");
  compare(clog.getRecord(&f), tf, "float");
  compare(log.getRecord(&i), ti, "int");
  compare(log.getRecord(&n), tn, "long");
  compare(log.getRecord(&c), tc, "constant");
}
// sequences of operations on two variables
SX_SCENARIO(history)
{
  MemFile file;
  tools::Logger log;
  log.setPath(file.dir());
  Vector v = sx::vec("v", 2), w = sx::vec("w", 2);
  double d = sx::var("d"), e = sx::var("e");
  log.record(v, file.file());
  log.record(d);
  const Vector * pv = &v;
  const double * pd = &d;
  Track tv, td;
  std::vector<Matrix> saved; // content of the file
  long savedFirst = 0;
  log.push();
  tv.v.push_back(v);
  td.v.push_back(one(d));
  for(int s = 0; s < DEPTH; ++s)
  {
    std::string n = std::to_string(s);
    int op = sx_choice(("op" + n).c_str(), 9);
    if(op < 3)
    {
      v(1) = sx::var("v" + n);
      w(0) = sx::var("w" + n);
      d = sx::var("d" + n);
      e = sx::var("e" + n);
    }
    switch(op)
    {
      case 0:
        log.push();
        tv.v.push_back(*pv);
        td.v.push_back(one(*pd));
        break;
      case 1:
        log.push(*pv);
        tv.v.push_back(*pv);
        break;
      case 2:
        log.push(pd);
        td.v.push_back(one(*pd));
        break;
      case 3: // the variables move
        if(pv == &v)
        {
          log.updateAddress(&v, &w);
          pv = &w;
        }
        else
        {
          log.updateAddress(&w, &v);
          pv = &v;
        }
        break;
      case 4:
        if(pd == &e) return;
        log.updateAddress(pd, &e);
        pd = &e;
        break;
      case 5:
        log.clearLogs();
        tv.first += tv.v.size();
        td.first += td.v.size();
        tv.v.clear();
        td.v.clear();
        break;
      case 6: // everything is forgotten, and recorded anew
        log.clearTracking();
        log.push(); // nothing is recorded
        log.record(*pd);
        log.record(*pv, file.file());
        tv = Track();
        td = Track();
        break;
      case 8: // recorded again: nothing is lost
        log.record(*pv, file.file());
        log.record(pd);
        break;
      case 7:
      {
        bool clear = sx_choice(("clear" + n).c_str(), 2), append = sx_choice(("append" + n).c_str(), 2);
        if(append && (saved.empty() || tv.v.empty() || savedFirst + long(saved.size()) != tv.first)) return;
        {
          ExactNumbers exact;
          log.save(clear, append);
        }
        if(!append)
        {
          saved.clear();
          savedFirst = tv.first;
        }
        for(size_t i = 0; i < tv.v.size(); ++i) saved.push_back(Matrix(tv.v[i].transpose()));
        if(clear) // what is not saved is kept
        {
          tv.first += tv.v.size();
          tv.v.clear();
        }
        break;
      }
    }
    compare(log.getRecord(pv), tv, "vector after step " + n);
    compare(log.getRecord(pd), td, "number after step " + n);
  }
  IndexedMatrixArray a;
  {
    ExactNumbers exact;
    a.readFromFile(file.path(), 1, 2);
  }
  sx::eqi(a.size(), saved.size(), "number of records saved");
  if(a.size() == TimeSize(saved.size()) && !saved.empty())
  {
    sx::eqi(a.getFirstIndex(), savedFirst, "first index saved");
    if(a.getFirstIndex() == savedFirst)
      for(size_t i = 0; i < saved.size(); ++i) sx::eqm(a[savedFirst + TimeIndex(i)], saved[i], "record saved " + std::to_string(i));
  }
}
// three variables: each has its own records and its own file
SX_SCENARIO(independent)
{
  MemFile f1, f2;
  tools::Logger log;
  log.setPath(f1.dir());
  double x[3];
  for(int i = 0; i < 3; ++i) x[i] = sx::var("x" + std::to_string(i));
  log.record(x[0], f1.file());
  log.record(x[1], f2.file());
  log.record(x[2]);
  Track t[3];
  int which = sx_choice("which", 3), other = sx_choice("other", 3);
  log.push(x[which]);
  t[which].v.push_back(one(x[which]));
  x[other] = sx::var("y");
  log.push(&x[other]);
  t[other].v.push_back(one(x[other]));
  log.push();
  for(int i = 0; i < 3; ++i) t[i].v.push_back(one(x[i]));
  for(int i = 0; i < 3; ++i) compare(log.getRecord(&x[i]), t[i], "variable " + std::to_string(i));
  bool clear = sx_choice("clear", 2);
  {
    ExactNumbers exact;
    log.save(clear);
  }
  for(int i = 0; i < 2; ++i)
  {
    IndexedMatrixArray a;
    {
      ExactNumbers exact;
      a.readFromFile((i ? f2 : f1).path(), 1, 1);
    }
    compare(a, t[i], "file " + std::to_string(i));
    if(clear)
    {
      t[i].first = t[i].v.size();
      t[i].v.clear();
    }
  }
  for(int i = 0; i < 3; ++i) compare(log.getRecord(&x[i]), t[i], "variable after saving " + std::to_string(i));
}
// asking for a variable which is not recorded is reported, pushing nothing is possible
SX_SCENARIO(several_loggers)
{
  tools::Logger a, b;
  double x = sx::var("x");
  a.record(x);
  b.push();
  a.push();
  b.record(x);
  x = sx::var("y");
  b.push();
  Track t;
  t.v.push_back(one(sx::var("x")));
  compare(a.getRecord(&x), t, "first logger");
  t.v[0] = one(x);
  compare(b.getRecord(&x), t, "second logger");
}
