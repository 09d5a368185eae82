// Arrays written to files and read back. The reference is the list of the values written and their indexes.
#include "common.hpp"
#include "memfile.hpp"
#include <fstream>
#include <sstream>
#include <state-observation/tools/definitions.hpp>
using namespace stateObservation;
static const int SIZES[][2] = {{1, 1}, {2, 1}, {1, 3}, {2, 2}, {3, 2}};
static long firstIndex(int c) { return c == 0 ? 0 : c == 1 ? 1 : 12; }
static Matrix some(const std::string & n, int r, int c)
{
  Matrix m(r, c);
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j) m(i, j) = sx::var(n + "_" + std::to_string(i) + std::to_string(j));
  return m;
}
template<typename A, typename B>
static void same(A & a, const std::vector<B> & v, long k, const std::string & l)
{
  sx::eqi(a.size(), v.size(), l + ": number of elements");
  if(a.size() != TimeSize(v.size())) return;
  if(v.empty()) return;
  sx::eqi(a.getFirstIndex(), k, l + ": first index");
  sx::eqi(a.getLastIndex(), k + long(v.size()) - 1, l + ": last index");
  if(a.getFirstIndex() != k) return;
  for(size_t i = 0; i < v.size(); ++i) sx::eqm(a[k + TimeIndex(i)], v[i], l + ": element " + std::to_string(i));
}
static void dirty(IndexedMatrixArray & a)
{
  if(sx_choice("reused", 2) == 0) return;
  a.setValue(Matrix::Constant(2, 2, 8), 3);
  a.setValue(Matrix::Constant(2, 2, 9), 4);
}
// written, then read back in another array
SX_SCENARIO(matrices)
{
  int s = sx_choice("size", 5), n = sx_choice("n", 4), r = SIZES[s][0], c = SIZES[s][1];
  long k = firstIndex(sx_choice("first", 3));
  MemFile f;
  IndexedMatrixArray a, b;
  std::vector<Matrix> v;
  for(int i = 0; i < n; ++i)
  {
    v.push_back(some("m" + std::to_string(i), r, c));
    a.setValue(v.back(), k + i);
  }
  dirty(b);
  if(sx_choice("name", 2))
  {
    {
      ExactNumbers exact;
      a.writeInFile(f.path());
    }
    {
      ExactNumbers exact;
      b.readFromFile(f.path(), r, c);
    }
  }
  else
  {
    {
      ExactNumbers exact;
      a.writeInFile(f.path().c_str());
    }
    {
      ExactNumbers exact;
      b.readFromFile(f.path().c_str(), r, c);
    }
  }
  same(a, v, k, "the array which was written");
  same(b, v, k, "array read back");
  // the array goes on after the values which were read
  if(n)
  {
    Matrix x = some("next", r, c);
    b.pushBack(x);
    v.push_back(x);
    same(b, v, k, "array continued");
  }
}
SX_SCENARIO(vectors)
{
  int n = sx_choice("n", 4);
  long k = firstIndex(sx_choice("first", 3));
  MemFile f;
  IndexedVectorArray a, b;
  std::vector<Vector> v;
  bool same_size = sx_choice("same size", 2);
  for(int i = 0; i < n; ++i)
  {
    v.push_back(some("v" + std::to_string(i), same_size ? 2 : 1 + (i + 1) % 3, 1));
    a.setValue(v.back(), k + i);
  }
  if(sx_choice("reused", 2)) b.setValue(Vector::Constant(1, 7), 6);
  {
    ExactNumbers exact;
    a.writeInFile(f.path());
  }
  if(sx_choice("name", 2))
    {
      ExactNumbers exact;
      b.readVectorsFromFile(f.path());
    }
  else
    {
      ExactNumbers exact;
      b.readVectorsFromFile(f.path().c_str());
    }
  same(b, v, k, "vectors read back");
}
// several writings in the same file
SX_SCENARIO(append_and_clear)
{
  MemFile f;
  IndexedMatrixArray a;
  std::vector<Matrix> all, in; // content expected in the file, and in the array
  long k = firstIndex(sx_choice("first", 3)), kin = k, kall = k;
  int n = 1 + sx_choice("n", 2);
  for(int i = 0; i < n; ++i)
  {
    in.push_back(some("a" + std::to_string(i), 1, 2));
    a.setValue(in.back(), k + i);
  }
  bool clear = sx_choice("clear", 2);
  {
    ExactNumbers exact;
    a.writeInFile(f.path(), clear, false);
  }
  all = in;
  if(clear)
  {
    in.clear();
    kin = k + n;
    sx::eqi(a.getNextIndex(), kin, "the index goes on after the array was cleared");
  }
  same(a, in, kin, "array after it was written");
  Matrix x = some("b", 1, 2);
  a.pushBack(x);
  in.push_back(x);
  same(a, in, kin, "array after the next element");
  bool append = clear ? sx_choice("append", 2) : 0, clear2 = sx_choice("clear again", 2);
  {
    ExactNumbers exact;
    a.writeInFile(f.path(), clear2, append);
  }
  if(append)
    all.push_back(x);
  else
  {
    all = in;
    kall = kin;
  }
  if(clear2)
  {
    kin += in.size();
    in.clear();
    sx::eqi(a.getNextIndex(), kin, "the index goes on after the array was cleared again");
  }
  same(a, in, kin, "array after it was written again");
  IndexedMatrixArray b;
  {
    ExactNumbers exact;
    b.readFromFile(f.path(), 1, 2);
  }
  same(b, all, kall, "content of the file");
}
// files without time indexes, with or without a last end of line, and with an incomplete end
SX_SCENARIO(no_time)
{
  MemFile f;
  int s = sx_choice("size", 4), n = sx_choice("n", 4), r = SIZES[s][0], c = SIZES[s][1];
  bool last = sx_choice("last line", 2), vectors = c == 1 && sx_choice("vectors", 2);
  std::vector<Matrix> v;
  for(int i = 0; i < n; ++i) v.push_back(some("m" + std::to_string(i), r, c));
  {
    ExactNumbers exact;
    std::ofstream o(f.path().c_str());
    for(int i = 0; i < n; ++i)
    {
      for(int j = 0; j < r; ++j)
        for(int l = 0; l < c; ++l) o << (j + l ? " " : "") << v[i](j, l);
      if(last || i + 1 < n) o << "\n";
    }
  }
  if(vectors)
  {
    IndexedVectorArray b;
    {
      ExactNumbers exact;
      b.readVectorsFromFile(f.path(), false);
    }
    same(b, v, 0, "vectors without time");
  }
  else
  {
    IndexedMatrixArray b;
    dirty(b);
    {
      ExactNumbers exact;
      b.readFromFile(f.path(), r, c, false);
    }
    same(b, v, 0, "matrices without time");
  }
}
// a file which cannot be opened
SX_SCENARIO(missing)
{
  IndexedMatrixArray a;
  Matrix m = some("m", 1, 2);
  a.setValue(m, 3);
  bool thrown = false;
  try
  {
    {
      ExactNumbers exact;
      a.writeInFile("/proc/self/fd/none/none", sx_choice("clear", 2), sx_choice("append", 2));
    }
  }
  catch(const std::runtime_error &)
  {
    thrown = true;
  }
  sx::yes(thrown, "a file which cannot be written is reported");
  same(a, std::vector<Matrix>(1, m), 3, "nothing is lost when the file cannot be written");
  {
    ExactNumbers exact;
    a.readFromFile("/proc/self/fd/none/none", 1, 2);
  }
  sx::eqi(a.size(), 0, "a missing file holds nothing");
  IndexedVectorArray v;
  v.setValue(Vector::Constant(1, 2), 4);
  {
    ExactNumbers exact;
    v.readVectorsFromFile("/proc/self/fd/none/none");
  }
  sx::eqi(v.size(), 0, "a missing file holds no vectors");
}

// strings
SX_SCENARIO(strings)
{
  int s = sx_choice("size", 5), r = SIZES[s][0], c = SIZES[s][1];
  Matrix m = some("m", r, c), back, row;
  Vector v = some("v", r * c, 1), w, x;
  {
    ExactNumbers exact;
    back = tools::stringToMatrix(tools::matrixToString(m), r, c);
    w = tools::stringToVector(tools::vectorToString(v));
    x = tools::stringToVector(tools::vectorToString(v), r * c);
    row = tools::stringToMatrix(tools::vectorToString(v), r, c);
  }
  sx::eqm(back, m, "matrix through a string");
  sx::eqi(w.size(), r * c, "size of the vector read in a string");
  if(w.size() == r * c) sx::eqm(w, v, "vector through a string");
  sx::eqm(x, v, "vector of known size through a string");
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j) sx::eq(row(i, j), v(i * c + j), "matrix read row by row");
}
