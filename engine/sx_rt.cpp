// Symbolic runtime: NaN-boxed symbolic doubles, expression DAG over the reals, path exploration,
// normalisation and SMT (z3 / cvc5) discharge.  See DESIGN.md.
#include <gmpxx.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cfenv>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <poll.h>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;
typedef mpq_class Q;

static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Unsupported
{
  string what;
};
struct Budget
{
  string what;
};
struct EndPath
{
};

// ------------------------------------------------------------------------------------------------ monomials
typedef vector<pair<int, int>> MonoV; // (var, exp) sorted by var
struct MonoHash
{
  size_t operator()(const MonoV & m) const
  {
    uint64_t h = 1469598103934665603ull;
    for(auto & p : m)
    {
      h ^= (uint64_t)p.first * 1000003u + p.second;
      h *= 1099511628211ull;
      h ^= h >> 29;
    }
    return h;
  }
};
static vector<MonoV> g_monos;
static std::unordered_map<MonoV, int, MonoHash> g_monoIdx;
static int internMono(const MonoV & m)
{
  auto it = g_monoIdx.find(m);
  if(it != g_monoIdx.end()) return it->second;
  int id = g_monos.size();
  g_monos.push_back(m);
  g_monoIdx.emplace(m, id);
  return id;
}
static int monoOne()
{
  static int one = internMono(MonoV());
  return one;
}
static int monoMul(int a, int b)
{
  if(a == monoOne()) return b;
  if(b == monoOne()) return a;
  const MonoV & x = g_monos[a];
  const MonoV & y = g_monos[b];
  MonoV r;
  r.reserve(x.size() + y.size());
  size_t i = 0, j = 0;
  while(i < x.size() || j < y.size())
  {
    if(j == y.size() || (i < x.size() && x[i].first < y[j].first))
      r.push_back(x[i++]);
    else if(i == x.size() || y[j].first < x[i].first)
      r.push_back(y[j++]);
    else
    {
      r.push_back({x[i].first, x[i].second + y[j].second});
      ++i;
      ++j;
    }
  }
  return internMono(r);
}
// lexicographic order, later variables are bigger
static int monoCmp(int a, int b)
{
  if(a == b) return 0;
  const MonoV & x = g_monos[a];
  const MonoV & y = g_monos[b];
  int i = (int)x.size() - 1, j = (int)y.size() - 1;
  while(i >= 0 && j >= 0)
  {
    if(x[i].first != y[j].first) return x[i].first > y[j].first ? 1 : -1;
    if(x[i].second != y[j].second) return x[i].second > y[j].second ? 1 : -1;
    --i;
    --j;
  }
  if(i >= 0) return 1;
  if(j >= 0) return -1;
  return 0;
}
struct MonoLex
{
  bool operator()(int a, int b) const { return monoCmp(a, b) < 0; }
};
static bool monoDiv(int a, int b, int & q) // q = a/b
{
  const MonoV & x = g_monos[a];
  const MonoV & y = g_monos[b];
  MonoV r;
  size_t i = 0, j = 0;
  while(j < y.size())
  {
    while(i < x.size() && x[i].first < y[j].first) r.push_back(x[i++]);
    if(i == x.size() || x[i].first != y[j].first || x[i].second < y[j].second) return false;
    if(x[i].second > y[j].second) r.push_back({x[i].first, x[i].second - y[j].second});
    ++i;
    ++j;
  }
  while(i < x.size()) r.push_back(x[i++]);
  q = internMono(r);
  return true;
}

// ------------------------------------------------------------------------------------------------ polynomials
static size_t g_polyLimit = 2500000;
static double g_pathDeadline = 1e18;
struct Poly
{
  vector<pair<int, Q>> t; // sorted by mono id, no zero coefficient
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == monoOne()); }
  Q constVal() const { return t.empty() ? Q(0) : t[0].second; }
  static Poly constant(const Q & q)
  {
    Poly p;
    if(q != 0) p.t.push_back({monoOne(), q});
    return p;
  }
  static Poly var(int v, int e = 1)
  {
    Poly p;
    MonoV m;
    m.push_back({v, e});
    p.t.push_back({internMono(m), Q(1)});
    return p;
  }
  bool operator==(const Poly & o) const { return t == o.t; }
  bool operator<(const Poly & o) const
  {
    if(t.size() != o.t.size()) return t.size() < o.t.size();
    for(size_t i = 0; i < t.size(); ++i)
    {
      if(t[i].first != o.t[i].first) return t[i].first < o.t[i].first;
      int c = cmp(t[i].second, o.t[i].second);
      if(c) return c < 0;
    }
    return false;
  }
};
static Poly addScaled(const Poly & a, const Poly & b, const Q & s)
{
  Poly r;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while(i < a.t.size() || j < b.t.size())
  {
    if(j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first))
      r.t.push_back(a.t[i++]);
    else if(i == a.t.size() || b.t[j].first < a.t[i].first)
    {
      r.t.push_back({b.t[j].first, b.t[j].second * s});
      ++j;
    }
    else
    {
      Q q = a.t[i].second + b.t[j].second * s;
      if(q != 0) r.t.push_back({a.t[i].first, q});
      ++i;
      ++j;
    }
  }
  return r;
}
static Poly operator+(const Poly & a, const Poly & b)
{
  return addScaled(a, b, Q(1));
}
static Poly operator-(const Poly & a, const Poly & b)
{
  return addScaled(a, b, Q(-1));
}
static Poly scale(const Poly & a, const Q & s)
{
  if(s == 0) return Poly();
  if(s == 1) return a;
  Poly r = a;
  for(auto & x : r.t) x.second *= s;
  return r;
}
static Poly mulRaw(const Poly & a, const Poly & b)
{
  if(a.isZero() || b.isZero()) return Poly();
  if(a.isConst()) return scale(b, a.constVal());
  if(b.isConst()) return scale(a, b.constVal());
  if(a.t.size() * b.t.size() > g_polyLimit) throw Budget{"polynomial product too large"};
  if(a.t.size() * b.t.size() > 2000 && now() > g_pathDeadline) throw Budget{"path time budget"};
  std::unordered_map<int, Q> acc;
  acc.reserve(std::min<size_t>(a.t.size() * b.t.size(), 1u << 18));
  Q tmp;
  for(auto & x : a.t)
    for(auto & y : b.t)
    {
      int m = monoMul(x.first, y.first);
      tmp = x.second * y.second;
      auto ins = acc.emplace(m, tmp);
      if(!ins.second) ins.first->second += tmp;
    }
  Poly r;
  r.t.reserve(acc.size());
  for(auto & x : acc)
    if(x.second != 0) r.t.push_back(x);
  std::sort(r.t.begin(), r.t.end(), [](const pair<int, Q> & p, const pair<int, Q> & q) { return p.first < q.first; });
  return r;
}
static bool polyDivExact(const Poly & P, const Poly & d, Poly & out, size_t limit = 400000)
{
  if(d.isConst())
  {
    out = scale(P, 1 / d.constVal());
    return true;
  }
  if(P.t.size() * d.t.size() > limit) return false;
  if(P.t.size() < d.t.size()) { if(P.t.size() < 1) { out = P; return true; } }
  map<int, Q, MonoLex> rem;
  for(auto & x : P.t) rem[x.first] = x.second;
  int lead = d.t[0].first;
  Q lc = d.t[0].second;
  for(auto & x : d.t)
    if(monoCmp(x.first, lead) > 0)
    {
      lead = x.first;
      lc = x.second;
    }
  // quick variable test
  map<int, Q> quo;
  size_t work = 0;
  while(!rem.empty())
  {
    auto it = std::prev(rem.end());
    int q;
    if(!monoDiv(it->first, lead, q)) return false;
    Q c = it->second / lc;
    quo[q] += c;
    work += d.t.size();
    if(work > limit) return false;
    for(auto & x : d.t)
    {
      int m = monoMul(q, x.first);
      auto f = rem.find(m);
      if(f == rem.end())
        rem[m] = -c * x.second;
      else
      {
        f->second -= c * x.second;
        if(f->second == 0) rem.erase(f);
      }
    }
  }
  out.t.clear();
  for(auto & x : quo)
    if(x.second != 0) out.t.push_back(x);
  return true;
}

// ------------------------------------------------------------------------------------------------ DAG nodes
enum Op
{
  CONST,
  VAR,
  ADD,
  SUB,
  MUL,
  DIV,
  NEG,
  SQRT,
  SIN,
  COS,
  ATAN2,
  ACOS,
  ASIN,
  EXP,
  LOG,
  POW,
  ABS
};
static const char * opName[] = {"const", "var",  "+",    "-",    "*",    "/",   "neg", "sqrt", "sin",
                                "cos",   "atan2", "acos", "asin", "exp", "log", "pow", "abs"};
struct Node
{
  Op op;
  int a, b;
  int q; // index in g_consts / input var index
};
static vector<Node> g_nodes;
static vector<Q> g_consts;
static std::unordered_map<uint64_t, vector<int>> g_nodeIdx;
static map<Q, int> g_constNode;

static const uint64_t TAG = 0x7FFC000000000000ull;
static const uint64_t TAGMASK = 0xFFFF000000000000ull;
static inline uint64_t bits(double d)
{
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static inline bool isSym(double d)
{
  return (bits(d) & TAGMASK) == TAG;
}
static inline int nodeOf(double d)
{
  return (int)(bits(d) & 0xFFFFFFFFull);
}
static inline double box(int n)
{
  uint64_t u = TAG | (uint64_t)(uint32_t)n;
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static int mkNodeRaw(Op op, int a, int b, int q)
{
  uint64_t key = ((uint64_t)op * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)(uint32_t)a << 32) ^ ((uint64_t)(uint32_t)b * 0x85EBCA6Bull)
                 ^ ((uint64_t)(uint32_t)q * 0xC2B2AE3D27D4EB4Full);
  auto & v = g_nodeIdx[key];
  for(int id : v)
  {
    const Node & n = g_nodes[id];
    if(n.op == op && n.a == a && n.b == b && n.q == q) return id;
  }
  g_nodes.push_back({op, a, b, q});
  v.push_back(g_nodes.size() - 1);
  return g_nodes.size() - 1;
}
static int mkConst(const Q & q)
{
  if(mpz_sizeinbase(q.get_num_mpz_t(), 2) > 20000 || mpz_sizeinbase(q.get_den_mpz_t(), 2) > 20000)
    throw Budget{"rational constant too large"};
  auto it = g_constNode.find(q);
  if(it != g_constNode.end()) return it->second;
  g_consts.push_back(q);
  int id = mkNodeRaw(CONST, -1, -1, g_consts.size() - 1);
  g_constNode[q] = id;
  return id;
}
static inline bool isC(int n)
{
  return g_nodes[n].op == CONST;
}
static inline const Q & cval(int n)
{
  return g_consts[g_nodes[n].q];
}
static int toNode(double d)
{
  if(isSym(d)) return nodeOf(d);
  if(!std::isfinite(d)) throw Unsupported{"non-finite operand"};
  return mkConst(Q(d));
}
static double fromNode(int n)
{
  if(isC(n))
  {
    const Q & q = cval(n);
    double d = q.get_d();
    if(std::isfinite(d) && Q(d) == q) return d;
  }
  return box(n);
}
static int mk(Op op, int a, int b = -1)
{
  bool ca = isC(a), cb = b >= 0 && isC(b);
  switch(op)
  {
    case ADD:
      if(ca && cb) return mkConst(cval(a) + cval(b));
      if(ca && cval(a) == 0) return b;
      if(cb && cval(b) == 0) return a;
      if(a > b) std::swap(a, b);
      break;
    case SUB:
      if(a == b) return mkConst(Q(0));
      if(ca && cb) return mkConst(cval(a) - cval(b));
      if(cb && cval(b) == 0) return a;
      if(ca && cval(a) == 0) return mk(NEG, b);
      break;
    case MUL:
      if(ca && cb) return mkConst(cval(a) * cval(b));
      if((ca && cval(a) == 0) || (cb && cval(b) == 0)) return mkConst(Q(0));
      if(ca && cval(a) == 1) return b;
      if(cb && cval(b) == 1) return a;
      if(ca && cval(a) == -1) return mk(NEG, b);
      if(cb && cval(b) == -1) return mk(NEG, a);
      if(a > b) std::swap(a, b);
      break;
    case DIV:
      if(cb && cval(b) == 0) throw Unsupported{"division by the constant zero"};
      if(ca && cb) return mkConst(cval(a) / cval(b));
      if(ca && cval(a) == 0) return a;
      if(cb && cval(b) == 1) return a;
      if(a == b) return mkConst(Q(1));
      break;
    case NEG:
      if(ca) return mkConst(-cval(a));
      if(g_nodes[a].op == NEG) return g_nodes[a].a;
      break;
    case SQRT:
      if(ca)
      {
        const Q & q = cval(a);
        if(q < 0) throw Unsupported{"sqrt of a negative constant"};
        mpz_class n, d;
        if(mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t()))
        {
          mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t());
          mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t());
          return mkConst(Q(n, d));
        }
      }
      break;
    case ABS:
      if(ca) return mkConst(abs(cval(a)));
      if(g_nodes[a].op == SQRT || g_nodes[a].op == ABS || g_nodes[a].op == EXP) return a;
      if(g_nodes[a].op == NEG) return mk(ABS, g_nodes[a].a);
      break;
    case SIN:
      if(ca && cval(a) == 0) return a;
      if(g_nodes[a].op == NEG) return mk(NEG, mk(SIN, g_nodes[a].a));
      break;
    case COS:
      if(ca && cval(a) == 0) return mkConst(Q(1));
      if(g_nodes[a].op == NEG) return mk(COS, g_nodes[a].a);
      break;
    case EXP:
      if(ca && cval(a) == 0) return mkConst(Q(1));
      break;
    default: break;
  }
  return mkNodeRaw(op, a, b, -1);
}

// ------------------------------------------------------------------------------------------------ variables
struct Frac;
enum VKind
{
  VINPUT,
  VUNIT,
  VSQRT,
  VABS,
  VTRIG, // one of a (sin,cos) pair
  VANG, // inverse trigonometric angle
  VEXP,
  VUF
};
struct Frac
{
  Poly n;
  vector<pair<int, int>> d; // (den atom, exponent)
};
struct VarInfo
{
  string name;
  VKind kind;
  bool hasRule = false; // v^2 -> rule
  Frac rule;
  bool nonneg = false;
  bool pos = false;
  // input
  bool bounded = false;
  double lo = 0, hi = 0;
  // trig: partner; ang: sin/cos
  int partner = -1;
  int order = 0;
  Frac f1, f2; // VSQRT: f1 radicand; VABS: f1 argument ; VANG: f1 = sin, f2 = cos (times positive scale)
  int angKind = 0; // 0 atan2, 1 acos, 2 asin
  int defNode = -1; // node defining it (for numeric evaluation)
  vector<int> unitOthers;
  double cval = 0;
  bool hasC = false; // numeric value known (trig of a constant)
  Frac trigArg;
  bool hasTrigArg = false;
};
static vector<VarInfo> g_vars;
static vector<Poly> g_den; // denominators
static map<Poly, int> g_denIdx;
static vector<char> g_nodeHas;
static vector<Frac> g_nodeFrac;
static map<string, int> g_inputIdx; // input name -> node
static vector<int> g_inputVars; // var ids in creation order
static vector<int> g_inputNodes;

static int newVar(const string & name, VKind k)
{
  VarInfo v;
  v.name = name;
  v.kind = k;
  g_vars.push_back(v);
  return g_vars.size() - 1;
}
static Frac fr(const Poly & p)
{
  Frac f;
  f.n = p;
  return f;
}
static Frac frc(const Q & q)
{
  return fr(Poly::constant(q));
}

static int denAtom(const Poly & p0, Q & factor) // p0 = factor * atom
{
  factor = p0.t[0].second;
  Poly p = scale(p0, 1 / factor);
  auto it = g_denIdx.find(p);
  if(it != g_denIdx.end()) return it->second;
  g_den.push_back(p);
  g_denIdx[p] = g_den.size() - 1;
  return g_den.size() - 1;
}
static void cancel(Frac & f);
static Poly mulP(const Poly & a, const Poly & b, bool & fracOut, Frac & fo);
static Frac reduceP(const Poly & p);
static Frac fadd(const Frac & a, const Frac & b, int sgn);
static Frac fmulF(const Frac & a, const Frac & b);

// find the greatest variable having a rule and an exponent >= 2
static int needReduce(const Poly & p)
{
  int best = -1;
  for(auto & x : p.t)
    for(auto & m : g_monos[x.first])
      if(m.second >= 2 && m.first > best && g_vars[m.first].hasRule) best = m.first;
  return best;
}
static Poly polyPowRaw(const Poly & p, int e)
{
  Poly r = Poly::constant(1);
  for(int i = 0; i < e; ++i) r = mulRaw(r, p);
  return r;
}
static Frac reduceP(const Poly & p0)
{
  Poly p = p0;
  vector<pair<int, int>> den; // accumulated common denominator
  for(;;)
  {
    int v = needReduce(p);
    if(v < 0) break;
    const Frac rule = g_vars[v].rule;
    // split by floor(e/2)
    map<int, Poly> parts;
    for(auto & x : p.t)
    {
      int h = 0;
      MonoV m = g_monos[x.first];
      for(size_t i = 0; i < m.size(); ++i)
        if(m[i].first == v)
        {
          h = m[i].second / 2;
          m[i].second %= 2;
          if(m[i].second == 0) m.erase(m.begin() + i);
          break;
        }
      parts[h].t.push_back({internMono(m), x.second});
    }
    int H = parts.rbegin()->first;
    Poly acc;
    Poly dp = Poly::constant(1);
    if(!rule.d.empty())
      for(auto & de : rule.d) dp = mulRaw(dp, polyPowRaw(g_den[de.first], de.second));
    for(auto & kv : parts)
    {
      Poly q = kv.second;
      std::sort(q.t.begin(), q.t.end(),
                [](const pair<int, Q> & a, const pair<int, Q> & b) { return a.first < b.first; });
      // merge equal (x^1 and x^... cannot collide inside one part, but keep safe)
      Poly qq;
      for(auto & x : q.t)
      {
        if(!qq.t.empty() && qq.t.back().first == x.first)
          qq.t.back().second += x.second;
        else
          qq.t.push_back(x);
      }
      Poly term = qq;
      for(int i = 0; i < kv.first; ++i) term = mulRaw(term, rule.n);
      if(!rule.d.empty())
        for(int i = kv.first; i < H; ++i) term = mulRaw(term, dp);
      acc = acc + term;
    }
    p = acc;
    for(auto & de : rule.d)
    {
      bool f = false;
      for(auto & x : den)
        if(x.first == de.first)
        {
          x.second += de.second * H;
          f = true;
        }
      if(!f) den.push_back({de.first, de.second * H});
    }
    if(p.isZero()) break;
  }
  Frac r;
  r.n = p;
  if(!p.isZero())
  {
    std::sort(den.begin(), den.end());
    r.d = den;
    if(!den.empty()) cancel(r);
  }
  return r;
}
static void cancel(Frac & f)
{
  if(f.n.isZero())
  {
    f.d.clear();
    return;
  }
  // (square root of a variable)^2 in the denominator is that variable
  for(size_t i = 0; i < f.d.size(); ++i)
  {
    const Poly d = g_den[f.d[i].first];
    if(f.d[i].second < 2 || d.t.size() != 1 || d.t[0].second != 1) continue;
    const MonoV & m = g_monos[d.t[0].first];
    if(m.size() != 1 || m[0].second != 1) continue;
    const VarInfo & I = g_vars[m[0].first];
    if(!I.hasRule || !I.rule.d.empty() || I.rule.n.t.size() != 1 || I.rule.n.t[0].second != 1) continue;
    const MonoV & rm = g_monos[I.rule.n.t[0].first];
    if(rm.size() != 1 || rm[0].second != 1) continue;
    Q c;
    int v = rm[0].first, k = f.d[i].second / 2;
    int at = denAtom(Poly::var(v), c);
    map<int, int> l(f.d.begin(), f.d.end());
    l[f.d[i].first] -= 2 * k;
    if(l[f.d[i].first] == 0) l.erase(f.d[i].first);
    l[at] += k;
    f.d.assign(l.begin(), l.end());
    i = (size_t)-1;
  }
  for(size_t i = 0; i < f.d.size();)
  {
    const Poly & d = g_den[f.d[i].first];
    while(f.d[i].second > 0)
    {
      Poly q;
      if(f.n.t.size() < d.t.size()) break;
      if(d.t.size() > 1)
      {
        // cheap test: variables of d must occur in n
        set<int> vs;
        for(auto & x : f.n.t)
          for(auto & m : g_monos[x.first]) vs.insert(m.first);
        bool ok = true;
        for(auto & x : d.t)
          for(auto & m : g_monos[x.first])
            if(!vs.count(m.first)) ok = false;
        if(!ok) break;
      }
      if(!polyDivExact(f.n, d, q, 120000)) break;
      f.n = q;
      f.d[i].second--;
    }
    if(f.d[i].second == 0)
      f.d.erase(f.d.begin() + i);
    else
      ++i;
  }
}
static Frac fmulF(const Frac & a, const Frac & b)
{
  Frac r = reduceP(mulRaw(a.n, b.n));
  if(r.n.isZero()) return Frac();
  map<int, int> d;
  for(auto & x : r.d) d[x.first] += x.second;
  for(auto & x : a.d) d[x.first] += x.second;
  for(auto & x : b.d) d[x.first] += x.second;
  r.d.assign(d.begin(), d.end());
  cancel(r);
  return r;
}
static Poly polyPow(int atom, int e)
{
  return polyPowRaw(g_den[atom], e);
}
static Frac fadd(const Frac & a, const Frac & b, int sgn)
{
  if(a.d == b.d)
  {
    Frac r;
    r.n = addScaled(a.n, b.n, Q(sgn));
    r.d = a.d;
    if(!r.d.empty()) cancel(r);
    if(r.n.isZero()) r.d.clear();
    return r;
  }
  if(a.n.isZero())
  {
    Frac r = b;
    r.n = scale(r.n, Q(sgn));
    return r;
  }
  if(b.n.isZero()) return a;
  map<int, int> da(a.d.begin(), a.d.end()), db(b.d.begin(), b.d.end()), l = da;
  for(auto & x : db) l[x.first] = std::max(l[x.first], x.second);
  Poly na = a.n, nb = b.n;
  for(auto & x : l)
  {
    int ea = x.second - (da.count(x.first) ? da[x.first] : 0);
    int eb = x.second - (db.count(x.first) ? db[x.first] : 0);
    if(ea) na = mulRaw(na, polyPow(x.first, ea));
    if(eb) nb = mulRaw(nb, polyPow(x.first, eb));
  }
  Frac r = reduceP(addScaled(na, nb, Q(sgn)));
  if(r.n.isZero()) return Frac();
  map<int, int> d(r.d.begin(), r.d.end());
  for(auto & x : l)
    if(x.second) d[x.first] += x.second;
  r.d.assign(d.begin(), d.end());
  cancel(r);
  return r;
}
static Frac fneg(const Frac & a)
{
  Frac r = a;
  r.n = scale(r.n, Q(-1));
  return r;
}
static Frac finv(const Frac & a)
{
  if(a.n.isZero()) throw Unsupported{"division by an expression that is identically zero"};
  Frac r;
  Poly num = Poly::constant(1);
  for(auto & x : a.d) num = mulRaw(num, polyPow(x.first, x.second));
  Poly p = a.n;
  map<int, int> d;
  Q c(1);
  if(p.isConst())
    c = p.constVal();
  else
  {
    // common monomial content
    MonoV common = g_monos[p.t[0].first];
    for(auto & x : p.t)
    {
      MonoV n;
      const MonoV & m = g_monos[x.first];
      for(auto & cm : common)
        for(auto & mm : m)
          if(mm.first == cm.first) n.push_back({cm.first, std::min(cm.second, mm.second)});
      common = n;
      if(common.empty()) break;
    }
    if(!common.empty())
    {
      int cm = internMono(common);
      for(auto & x : p.t)
      {
        int q;
        monoDiv(x.first, cm, q);
        x.first = q;
      }
      std::sort(p.t.begin(), p.t.end(),
                [](const pair<int, Q> & a, const pair<int, Q> & b) { return a.first < b.first; });
      for(auto & m : common)
      {
        Q f;
        int at = denAtom(Poly::var(m.first), f);
        d[at] += m.second;
      }
    }
    if(p.isConst())
      c = p.constVal();
    else
    {
      // known factors
      for(size_t i = 0; i < g_den.size(); ++i)
      {
        if(g_den[i].t.size() < 2 || g_den[i].t.size() >= p.t.size()) continue;
        Poly q;
        while(polyDivExact(p, g_den[i], q, 60000))
        {
          p = q;
          d[i]++;
          if(p.isConst()) break;
        }
        if(p.isConst()) break;
      }
      if(p.isConst())
        c = p.constVal();
      else
      {
        Q f;
        int at = denAtom(p, f);
        d[at]++;
        c = f;
      }
    }
  }
  r = reduceP(scale(num, 1 / c));
  map<int, int> dd(r.d.begin(), r.d.end());
  for(auto & x : d) dd[x.first] += x.second;
  r.d.assign(dd.begin(), dd.end());
  cancel(r);
  return r;
}
static Frac fdivF(const Frac & a, const Frac & b)
{
  return fmulF(a, finv(b));
}
static string polyStr(const Poly & p, size_t maxTerms = 12)
{
  std::ostringstream o;
  size_t k = 0;
  for(auto & x : p.t)
  {
    if(k++ > maxTerms)
    {
      o << " + ...";
      break;
    }
    if(k > 1) o << " + ";
    o << x.second;
    for(auto & m : g_monos[x.first])
    {
      o << "*" << g_vars[m.first].name;
      if(m.second > 1) o << "^" << m.second;
    }
  }
  if(p.t.empty()) o << "0";
  return o.str();
}

// ------------------------------------------------------------------------------------------------ path condition
struct Lit // L op 0 ; op: 0 =, 1 <=, 2 <, 3 !=, 4 >, 5 >=
{
  Poly L;
  int op;
  int na, nb; // original nodes (numeric check), cop: na cop nb
  int cop; // 0 == 1 <= 2 < 3 !=
};
static vector<Lit> g_pc;
static map<Poly, int> g_sign; // primitive poly -> mask of possible signs (1 neg,2 zero,4 pos)
static int structSign(const Poly & p);
// bounds known on polynomials without constant term (primitive): from the path condition
struct Bnd
{
  bool hasLo = false, hasHi = false, sLo = false, sHi = false; // s: strict
  Q lo, hi;
};
static map<Poly, Bnd> g_bnd;
static bool splitConst(const Poly & p, Poly & rest, Q & c, Q & f) // p = f*rest + c
{
  c = 0;
  rest = Poly();
  for(auto & x : p.t)
    if(x.first == monoOne())
      c = x.second;
    else
      rest.t.push_back(x);
  if(rest.t.empty()) return false;
  f = rest.t[0].second;
  rest = scale(rest, 1 / f);
  return true;
}
static int bndSign(const Poly & p)
{
  if(g_bnd.empty()) return 7;
  Poly rest;
  Q c, f;
  if(!splitConst(p, rest, c, f)) return 7;
  auto it = g_bnd.find(rest);
  if(it == g_bnd.end()) return 7;
  const Bnd & b = it->second;
  // p = f*rest + c > 0  <=> rest > -c/f (f>0)
  Q t = -c / f;
  int m = 7;
  if(b.hasLo && (b.lo > t || (b.lo == t && b.sLo))) m &= 4;
  else if(b.hasLo && b.lo == t) m &= 6;
  if(b.hasHi && (b.hi < t || (b.hi == t && b.sHi))) m &= 1;
  else if(b.hasHi && b.hi == t) m &= 3;
  if(f < 0) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2);
  return m;
}
static void noteBnd(const Poly & p, int op)
{
  Poly rest;
  Q c, f;
  if(op == 3 || !splitConst(p, rest, c, f)) return;
  Q t = -c / f;
  Bnd & b = g_bnd[rest];
  bool lo = op == 4 || op == 5, hi = op == 1 || op == 2, strict = op == 2 || op == 4;
  if(f < 0) std::swap(lo, hi);
  if(op == 0) lo = hi = true;
  if(lo && (!b.hasLo || b.lo < t || (b.lo == t && strict)))
  {
    b.hasLo = true;
    b.lo = t;
    b.sLo = strict;
  }
  if(hi && (!b.hasHi || b.hi > t || (b.hi == t && strict)))
  {
    b.hasHi = true;
    b.hi = t;
    b.sHi = strict;
  }
}
static int signMask(const Poly & p0)
{
  if(p0.isZero()) return 2;
  if(p0.isConst()) return p0.constVal() > 0 ? 4 : 1;
  Q f = abs(p0.t[0].second);
  bool neg = p0.t[0].second < 0;
  Poly p = scale(p0, 1 / p0.t[0].second);
  int m = structSign(p);
  auto it = g_sign.find(p);
  if(it != g_sign.end()) m &= it->second;
  m &= bndSign(p);
  if(neg) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2);
  return m;
}
static int structSign(const Poly & p)
{
  // all monomials products of even powers / nonneg variables
  bool allPos = true, allNeg = true, strict = false;
  for(auto & x : p.t)
  {
    bool nonneg = true, pos = true;
    for(auto & m : g_monos[x.first])
    {
      bool vn = g_vars[m.first].nonneg, vp = g_vars[m.first].pos;
      if(m.second % 2 == 1 && !vn) nonneg = false;
      if(!vp) pos = false;
    }
    if(!nonneg)
    {
      allPos = allNeg = false;
      break;
    }
    if(x.second < 0)
      allPos = false;
    else
      allNeg = false;
    if(pos) strict = true;
  }
  if(allPos) return strict ? 4 : 6;
  if(allNeg) return strict ? 1 : 3;
  return 7;
}
static void noteSign(const Poly & p0, int op)
{
  if(p0.isConst()) return;
  noteBnd(p0, op);
  static const int masks[] = {2, 3, 1, 5, 4, 6};
  int m = masks[op];
  bool neg = p0.t[0].second < 0;
  Poly p = scale(p0, 1 / p0.t[0].second);
  if(neg) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2);
  auto it = g_sign.find(p);
  if(it == g_sign.end())
    g_sign[p] = m;
  else
    it->second &= m;
  // single variable facts
  if(p.t.size() == 1)
  {
    const MonoV & mv = g_monos[p.t[0].first];
    if(mv.size() == 1 && mv[0].second == 1)
    {
      int mm = g_sign[p];
      if(!(mm & 1)) g_vars[mv[0].first].nonneg = true;
      if(mm == 4) g_vars[mv[0].first].pos = true;
    }
  }
}
static Poly literalPoly(const Frac & f)
{
  Poly p = f.n;
  for(auto & x : f.d)
    if(x.second % 2)
    {
      int s = signMask(g_den[x.first]);
      if(s == 4 || s == 6) continue;
      if(s == 1 || s == 3)
      {
        p = scale(p, Q(-1));
        continue;
      }
      p = mulRaw(p, g_den[x.first]);
    }
  Frac r = reduceP(p);
  if(!r.d.empty())
  {
    // denominators introduced by the reduction
    Poly q = r.n;
    for(auto & x : r.d)
      if(x.second % 2)
      {
        int s = signMask(g_den[x.first]);
        if(s == 4 || s == 6) continue;
        if(s == 1 || s == 3)
        {
          q = scale(q, Q(-1));
          continue;
        }
        q = mulRaw(q, g_den[x.first]);
      }
    return q;
  }
  return r.n;
}

// ------------------------------------------------------------------------------------------------ statistics / report
struct Stats
{
  long feasQ = 0, assertQ = 0, unsat = 0, sat = 0, unknown = 0, rawQ = 0, rawUnsat = 0, rawTimeout = 0;
  double solverTime = 0;
};
static Stats g_stats;
static string g_scenario;
static int g_pipe = -1;
static string g_report;
static string g_tmpdir = "/tmp";
static set<string> g_funcs;
static vector<string> g_notes;
static string jstr(const string & s)
{
  string o = "\"";
  for(char c : s)
  {
    if(c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if(c == '\n')
      o += "\\n";
    else if((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o + "\"";
}

// ------------------------------------------------------------------------------------------------ SMT
static string qStr(const Q & q)
{
  std::ostringstream o;
  Q a = abs(q);
  if(a.get_den() == 1)
    o << a.get_num() << ".0";
  else
    o << "(/ " << a.get_num() << ".0 " << a.get_den() << ".0)";
  if(q < 0) return "(- " + o.str() + ")";
  return o.str();
}
static string vName(int v)
{
  return "v" + std::to_string(v);
}
static string smtPoly(const Poly & p)
{
  if(p.isZero()) return "0.0";
  vector<string> ts;
  for(auto & x : p.t)
  {
    string s;
    const MonoV & m = g_monos[x.first];
    if(m.empty())
      s = qStr(x.second);
    else
    {
      int nf = 0;
      string b;
      if(x.second != 1)
      {
        b += " " + qStr(x.second);
        ++nf;
      }
      for(auto & e : m)
        for(int i = 0; i < e.second; ++i)
        {
          b += " " + vName(e.first);
          ++nf;
        }
      s = nf == 1 ? b.substr(1) : "(*" + b + ")";
    }
    ts.push_back(s);
  }
  if(ts.size() == 1) return ts[0];
  string r = "(+";
  for(auto & s : ts) r += " " + s;
  return r + ")";
}
static void polyVars(const Poly & p, set<int> & vs)
{
  for(auto & x : p.t)
    for(auto & m : g_monos[x.first]) vs.insert(m.first);
}
static void fracVars(const Frac & f, set<int> & vs)
{
  polyVars(f.n, vs);
  for(auto & d : f.d) polyVars(g_den[d.first], vs);
}
static string smtDen(const Frac & f)
{
  if(f.d.empty()) return "1.0";
  string r = "(*";
  for(auto & d : f.d)
    for(int i = 0; i < d.second; ++i) r += " " + smtPoly(g_den[d.first]);
  return r + " 1.0)";
}
static const char * opSmt[] = {"=", "<=", "<", "distinct", ">", ">="};
static string smtLit(const Poly & L, int op)
{
  return string("(") + opSmt[op] + " " + smtPoly(L) + " 0.0)";
}
struct SolveResult
{
  int res; // 0 unsat, 1 sat, 2 unknown
  map<int, double> model; // var -> value
};
static const char * Z3 = "z3-new";
static string runCmd(const vector<string> & args, double timeout)
{
  int p[2];
  if(pipe(p)) return "";
  pid_t pid = fork();
  if(pid == 0)
  {
    dup2(p[1], 1);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    close(p[0]);
    close(p[1]);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = (rlim_t)3500 << 20;
    setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    vector<char *> av;
    for(auto & a : args) av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    execvp(av[0], av.data());
    _exit(127);
  }
  close(p[1]);
  string out;
  double end = now() + timeout;
  char buf[4096];
  for(;;)
  {
    double left = end - now();
    if(left <= 0)
    {
      kill(pid, SIGKILL);
      break;
    }
    struct pollfd pf = {p[0], POLLIN, 0};
    int r = poll(&pf, 1, (int)(left * 1000) + 1);
    if(r <= 0)
    {
      if(r < 0 && errno == EINTR) continue;
      kill(pid, SIGKILL);
      break;
    }
    ssize_t k = read(p[0], buf, sizeof buf);
    if(k <= 0) break;
    out.append(buf, k);
  }
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  return out;
}
static double parseNum(const string & s, size_t & i)
{
  while(i < s.size() && isspace(s[i])) ++i;
  if(i < s.size() && s[i] == '(')
  {
    ++i;
    while(isspace(s[i])) ++i;
    char op = s[i];
    if(op == '-' || op == '/')
    {
      ++i;
      double a = parseNum(s, i);
      while(i < s.size() && isspace(s[i])) ++i;
      double r;
      if(s[i] == ')')
        r = -a;
      else
      {
        double b = parseNum(s, i);
        r = op == '/' ? a / b : a - b;
      }
      while(i < s.size() && s[i] != ')') ++i;
      ++i;
      return r;
    }
    // unknown structure: skip
    int depth = 1;
    while(i < s.size() && depth)
    {
      if(s[i] == '(') ++depth;
      if(s[i] == ')') --depth;
      ++i;
    }
    return NAN;
  }
  size_t j = i;
  while(j < s.size() && !isspace(s[j]) && s[j] != ')' && s[j] != '?') ++j;
  double r = atof(s.substr(i, j - i).c_str());
  if(j < s.size() && s[j] == '?') ++j;
  i = j;
  return r;
}
static void closure(set<int> & vs)
{
  for(;;)
  {
    set<int> add;
    for(int v : vs)
    {
      const VarInfo & I = g_vars[v];
      if(I.kind == VSQRT || I.kind == VABS) fracVars(I.f1, add);
      if(I.kind == VTRIG && I.partner >= 0) add.insert(I.partner);
      if(I.kind == VTRIG && I.hasRule) fracVars(I.rule, add);
      if(I.kind == VTRIG && I.hasTrigArg) fracVars(I.trigArg, add);
      if(I.kind == VANG)
      {
        fracVars(I.f1, add);
        fracVars(I.f2, add);
      }
      if(I.kind == VUNIT) fracVars(I.rule, add);
    }
    size_t n = vs.size();
    vs.insert(add.begin(), add.end());
    if(vs.size() == n) break;
  }
}
static string axiomsFor(const set<int> & vs)
{
  std::ostringstream o;
  for(int v : vs) o << "(declare-const " << vName(v) << " Real)\n";
  set<int> dens;
  auto useDen = [&](const Frac & f) {
    for(auto & d : f.d) dens.insert(d.first);
  };
  for(int v : vs)
  {
    const VarInfo & I = g_vars[v];
    string n = vName(v);
    if(I.bounded)
    {
      o << "(assert (>= " << n << " " << qStr(Q(I.lo)) << "))\n";
      o << "(assert (<= " << n << " " << qStr(Q(I.hi)) << "))\n";
    }
    switch(I.kind)
    {
      case VUNIT:
        o << "(assert (= (* " << n << " " << n << ") " << smtPoly(I.rule.n) << "))\n";
        break;
      case VSQRT:
        o << "(assert (>= " << n << " 0.0))\n";
        o << "(assert (= (* " << n << " " << n << " " << smtDen(I.f1) << ") " << smtPoly(I.f1.n) << "))\n";
        useDen(I.f1);
        break;
      case VABS:
        o << "(assert (>= " << n << " 0.0))\n";
        o << "(assert (or (= (* " << n << " " << smtDen(I.f1) << ") " << smtPoly(I.f1.n) << ") (= (* (- " << n << ") "
          << smtDen(I.f1) << ") " << smtPoly(I.f1.n) << ")))\n";
        useDen(I.f1);
        break;
      case VTRIG:
        if(I.hasRule && I.partner >= 0)
          o << "(assert (= (+ (* " << n << " " << n << ") (* " << vName(I.partner) << " " << vName(I.partner)
            << ")) 1.0))\n";
        if(I.hasRule && I.partner >= 0 && I.hasTrigArg && !I.hasC && !I.trigArg.n.isZero())
        {
          // bounds linking sine and cosine to the angle itself
          string a = "a" + std::to_string(v), c = vName(I.partner);
          useDen(I.trigArg);
          o << "(declare-const " << a << " Real)\n";
          if(I.trigArg.d.empty())
            o << "(assert (= " << a << " " << smtPoly(I.trigArg.n) << "))\n";
          else
            o << "(assert (= (* " << a << " " << smtDen(I.trigArg) << ") " << smtPoly(I.trigArg.n) << "))\n";
          o << "(assert (=> (and (> " << a << " 0.0) (< " << a << " 3.14159265358979323)) (> " << n << " 0.0)))\n";
          o << "(assert (=> (and (< " << a << " 0.0) (> " << a << " (- 3.14159265358979323))) (< " << n << " 0.0)))\n";
          o << "(assert (=> (= " << a << " 0.0) (and (= " << n << " 0.0) (= " << c << " 1.0))))\n";
          o << "(assert (=> (and (> " << a << " (- 1.57079632679489661)) (< " << a << " 1.57079632679489661)) (> " << c
            << " 0.0)))\n";
          o << "(assert (=> (and (> " << a << " 1.57079632679489662) (< " << a << " 4.7)) (< " << c << " 0.0)))\n";
          o << "(assert (=> (and (< " << a << " (- 1.57079632679489662)) (> " << a << " (- 4.7))) (< " << c
            << " 0.0)))\n";
          o << "(assert (=> (and (>= " << a << " 0.0) (<= " << a << " 1.57079)) (and (<= " << n << " " << a << ") (>= " << n << " (* 0.6366 " << a << ")))))\n";
          o << "(assert (=> (and (>= " << a << " 1.57079) (<= " << a << " 3.1415926)) (>= " << n << " (- 2.0 (* 0.63662 " << a << ")))))\n";
          o << "(assert (=> (and (<= " << a << " 0.0) (>= " << a << " (- 1.57079))) (and (>= " << n << " " << a << ") (<= " << n << " (* 0.6366 " << a << ")))))\n";
          {
            string S2 = "(* 2.0 " + n + " " + c + ")", C2 = "(- (* 2.0 " + c + " " + c + ") 1.0)";
            o << "(assert (=> (and (> " << a << " (- 0.785398163397448)) (< " << a << " 0.785398163397448)) (> " << C2 << " 0.0)))\n";
            o << "(assert (=> (and (> " << a << " 0.0) (< " << a << " 1.57079632679489661)) (> " << S2 << " 0.0)))\n";
            o << "(assert (=> (and (< " << a << " 0.0) (> " << a << " (- 1.57079632679489661))) (< " << S2 << " 0.0)))\n";
          }
          o << "(assert (and (<= " << c << " 1.0) (>= " << c << " (- 1.0)) (<= " << n << " 1.0) (>= " << n << " (- 1.0))))\n";
        }
        if(I.hasC)
        {
          o << "(assert (<= " << n << " " << qStr(Q(I.cval + 1e-14)) << "))\n";
          o << "(assert (>= " << n << " " << qStr(Q(I.cval - 1e-14)) << "))\n";
        }
        break;
      case VEXP: o << "(assert (> " << n << " 0.0))\n"; break;
      case VANG:
      {
        // pi enclosed by rationals
        const char * PHI = "3.14159265358979324";
        const char * PLO = "3.14159265358979323";
        const char * HHI = "1.57079632679489662";
        const char * HLO = "1.57079632679489661";
        // sign of sin: f1 numerator * denominators
        string sn = smtPoly(I.f1.n), sd = smtDen(I.f1), cn = smtPoly(I.f2.n), cd = smtDen(I.f2);
        string s = "(* " + sn + " " + sd + ")", c = "(* " + cn + " " + cd + ")";
        useDen(I.f1);
        useDen(I.f2);
        string A = "sa" + std::to_string(v), B = "ca" + std::to_string(v);
        o << "(declare-const " << A << " Real)\n(declare-const " << B << " Real)\n";
        o << "(assert (= (* " << A << " " << sd << ") " << sn << "))\n(assert (= (* " << B << " " << cd << ") " << cn << "))\n";
        s = A;
        c = B;
        o << "(assert (= (+ (* " << A << " " << A << ") (* " << B << " " << B << ")) 1.0))\n";
        o << "(assert (and (<= " << A << " 1.0) (>= " << A << " (- 1.0)) (<= " << B << " 1.0) (>= " << B << " (- 1.0))))\n";
        o << "(assert (=> (>= " << n << " 0.0) (>= " << n << " " << s << ")))\n";
        o << "(assert (=> (<= " << n << " 0.0) (<= " << n << " " << s << ")))\n";
        o << "(assert (=> (and (>= " << c << " 0.0) (>= " << s << " 0.0)) (<= " << n << " (* 1.5707963267949 " << s << "))))\n";
        o << "(assert (=> (and (>= " << c << " 0.0) (<= " << s << " 0.0)) (>= " << n << " (* 1.5707963267949 " << s << "))))\n";
        o << "(assert (and (<= " << n << " " << PHI << ") (>= " << n << " (- " << PHI << "))))\n";
        o << "(assert (=> (> " << s << " 0.0) (and (> " << n << " 0.0) (< " << n << " " << PHI << "))))\n";
        o << "(assert (=> (< " << s << " 0.0) (< " << n << " 0.0)))\n";
        o << "(assert (=> (and (= " << s << " 0.0) (> " << c << " 0.0)) (= " << n << " 0.0)))\n";
        o << "(assert (=> (and (= " << s << " 0.0) (< " << c << " 0.0)) (or (> " << n << " " << PLO << ") (< " << n << " (- " << PLO << ")))))\n";
        o << "(assert (=> (>= " << c << " 0.0) (and (<= " << n << " " << HHI << ") (>= " << n << " (- " << HHI << ")))))\n";
        o << "(assert (=> (< " << c << " 0.0) (or (> " << n << " " << HLO << ") (< " << n << " (- " << HLO << ")))))\n";
        if(I.angKind == 1) o << "(assert (>= " << n << " 0.0))\n";
        if(I.angKind == 2) o << "(assert (>= " << c << " 0.0))\n";
        break;
      }
      default: break;
    }
    if(I.pos)
      o << "(assert (> " << n << " 0.0))\n";
    else if(I.nonneg && I.kind != VSQRT && I.kind != VABS)
      o << "(assert (>= " << n << " 0.0))\n";
  }
  // facts about the base angle variables of sin/cos pairs when the angle itself is in scope
  for(int d : dens)
  {
    set<int> dv;
    polyVars(g_den[d], dv);
    bool in = true;
    for(int v : dv)
      if(!vs.count(v)) in = false;
    if(in) o << "(assert (distinct " << smtPoly(g_den[d]) << " 0.0))\n";
  }
  return o.str();
}
static int g_qcount = 0;
static bool g_keepQueries = false;
static SolveResult solve(const vector<string> & extra,
                         const set<int> & extraVars,
                         const vector<pair<Poly, int>> & lits,
                         double timeout,
                         bool wantModel,
                         bool relevantOnly,
                         bool pinned = false)
{
  // relevant path condition: connected component of the variables
  set<int> vs = extraVars;
  for(auto & l : lits) polyVars(l.first, vs);
  closure(vs);
  vector<const Lit *> use;
  vector<char> used(g_pc.size(), 0);
  if(relevantOnly)
  {
    for(bool ch = true; ch;)
    {
      ch = false;
      for(size_t i = 0; i < g_pc.size(); ++i)
      {
        if(used[i]) continue;
        set<int> lv;
        polyVars(g_pc[i].L, lv);
        bool hit = false;
        for(int v : lv)
          if(vs.count(v)) hit = true;
        if(hit)
        {
          used[i] = 1;
          use.push_back(&g_pc[i]);
          size_t n = vs.size();
          vs.insert(lv.begin(), lv.end());
          closure(vs);
          if(vs.size() != n) ch = true;
        }
      }
    }
  }
  else
  {
    for(auto & l : g_pc)
    {
      use.push_back(&l);
      polyVars(l.L, vs);
    }
    if(wantModel)
      for(int v : g_inputVars) vs.insert(v);
    closure(vs);
  }
  std::ostringstream o;
  if(wantModel) o << "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n";
  o << "(set-logic QF_NRA)\n" << axiomsFor(vs);
  for(auto l : use) o << "(assert " << smtLit(l->L, l->op) << ")\n";
  for(auto & l : lits) o << "(assert " << smtLit(l.first, l.second) << ")\n";
  for(auto & e : extra) o << "(assert " << e << ")\n";
  o << "(check-sat)\n";
  vector<int> order(vs.begin(), vs.end());
  if(wantModel && !order.empty())
  {
    o << "(get-value (";
    for(int v : order) o << vName(v) << " ";
    o << "))\n";
  }
  string file = g_tmpdir + "/q_" + std::to_string(getpid()) + "_" + std::to_string(g_qcount++) + ".smt2";
  {
    std::ofstream f(file);
    f << o.str();
  }
  double t0 = now();
  char tl[32];
  snprintf(tl, sizeof tl, "-T:%d", (int)std::ceil(timeout));
  string out = runCmd({Z3, tl, "-memory:3000", file}, timeout + 1);
  double dt = now() - t0;
  g_stats.solverTime += dt;
  if(g_keepQueries)
  {
    std::ofstream f(file, std::ios::app);
    f << "; " << out.substr(0, 20) << " " << dt << "\n";
  }
  if(!g_keepQueries) unlink(file.c_str());
  SolveResult r;
  r.res = 2;
  if(out.compare(0, 5, "unsat") == 0)
    r.res = 0;
  else if(out.compare(0, 3, "sat") == 0)
  {
    r.res = 1;
    if(wantModel)
    {
      size_t i = out.find('(');
      if(i != string::npos)
      {
        ++i;
        while(i < out.size())
        {
          while(i < out.size() && isspace(out[i])) ++i;
          if(out[i] != '(') break;
          ++i;
          while(isspace(out[i])) ++i;
          size_t j = i;
          while(!isspace(out[j])) ++j;
          string nm = out.substr(i, j - i);
          i = j;
          double val = parseNum(out, i);
          while(i < out.size() && out[i] != ')') ++i;
          ++i;
          if(nm[0] == 'v') r.model[atoi(nm.c_str() + 1)] = val;
        }
      }
    }
  }
  return r;
}

// ------------------------------------------------------------------------------------------------ node -> Frac
static Frac fracOf(int n);
struct AngleBase
{
  Frac s, c; // sin, cos of the base angle
};
static map<pair<string, int>, AngleBase> g_angBase; // (key, divisor)
struct TrigReq
{
  Frac arg, s, c;
};
static vector<TrigReq> g_trigReq;
static string fracKey(const Frac & f)
{
  std::ostringstream o;
  for(auto & x : f.n.t) o << x.first << ":" << x.second << ",";
  o << "/";
  for(auto & x : f.d) o << x.first << "^" << x.second << ",";
  return o.str();
}
static map<string, int> g_sqrtMemo, g_absMemo, g_expMemo, g_ufMemo;
static int querySign(const Poly & p, double timeout) // mask by solver
{
  int m = signMask(p);
  if(m == 1 || m == 2 || m == 4) return m;
  if(m & 1)
  {
    g_stats.feasQ++;
    if(solve({}, {}, {{p, 2}}, timeout, false, true).res == 0) m &= ~1;
  }
  if(m & 4)
  {
    g_stats.feasQ++;
    if(solve({}, {}, {{p, 4}}, timeout, false, true).res == 0) m &= ~4;
  }
  if(m != 7 && (m & 2) && m != 2)
  {
    g_stats.feasQ++;
    if(solve({}, {}, {{p, 0}}, timeout, false, true).res == 0) m &= ~2;
  }
  if(!p.isConst())
  {
    bool neg = p.t[0].second < 0;
    int mm = m;
    if(neg) mm = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2);
    Poly q = scale(p, 1 / p.t[0].second);
    auto it = g_sign.find(q);
    if(it == g_sign.end())
      g_sign[q] = mm;
    else
      it->second &= mm;
  }
  return m;
}
// polynomial square root: p = r^2 ?
static bool polySqrt(const Poly & p, Poly & r)
{
  if(p.isConst())
  {
    Q c = p.constVal();
    if(c < 0) return false;
    if(!mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
    mpz_class n, d;
    mpz_sqrt(n.get_mpz_t(), c.get_num_mpz_t());
    mpz_sqrt(d.get_mpz_t(), c.get_den_mpz_t());
    r = Poly::constant(Q(n, d));
    return true;
  }
  if(p.t.size() > 400) return false;
  auto leadTerm = [](const Poly & x) {
    size_t b = 0;
    for(size_t i = 1; i < x.t.size(); ++i)
      if(monoCmp(x.t[i].first, x.t[b].first) > 0) b = i;
    return x.t[b];
  };
  auto lt = leadTerm(p);
  MonoV m = g_monos[lt.first];
  for(auto & e : m)
  {
    if(e.second % 2) return false;
    e.second /= 2;
  }
  Q c = lt.second;
  if(c < 0) return false;
  if(!mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
  mpz_class n, d;
  mpz_sqrt(n.get_mpz_t(), c.get_num_mpz_t());
  mpz_sqrt(d.get_mpz_t(), c.get_den_mpz_t());
  Q sc(n, d);
  int sm = internMono(m);
  r = Poly();
  r.t.push_back({sm, sc});
  Poly rem = p - mulRaw(r, r);
  int guard = 0;
  while(!rem.isZero())
  {
    if(++guard > 60) return false;
    auto t = leadTerm(rem);
    int q;
    if(!monoDiv(t.first, sm, q)) return false;
    Poly add;
    add.t.push_back({q, t.second / (2 * sc)});
    Poly nr = r + add;
    rem = p - mulRaw(nr, nr);
    r = nr;
  }
  return true;
}
static Frac absF(const Frac & f, int defNode);
static Frac sqrtF(const Frac & f0, int defNode)
{
  Frac f = f0;
  if(f.n.isZero()) return f;
  if(f.d.empty() && f.n.isConst())
  {
    Poly r;
    if(polySqrt(f.n, r)) return fr(r);
  }
  // pull even powers of denominators whose sign is known
  Frac outer = frc(1);
  Frac inner;
  inner.n = f.n;
  for(auto & x : f.d)
  {
    int s = x.second >= 1 ? querySign(g_den[x.first], 1.0) : 7;
    bool known = (s == 4 || s == 6 || s == 1 || s == 3);
    Frac d;
    d.n = Poly::constant(s == 1 || s == 3 ? -1 : 1);
    d.d = {{x.first, 1}};
    if(known && x.second >= 2)
    {
      for(int i = 0; i < x.second / 2; ++i) outer = fmulF(outer, d);
      if(x.second % 2) inner.d.push_back({x.first, 1});
    }
    else
      inner.d.push_back(x);
  }
  // odd leftover with known sign: sqrt(n/d) = sqrt(n d)/|d|
  Frac in2;
  in2.n = inner.n;
  for(auto & x : inner.d)
  {
    int s = signMask(g_den[x.first]);
    if(x.second == 1 && (s == 4 || s == 6))
    {
      in2.n = mulRaw(in2.n, g_den[x.first]);
      Frac d;
      d.n = Poly::constant(1);
      d.d = {{x.first, 1}};
      outer = fmulF(outer, d);
    }
    else
      in2.d.push_back(x);
  }
  Frac rn = reduceP(in2.n);
  if(rn.d.empty())
    in2.n = rn.n;
  // content: make the first coefficient a square-free positive rational when easily done
  if(in2.d.empty())
  {
    Poly r;
    if(polySqrt(in2.n, r)) return fmulF(outer, absF(fr(r), -1));
    // scalar content
    Q c = abs(in2.n.t[0].second);
    if(c != 1 && mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t()))
    {
      mpz_class n, d;
      mpz_sqrt(n.get_mpz_t(), c.get_num_mpz_t());
      mpz_sqrt(d.get_mpz_t(), c.get_den_mpz_t());
      in2.n = scale(in2.n, 1 / c);
      outer = fmulF(outer, frc(Q(n, d)));
    }
  }
  if(in2.d.empty() && !g_sqrtMemo.count(fracKey(in2)))
  {
    // split off factors that are squares of known variables: sqrt(A B) = root(A) sqrt(B)
    Poly rest = in2.n;
    Frac roots = frc(1);
    bool hit = false;
    for(size_t k = 0; k < g_vars.size() && rest.t.size() > 1; ++k)
    {
      const VarInfo I = g_vars[k];
      if(!I.hasRule || !I.rule.d.empty()) continue;
      if(I.kind != VSQRT && I.kind != VTRIG && I.kind != VUNIT) continue;
      if(I.rule.n.t.size() < 2 || I.rule.n.t.size() > rest.t.size()) continue;
      Poly q;
      if(!polyDivExact(rest, I.rule.n, q, 60000)) continue;
      // the cofactor has to be non-negative
      if(q.isConst() ? q.constVal() < 0 : (querySign(q, 0.5) & 1)) continue;
      rest = q;
      roots = fmulF(roots, I.nonneg ? fr(Poly::var(k)) : absF(fr(Poly::var(k)), -1));
      hit = true;
    }
    if(hit) return fmulF(outer, fmulF(roots, sqrtF(fr(rest), -1)));
  }
  string key = fracKey(in2);
  auto it = g_sqrtMemo.find(key);
  int v;
  if(it != g_sqrtMemo.end())
    v = it->second;
  else
  {
    v = newVar("sqrt" + std::to_string(g_vars.size()), VSQRT);
    g_vars[v].hasRule = true;
    g_vars[v].rule = in2;
    g_vars[v].f1 = in2;
    g_vars[v].nonneg = true;
    if(structSign(in2.n) == 4 && in2.d.empty()) g_vars[v].pos = true;
    if(in2.d.empty())
    {
      int s = signMask(in2.n);
      if(s == 4) g_vars[v].pos = true;
    }
    g_sqrtMemo[key] = v;
  }
  return fmulF(outer, fr(Poly::var(v)));
}
static bool g_forkInAbs = false;
static bool decidePoly(const Poly & L, int op, int na, int nb);
static Frac absF(const Frac & f, int defNode)
{
  (void)defNode;
  if(f.n.isZero()) return f;
  Poly L = literalPoly(f);
  int s = querySign(L, 0.5);
  if(g_forkInAbs && s != 4 && s != 6 && s != 2 && s != 1 && s != 3)
  {
    g_forkInAbs = false;
    bool neg = decidePoly(L, 2, -1, -1);
    g_forkInAbs = true;
    return neg ? fneg(f) : f;
  }
  if(s == 4 || s == 6 || s == 2) return f;
  if(s == 1 || s == 3) return fneg(f);
  Frac g = f;
  if(g.n.t[0].second < 0) g = fneg(g);
  string key = fracKey(g);
  auto it = g_absMemo.find(key);
  int v;
  if(it != g_absMemo.end())
    v = it->second;
  else
  {
    Frac sq = fmulF(g, g);
    v = newVar("abs" + std::to_string(g_vars.size()), VABS);
    g_vars[v].hasRule = true;
    g_vars[v].rule = sq;
    g_vars[v].f1 = g;
    g_vars[v].nonneg = true;
    g_absMemo[key] = v;
  }
  return fr(Poly::var(v));
}
// (cos,sin) of r * (angle whose key is 'key')
static AngleBase & angleBase(const string & key, int q, bool isConst, double cv, const Frac & baseArg)
{
  auto k = std::make_pair(key, q);
  auto it = g_angBase.find(k);
  if(it != g_angBase.end()) return it->second;
  AngleBase b;
  int c = newVar("cos" + std::to_string(g_vars.size()), VTRIG);
  int s = newVar("sin" + std::to_string(g_vars.size()), VTRIG);
  g_vars[s].partner = c;
  g_vars[c].partner = s;
  g_vars[s].hasRule = true; // s^2 -> 1 - c^2
  g_vars[s].rule = fr(Poly::constant(1) - Poly::var(c, 2));
  g_vars[s].trigArg = baseArg;
  g_vars[c].trigArg = baseArg;
  g_vars[s].hasTrigArg = g_vars[c].hasTrigArg = true;
  if(isConst)
  {
    g_vars[c].hasC = g_vars[s].hasC = true;
    g_vars[c].cval = cos(cv / q);
    g_vars[s].cval = sin(cv / q);
  }
  b.s = fr(Poly::var(s));
  b.c = fr(Poly::var(c));
  return g_angBase[k] = b;
}
static void cpow(const Frac & c, const Frac & s, int p, Frac & oc, Frac & os)
{
  oc = frc(1);
  os = Frac();
  bool neg = p < 0;
  p = std::abs(p);
  for(int i = 0; i < p; ++i)
  {
    Frac nc = fadd(fmulF(oc, c), fmulF(os, s), -1);
    Frac ns = fadd(fmulF(os, c), fmulF(oc, s), 1);
    oc = nc;
    os = ns;
  }
  if(neg) os = fneg(os);
}
static map<string, Q> g_angUnit;
static void sincosOf(const Frac & arg, Frac & S, Frac & C)
{
  // memo on identical arguments
  for(auto & r : g_trigReq)
    if(r.arg.n == arg.n && r.arg.d == arg.d)
    {
      S = r.s;
      C = r.c;
      return;
    }
  Frac c = frc(1), s;
  auto addAngle = [&](const Frac & ac, const Frac & as) {
    Frac nc = fadd(fmulF(c, ac), fmulF(s, as), -1);
    Frac ns = fadd(fmulF(s, ac), fmulF(c, as), 1);
    c = nc;
    s = ns;
  };
  auto doAtom = [&](const string & key, const Q & r, bool isConst, double cv, const Frac & unit) {
    int q = 2;
    if(r.get_den() != 1 && r.get_den() != 2)
    {
      if(r.get_den() < 64)
        q = r.get_den().get_si();
      else
        q = -1;
    }
    Frac oc, os;
    if(q > 0)
    {
      Q pr = r * q;
      if(pr.get_den() == 1 && abs(pr) <= 12)
      {
        Frac ba = fmulF(unit, frc(Q(1, q)));
        AngleBase & b = angleBase(key, q, isConst, cv, ba);
        AngleBase bb = b;
        cpow(bb.c, bb.s, pr.get_num().get_si(), oc, os);
        addAngle(oc, os);
        return;
      }
    }
    // odd coefficient: separate atom
    std::ostringstream k2;
    Q ar = abs(r);
    k2 << key << "*" << ar;
    Frac u2 = fmulF(unit, frc(ar));
    AngleBase b = angleBase(k2.str(), 1, isConst, cv * ar.get_d(), u2);
    cpow(b.c, b.s, r < 0 ? -1 : 1, oc, os);
    addAngle(oc, os);
  };
  if(!arg.d.empty())
  {
    Q r = arg.n.t[0].second;
    Frac p = arg;
    p.n = scale(p.n, 1 / r);
    string key = "F" + fracKey(p);
    if(!(r.get_den() <= 2 && abs(r) <= 6))
    {
      // measured in units of the first such angle
      auto it = g_angUnit.find(key);
      if(it == g_angUnit.end()) it = g_angUnit.insert({key, r}).first;
      std::ostringstream o;
      o << key << "u";
      key = o.str();
      p.n = scale(p.n, it->second);
      r = r / it->second;
    }
    doAtom(key, r, false, 0, p);
  }
  else
  {
    for(auto & t : arg.n.t)
    {
      if(t.first == monoOne())
      {
        double v = t.second.get_d();
        double k = std::round(v / (M_PI / 2));
        if(k != 0 && std::fabs(v - k * (M_PI / 2)) < 4e-16 * std::fabs(k) * 2)
        {
          int ki = ((int)k % 4 + 4) % 4;
          static const int cc[] = {1, 0, -1, 0}, ss[] = {0, 1, 0, -1};
          addAngle(frc(cc[ki]), frc(ss[ki]));
          continue;
        }
        std::ostringstream ks;
        Q av = abs(t.second);
        ks << "K" << av;
        doAtom(ks.str(), t.second < 0 ? Q(-1) : Q(1), true, av.get_d(), frc(av));
        continue;
      }
      const MonoV & m = g_monos[t.first];
      if(m.size() == 1 && m[0].second == 1 && g_vars[m[0].first].kind == VANG)
      {
        int v = m[0].first;
        Q r = t.second;
        Frac oc, os;
        if(r.get_den() == 1 && abs(r) <= 12)
        {
          cpow(g_vars[v].f2, g_vars[v].f1, r.get_num().get_si(), oc, os);
          addAngle(oc, os);
          continue;
        }
        if(r.get_den() == 2 && abs(r) <= 6)
        {
          Frac ch = sqrtF(fmulF(fadd(frc(1), g_vars[v].f2, 1), frc(Q(1, 2))), -1);
          Frac sh = fdivF(fmulF(g_vars[v].f1, frc(Q(1, 2))), ch);
          cpow(ch, sh, r.get_num().get_si(), oc, os);
          addAngle(oc, os);
          continue;
        }
      }
      Poly u;
      u.t.push_back({t.first, Q(1)});
      doAtom("M" + std::to_string(t.first), t.second, false, 0, fr(u));
    }
  }
  S = s;
  C = c;
  g_trigReq.push_back({arg, s, c});
}
static bool fzero(const Frac & f)
{
  return f.n.isZero();
}
static bool provablyIn(const Frac & x, double lo, double hi)
{
  Poly a = literalPoly(fadd(x, frc(Q(lo)), -1));
  int m = querySign(a, 2.0);
  if(m & 1) return false;
  Poly b = literalPoly(fadd(frc(Q(hi)), x, -1));
  m = querySign(b, 2.0);
  return !(m & 1);
}
static int newAngle(const Frac & s, const Frac & c, int kind)
{
  int v = newVar("ang" + std::to_string(g_vars.size()), VANG);
  g_vars[v].f1 = s;
  g_vars[v].f2 = c;
  g_vars[v].angKind = kind;
  if(kind == 1) g_vars[v].nonneg = true;
  return v;
}
static map<string, Frac> g_invMemo;
static Frac atan2F(const Frac & Y, const Frac & X)
{
  string key = "T" + fracKey(Y) + "|" + fracKey(X);
  auto it = g_invMemo.find(key);
  if(it != g_invMemo.end()) return it->second;
  Frac res;
  if(fzero(Y))
  {
    int sx = querySign(literalPoly(X), 1.0);
    if(!(sx & 1))
    {
      g_invMemo[key] = Frac();
      return Frac();
    }
    if(sx == 1)
    {
      res = frc(Q(M_PI));
      g_invMemo[key] = res;
      return res;
    }
  }
  if(fzero(X))
  {
    int sy = querySign(literalPoly(Y), 1.0);
    if(sy == 4) return g_invMemo[key] = frc(Q(M_PI / 2));
    if(sy == 1) return g_invMemo[key] = frc(Q(-M_PI / 2));
  }
  // is (Y,X) proportional to a known (sin a, cos a) ?
  vector<TrigReq> cands = g_trigReq;
  // add base angles (half of requested ones)
  for(auto & kv : g_angBase)
  {
    set<int> vs;
    fracVars(kv.second.s, vs);
    int v = *vs.begin();
    if(g_vars[v].hasTrigArg)
    {
      const Frac a = g_vars[v].trigArg;
      cands.push_back({a, kv.second.s, kv.second.c});
      Frac c2, s2;
      AngleBase b = kv.second;
      cpow(b.c, b.s, 2, c2, s2);
      cands.push_back({fmulF(a, frc(2)), s2, c2});
    }
  }
  for(int sg = 0; sg < 2; ++sg)
    for(auto & r : cands)
    {
      TrigReq q = r;
      if(sg)
      {
        q.s = fneg(q.s);
        q.arg = fneg(q.arg);
      }
      if(!fzero(fadd(fmulF(Y, q.c), fmulF(X, q.s), -1))) continue;
      Frac sc = fadd(fmulF(X, q.c), fmulF(Y, q.s), 1);
      if(fzero(sc)) continue;
      int m = querySign(literalPoly(sc), 2.0);
      if(m & 1) continue; // need a positive scale
      if(!provablyIn(q.arg, -M_PI, M_PI)) continue;
      return g_invMemo[key] = q.arg;
    }
  Frac rr = sqrtF(fadd(fmulF(X, X), fmulF(Y, Y), 1), -1);
  if(fzero(rr)) return g_invMemo[key] = Frac();
  Frac s = fdivF(Y, rr), c = fdivF(X, rr);
  for(auto & i : g_invMemo) (void)i;
  int v = newAngle(s, c, 0);
  {
    int sy = signMask(literalPoly(Y));
    if(sy == 4) g_vars[v].pos = g_vars[v].nonneg = true;
  }
  return g_invMemo[key] = fr(Poly::var(v));
}
static Frac acosF(const Frac & x)
{
  string key = "A" + fracKey(x);
  auto it = g_invMemo.find(key);
  if(it != g_invMemo.end()) return it->second;
  if(fzero(fadd(x, frc(1), -1))) return g_invMemo[key] = Frac();
  if(fzero(fadd(x, frc(1), 1))) return g_invMemo[key] = frc(Q(M_PI));
  vector<TrigReq> cands = g_trigReq;
  for(int sg = 0; sg < 2; ++sg)
    for(auto & r : cands)
    {
      if(!fzero(fadd(x, r.c, -1))) continue;
      Frac a = sg ? fneg(r.arg) : r.arg;
      if(!provablyIn(a, 0, M_PI)) continue;
      return g_invMemo[key] = a;
    }
  Frac s = sqrtF(fadd(frc(1), fmulF(x, x), -1), -1);
  int v = newAngle(s, x, 1);
  return g_invMemo[key] = fr(Poly::var(v));
}
static Frac asinF(const Frac & x)
{
  string key = "S" + fracKey(x);
  auto it = g_invMemo.find(key);
  if(it != g_invMemo.end()) return it->second;
  if(fzero(x)) return g_invMemo[key] = Frac();
  vector<TrigReq> cands = g_trigReq;
  for(int sg = 0; sg < 2; ++sg)
    for(auto & r : cands)
    {
      Frac s = sg ? fneg(r.s) : r.s;
      if(!fzero(fadd(x, s, -1))) continue;
      Frac a = sg ? fneg(r.arg) : r.arg;
      if(!provablyIn(a, -M_PI / 2, M_PI / 2)) continue;
      return g_invMemo[key] = a;
    }
  Frac c = sqrtF(fadd(frc(1), fmulF(x, x), -1), -1);
  int v = newAngle(x, c, 2);
  return g_invMemo[key] = fr(Poly::var(v));
}
static Frac expF(const Frac & x)
{
  if(fzero(x)) return frc(1);
  Frac r = frc(1);
  auto one = [&](const string & key, const Q & q) {
    std::ostringstream o;
    o << key << "*" << Q(abs(q));
    auto it = g_expMemo.find(o.str());
    int v;
    if(it != g_expMemo.end())
      v = it->second;
    else
    {
      v = newVar("exp" + std::to_string(g_vars.size()), VEXP);
      g_vars[v].pos = g_vars[v].nonneg = true;
      g_expMemo[o.str()] = v;
    }
    Frac e = fr(Poly::var(v));
    r = q > 0 ? fmulF(r, e) : fdivF(r, e);
  };
  if(!x.d.empty())
  {
    Frac p = x;
    Q c = x.n.t[0].second;
    p.n = scale(p.n, 1 / c);
    one("F" + fracKey(p), c);
  }
  else
    for(auto & t : x.n.t) one("M" + std::to_string(t.first), t.second);
  return r;
}
static Frac ufF(const string & name, const Frac & a, const Frac & b)
{
  string key = name + "|" + fracKey(a) + "|" + fracKey(b);
  auto it = g_ufMemo.find(key);
  int v;
  if(it != g_ufMemo.end())
    v = it->second;
  else
  {
    v = newVar(name + std::to_string(g_vars.size()), VUF);
    g_ufMemo[key] = v;
  }
  return fr(Poly::var(v));
}
static Frac fracCompute(int n)
{
  const Node N = g_nodes[n];
  switch(N.op)
  {
    case CONST: return frc(cval(n));
    case VAR: return fr(Poly::var(N.q));
    case ADD: return fadd(fracOf(N.a), fracOf(N.b), 1);
    case SUB: return fadd(fracOf(N.a), fracOf(N.b), -1);
    case MUL: return fmulF(fracOf(N.a), fracOf(N.b));
    case DIV: return fdivF(fracOf(N.a), fracOf(N.b));
    case NEG: return fneg(fracOf(N.a));
    case SQRT: return sqrtF(fracOf(N.a), n);
    case ABS: return absF(fracOf(N.a), n);
    case SIN:
    case COS:
    {
      Frac s, c;
      sincosOf(fracOf(N.a), s, c);
      return N.op == SIN ? s : c;
    }
    case ATAN2: return atan2F(fracOf(N.a), fracOf(N.b));
    case ACOS: return acosF(fracOf(N.a));
    case ASIN: return asinF(fracOf(N.a));
    case EXP: return expF(fracOf(N.a));
    case LOG: return ufF("log", fracOf(N.a), Frac());
    case POW: return ufF("pow", fracOf(N.a), fracOf(N.b));
  }
  throw Unsupported{"op"};
}
// expressions given a name of their own (sx_define_unit): normal form -> (variable, sign)
static map<string, pair<int, int>> g_alias;
static void applyAlias(Frac & f)
{
  if(f.n.t.size() < 2) return;
  auto it = g_alias.find(fracKey(f));
  if(it == g_alias.end()) return;
  f = fr(Poly::var(it->second.first));
  if(it->second.second < 0) f = fneg(f);
}
static Frac fracOf(int n)
{
  if((int)g_nodeHas.size() > n && g_nodeHas[n]) return g_nodeFrac[n];
  // iterative post-order to avoid deep recursion
  vector<int> st{n};
  while(!st.empty())
  {
    int k = st.back();
    if((int)g_nodeHas.size() <= (int)g_nodes.size())
    {
      g_nodeHas.resize(g_nodes.size() + 1024, 0);
      g_nodeFrac.resize(g_nodes.size() + 1024);
    }
    if(g_nodeHas[k])
    {
      st.pop_back();
      continue;
    }
    const Node & N = g_nodes[k];
    bool ready = true;
    if(N.a >= 0 && !g_nodeHas[N.a])
    {
      st.push_back(N.a);
      ready = false;
    }
    if(N.b >= 0 && !g_nodeHas[N.b])
    {
      st.push_back(N.b);
      ready = false;
    }
    if(!ready) continue;
    if(now() > g_pathDeadline) throw Budget{"path time budget"};
    Frac f = fracCompute(k);
    if(!g_alias.empty()) applyAlias(f);
    g_nodeFrac[k] = f;
    g_nodeHas[k] = 1;
    st.pop_back();
  }
  return g_nodeFrac[n];
}

// ------------------------------------------------------------------------------------------------ numeric evaluation
static bool numEval(const map<int, double> & in, vector<double> & val)
{
  val.assign(g_nodes.size(), NAN);
  for(size_t i = 0; i < g_nodes.size(); ++i)
  {
    const Node & N = g_nodes[i];
    double a = N.a >= 0 ? val[N.a] : 0, b = N.b >= 0 ? val[N.b] : 0;
    switch(N.op)
    {
      case CONST: val[i] = g_consts[N.q].get_d(); break;
      case VAR:
      {
        auto it = in.find(N.q);
        if(it == in.end()) return false;
        val[i] = it->second;
        break;
      }
      case ADD: val[i] = a + b; break;
      case SUB: val[i] = a - b; break;
      case MUL: val[i] = a * b; break;
      case DIV: val[i] = a / b; break;
      case NEG: val[i] = -a; break;
      case SQRT: val[i] = std::sqrt(a); break;
      case SIN: val[i] = std::sin(a); break;
      case COS: val[i] = std::cos(a); break;
      case ATAN2: val[i] = std::atan2(a, b); break;
      case ACOS: val[i] = std::acos(a); break;
      case ASIN: val[i] = std::asin(a); break;
      case EXP: val[i] = std::exp(a); break;
      case LOG: val[i] = std::log(a); break;
      case POW: val[i] = std::pow(a, b); break;
      case ABS: val[i] = std::fabs(a); break;
    }
  }
  return true;
}
static bool numPc(const vector<double> & val, double slack)
{
  for(auto & l : g_pc)
  {
    if(l.na < 0) continue;
    double a = val[l.na], b = val[l.nb];
    double s = slack * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    bool ok = true;
    switch(l.cop)
    {
      case 0: ok = std::fabs(a - b) <= s + 1e-12; break;
      case 1: ok = a <= b + s; break;
      case 2: ok = a < b + s; break;
      case 3: ok = a != b; break;
    }
    if(!ok) return false;
    if(std::isnan(a) || std::isnan(b)) return false;
  }
  return true;
}

// ------------------------------------------------------------------------------------------------ path exploration
static vector<int> g_prefix;
static size_t g_pos = 0;
static vector<int> g_taken;
static vector<string> g_newPrefixes;
static bool g_nativeConc = false, g_absFork = false;
static double g_feasTimeout = 1.0;
static int g_maxDecisions = 400;
static unsigned g_seed = 1;
static vector<pair<string, int>> g_choices;
static string pfx(const vector<int> & v)
{
  string s;
  for(int x : v) s += (s.empty() ? "" : ".") + std::to_string(x);
  return s;
}
static void addLit(const Poly & L, int op, int na, int nb, int cop)
{
  noteSign(L, op);
  g_pc.push_back({L, op, na, nb, cop});
}
static int flipMask(int m)
{
  return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2);
}
// sign from the structure of the expression (sums of squares, products of factors of known sign)
static int nodeSign(int n, int depth = 0)
{
  const Node N = g_nodes[n];
  if(N.op == CONST) return cval(n) > 0 ? 4 : cval(n) < 0 ? 1 : 2;
  int m = 7;
  if(depth < 12)
    switch(N.op)
    {
      case MUL:
      {
        if(N.a == N.b)
        {
          int a = nodeSign(N.a, depth + 1);
          m = (a & 2) ? (a == 2 ? 2 : 6) : 4;
        }
        else
        {
          int a = nodeSign(N.a, depth + 1), b = a == 7 ? 7 : nodeSign(N.b, depth + 1);
          m = 0;
          for(int i : {1, 2, 4})
            for(int j : {1, 2, 4})
              if((a & i) && (b & j)) m |= (i == 2 || j == 2) ? 2 : (i == j ? 4 : 1);
        }
        break;
      }
      case DIV:
      {
        int a = nodeSign(N.a, depth + 1), b = a == 7 ? 7 : nodeSign(N.b, depth + 1);
        m = 0;
        for(int i : {1, 2, 4})
          for(int j : {1, 4})
            if((a & i) && (b & j)) m |= i == 2 ? 2 : (i == j ? 4 : 1);
        break;
      }
      case ADD:
      case SUB:
      {
        int a = nodeSign(N.a, depth + 1), b = a == 7 ? 7 : nodeSign(N.b, depth + 1);
        if(N.op == SUB) b = flipMask(b);
        m = 0;
        for(int i : {1, 2, 4})
          for(int j : {1, 2, 4})
            if((a & i) && (b & j)) m |= i == 2 ? j : j == 2 ? i : i == j ? i : 7;
        break;
      }
      case NEG: m = flipMask(nodeSign(N.a, depth + 1)); break;
      case SQRT:
      {
        int a = nodeSign(N.a, depth + 1);
        m = (a & 2) ? 6 : 4;
        break;
      }
      case ABS:
      {
        int a = nodeSign(N.a, depth + 1);
        m = (a & 2) ? 6 : 4;
        break;
      }
      case EXP: m = 4; break;
      default: break;
    }
  if((m & (m - 1)) && N.op != MUL)
  {
    Frac f = fracOf(n);
    if(f.n.isZero()) return 2;
    if(f.n.t.size() < 400) m &= signMask(literalPoly(f));
  }
  return m;
}
static int diffSign(int na, int nb) // sign mask of na - nb
{
  if(isC(nb) && cval(nb) == 0) return nodeSign(na);
  if(isC(na) && cval(na) == 0) return flipMask(nodeSign(nb));
  return 7;
}
// decide a op b  (op 0 ==, 1 <=, 2 <), returns truth; adds to the path condition
static bool decide(int op, int na, int nb)
{
  if(na == nb) return op != 2;
  if(isC(na) && isC(nb))
  {
    int c = cmp(cval(na), cval(nb));
    return op == 0 ? c == 0 : op == 1 ? c <= 0 : c < 0;
  }
  Frac d = fadd(fracOf(na), fracOf(nb), -1);
  Poly L = op == 0 ? d.n : literalPoly(d);
  int ds = diffSign(na, nb);
  if(ds != 7)
  {
    Poly LL = op == 0 ? literalPoly(d) : L;
    static const int opOf[] = {0, 2, 0, 1, 4, 3, 5, 0};
    if(ds && ds != 7 && !LL.isConst()) noteSign(LL, opOf[ds]);
    if(op == 0 && ds == 5) noteSign(L, 3);
    if(op == 0 && (ds == 4 || ds == 1)) noteSign(L, 3);
  }
  return decidePoly(L, op, na, nb);
}
static bool decidePoly(const Poly & L, int op, int na, int nb)
{
  int truthMask = op == 0 ? 2 : op == 1 ? 3 : 1;
  int m = signMask(L);
  if((m & truthMask) == m) return true;
  if((m & truthMask) == 0) return false;
  static const int negOp[] = {3, 4, 5};
  int posOp = op; // 0 =, 1 <=, 2 <
  static bool trace = getenv("SX_TRACE") != nullptr;
  if(trace)
  {
    fprintf(stderr, "D%zu: (%s) %s 0 :\n", g_taken.size(), polyStr(L, 8).c_str(), op == 0 ? "==" : op == 1 ? "<=" : "<");
    void * bt[40];
    int k = backtrace(bt, 40);
    (void)k;
    backtrace_symbols_fd(bt + 2, std::min(k - 2, 12), 2);
  }
  if(g_pos < g_prefix.size())
  {
    bool v = g_prefix[g_pos++];
    g_taken.push_back(v);
    if(v)
      addLit(L, posOp, na, nb, op);
    else
      addLit(L, negOp[op], op == 0 ? na : nb, op == 0 ? nb : na, op == 0 ? 3 : op == 1 ? 2 : 1);
    return v;
  }
  if((int)g_taken.size() > g_maxDecisions) throw Budget{"too many symbolic decisions on one path"};
  if(now() > g_pathDeadline) throw Budget{"path time budget"};
  g_stats.feasQ++;
  int rt = solve({}, {}, {{L, posOp}}, g_feasTimeout, false, true).res;
  int rf = 2;
  if(rt != 0)
  {
    g_stats.feasQ++;
    rf = solve({}, {}, {{L, negOp[op]}}, g_feasTimeout, false, true).res;
  }
  else
    rf = 1;
  bool v;
  bool implied = false;
  if(rt == 0)
  {
    v = false;
    implied = true;
  }
  else if(rf == 0)
  {
    v = true;
    implied = true;
  }
  else
  {
    // both sides feasible (or not refuted): take 'false' for equalities first (generic side), else true
    v = op != 0;
    vector<int> alt = g_taken;
    alt.push_back(!v);
    g_newPrefixes.push_back(pfx(alt));
  }
  g_taken.push_back(v);
  g_pos++;
  (void)implied;
  if(v)
    addLit(L, posOp, na, nb, op);
  else
    addLit(L, negOp[op], op == 0 ? na : nb, op == 0 ? nb : na, op == 0 ? 3 : op == 1 ? 2 : 1);
  return v;
}

// ------------------------------------------------------------------------------------------------ instrumented operations
extern "C"
{
  void __sx_enter(char * flag, const char * name)
  {
    if(!*flag)
    {
      *flag = 1;
      g_funcs.insert(name);
    }
  }
#define CONCRETE2(expr)                                                   \
  if(!isSym(a) && !isSym(b))                                              \
  {                                                                       \
    volatile double va = a, vb = b;                                       \
    if(g_nativeConc || !std::isfinite(a) || !std::isfinite(b)) return expr; \
    feclearexcept(FE_INEXACT);                                            \
    volatile double r = expr;                                             \
    if(!fetestexcept(FE_INEXACT) || !std::isfinite(r)) return r;          \
  }
  static double specialBin(char op, double a, double b)
  {
    // exactly one operand may be a non-finite concrete
    if(std::isnan(a) && !isSym(a)) return a;
    if(std::isnan(b) && !isSym(b)) return b;
    double inf = isSym(a) ? b : a;
    switch(op)
    {
      case '+': return inf;
      case '-': return isSym(a) ? -inf : inf;
      case '/':
        if(isSym(a)) return 0.0;
        break;
      default: break;
    }
    throw Unsupported{"infinity in symbolic arithmetic"};
  }
  static inline bool nonfin(double a)
  {
    return !isSym(a) && !std::isfinite(a);
  }
  double __sx_fadd(double a, double b)
  {
    CONCRETE2(va + vb)
    if(nonfin(a) || nonfin(b)) return specialBin('+', a, b);
    return fromNode(mk(ADD, toNode(a), toNode(b)));
  }
  double __sx_fsub(double a, double b)
  {
    CONCRETE2(va - vb)
    if(nonfin(a) || nonfin(b)) return specialBin('-', a, b);
    return fromNode(mk(SUB, toNode(a), toNode(b)));
  }
  double __sx_fmul(double a, double b)
  {
    CONCRETE2(va * vb)
    if(nonfin(a) || nonfin(b)) return specialBin('*', a, b);
    return fromNode(mk(MUL, toNode(a), toNode(b)));
  }
  double __sx_fdiv(double a, double b)
  {
    if(!isSym(a) && !isSym(b) && b == 0) return a / b;
    CONCRETE2(va / vb)
    if(nonfin(a) || nonfin(b)) return specialBin('/', a, b);
    if(!isSym(b) && b == 0)
    {
      // x/0: sign of x decides
      int n = toNode(a), z = mkConst(Q(0));
      if(decide(0, n, z)) return NAN;
      return decide(2, n, z) ? -INFINITY : INFINITY;
    }
    int nb = toNode(b);
    if(!isC(nb))
    {
      Frac f = fracOf(nb);
      if(f.n.isZero())
      {
        int n = toNode(a), z = mkConst(Q(0));
        if(isC(n) ? cval(n) == 0 : decide(0, n, z)) return NAN;
        return (isC(n) ? cval(n) < 0 : decide(2, n, z)) ? -INFINITY : INFINITY;
      }
      // degenerate division: explored as its own path when the divisor can vanish
      int m = signMask(f.n);
      if((m & 2) && !(nodeSign(nb) & 2))
      {
        noteSign(f.n, 3);
        m &= ~2;
      }
      if(m & 2)
      {
        if(decide(0, nb, mkConst(Q(0))))
        {
          int n = toNode(a), z = mkConst(Q(0));
          if(isC(n) ? cval(n) == 0 : decide(0, n, z)) return NAN;
          return (isC(n) ? cval(n) < 0 : decide(2, n, z)) ? -INFINITY : INFINITY;
        }
      }
    }
    return fromNode(mk(DIV, toNode(a), nb));
  }
  double __sx_fneg(double a)
  {
    if(!isSym(a)) return -a;
    return fromNode(mk(NEG, nodeOf(a)));
  }
  double __sx_sqrt(double a)
  {
    if(!isSym(a))
    {
      if(g_nativeConc || !(a >= 0) || std::isinf(a)) return std::sqrt(a);
      return fromNode(mk(SQRT, toNode(a)));
    }
    int n = nodeOf(a);
    if(isC(n)) { if(cval(n) < 0) return NAN; return fromNode(mk(SQRT, n)); }
    Poly L = literalPoly(fracOf(n));
    if(signMask(L) & 1)
      if(decide(2, n, mkConst(Q(0)))) return NAN;
    int r = mk(SQRT, n);
    if(g_absFork && !isC(r))
    {
      g_forkInAbs = true;
      try
      {
        fracOf(r);
      }
      catch(...)
      {
        g_forkInAbs = false;
        throw;
      }
      g_forkInAbs = false;
    }
    return fromNode(r);
  }
  double __sx_fabs(double a)
  {
    if(!isSym(a)) return std::fabs(a);
    if(g_absFork)
    {
      int n = nodeOf(a);
      if(decide(2, n, mkConst(Q(0)))) return fromNode(mk(NEG, n));
      return a;
    }
    return fromNode(mk(ABS, nodeOf(a)));
  }
#define UN(nm, OP, fn)                                 \
  double __sx_##nm(double a)                           \
  {                                                    \
    if(!isSym(a) && (g_nativeConc || !std::isfinite(a))) return fn(a); \
    return fromNode(mk(OP, toNode(a)));                \
  }
  UN(sin, SIN, std::sin)
  UN(cos, COS, std::cos)
  double __sx_exp(double a)
  {
    if(!isSym(a) && (g_nativeConc || !std::isfinite(a))) return std::exp(a);
    return fromNode(mk(EXP, toNode(a)));
  }
  double __sx_log(double a)
  {
    if(!isSym(a)) return std::log(a);
    return fromNode(mk(LOG, toNode(a)));
  }
  double __sx_asin(double a)
  {
    if(!isSym(a) && (g_nativeConc || !std::isfinite(a) || std::fabs(a) > 1)) return std::asin(a);
    int n = toNode(a);
    if(!isC(n))
    {
      if(decide(2, mkConst(Q(1)), n)) return NAN;
      if(decide(2, n, mkConst(Q(-1)))) return NAN;
    }
    return fromNode(mk(ASIN, n));
  }
  double __sx_acos(double a)
  {
    if(!isSym(a) && (g_nativeConc || !std::isfinite(a) || std::fabs(a) > 1)) return std::acos(a);
    int n = toNode(a);
    if(!isC(n))
    {
      if(decide(2, mkConst(Q(1)), n)) return NAN;
      if(decide(2, n, mkConst(Q(-1)))) return NAN;
    }
    return fromNode(mk(ACOS, n));
  }
  double __sx_atan2(double a, double b)
  {
    if(!isSym(a) && !isSym(b)
       && (g_nativeConc || !std::isfinite(a) || !std::isfinite(b) || (a == 0 && b >= 0)))
      return std::atan2(a, b);
    return fromNode(mk(ATAN2, toNode(a), toNode(b)));
  }
  double __sx_atan(double a) { return __sx_atan2(a, 1.0); }
  double __sx_tan(double a)
  {
    if(!isSym(a) && (g_nativeConc || !std::isfinite(a))) return std::tan(a);
    return __sx_fdiv(__sx_sin(a), __sx_cos(a));
  }
  double __sx_pow(double a, double b)
  {
    if(!isSym(a) && !isSym(b) && g_nativeConc) return std::pow(a, b);
    if(!isSym(b) && b == std::floor(b) && std::fabs(b) <= 16)
    {
      double r = 1;
      for(int i = 0; i < std::fabs(b); ++i) r = __sx_fmul(r, a);
      return b < 0 ? __sx_fdiv(1, r) : r;
    }
    if(!isSym(b) && b == 0.5) return __sx_sqrt(a);
    if(!isSym(a) && !isSym(b)) return std::pow(a, b);
    return fromNode(mk(POW, toNode(a), toNode(b)));
  }
  double __sx_hypot(double a, double b) { return __sx_sqrt(__sx_fadd(__sx_fmul(a, a), __sx_fmul(b, b))); }
  int __sx_fcmp(int pred, double a, double b);
  double __sx_fmin(double a, double b)
  {
    if(!isSym(a) && !isSym(b)) return std::fmin(a, b);
    if(nonfin(a) && std::isnan(a)) return b;
    if(nonfin(b) && std::isnan(b)) return a;
    return __sx_fcmp(4, a, b) ? a : b;
  }
  double __sx_fmax(double a, double b)
  {
    if(!isSym(a) && !isSym(b)) return std::fmax(a, b);
    if(nonfin(a) && std::isnan(a)) return b;
    if(nonfin(b) && std::isnan(b)) return a;
    return __sx_fcmp(2, a, b) ? a : b;
  }
  double __sx_copysign(double a, double b)
  {
    if(!isSym(a) && !isSym(b)) return std::copysign(a, b);
    bool neg = isSym(b) ? decide(2, nodeOf(b), mkConst(Q(0))) : std::signbit(b);
    double m = __sx_fabs(a);
    return neg ? __sx_fneg(m) : m;
  }
  static double nearestDouble(int n)
  {
    return cval(n).get_d();
  }
  double __sx_floor(double a)
  {
    if(!isSym(a)) return std::floor(a);
    int n = nodeOf(a);
    if(isC(n))
    {
      mpz_class z;
      mpz_fdiv_q(z.get_mpz_t(), cval(n).get_num_mpz_t(), cval(n).get_den_mpz_t());
      return z.get_d();
    }
    static const int order[] = {0, -1, 1, -2, 2, -3, 3, -4};
    for(int k : order)
    {
      // k <= a < k+1
      if(!decide(1, mkConst(Q(k)), n)) continue;
      if(decide(2, n, mkConst(Q(k + 1)))) return k;
    }
    throw Budget{"floor() outside [-4,4)"};
  }
  double __sx_ceil(double a) { return __sx_fneg(__sx_floor(__sx_fneg(a))); }
  double __sx_trunc(double a)
  {
    if(!isSym(a)) return std::trunc(a);
    if(__sx_fcmp(4, a, 0.0)) return __sx_ceil(a);
    return __sx_floor(a);
  }
  double __sx_round(double a)
  {
    if(!isSym(a)) return std::round(a);
    if(__sx_fcmp(4, a, 0.0)) return __sx_ceil(__sx_fsub(a, 0.5));
    return __sx_floor(__sx_fadd(a, 0.5));
  }
  double __sx_fmod(double a, double b)
  {
    if(!isSym(a) && !isSym(b)) return std::fmod(a, b);
    double q = __sx_trunc(__sx_fdiv(a, b));
    return __sx_fsub(a, __sx_fmul(q, b));
  }
#define UNSUP(nm)                                        \
  double __sx_##nm(double a)                             \
  {                                                      \
    if(!isSym(a)) return std::nm(a);                     \
    if(isC(nodeOf(a))) return std::nm(nearestDouble(nodeOf(a))); \
    throw Unsupported{#nm};                              \
  }
  UNSUP(sinh) UNSUP(cosh) UNSUP(tanh) UNSUP(cbrt) UNSUP(log2) UNSUP(log10) UNSUP(exp2) UNSUP(rint) UNSUP(nearbyint)
  double __sx_remainder(double a, double b)
  {
    if(!isSym(a) && !isSym(b)) return std::remainder(a, b);
    throw Unsupported{"remainder"};
  }
  double __sx_concrete(double a)
  {
    if(!isSym(a)) return a;
    if(isC(nodeOf(a))) return nearestDouble(nodeOf(a));
    throw Unsupported{"conversion of a symbolic value to another floating type"};
  }
  long __sx_fptosi(double a)
  {
    if(isSym(a))
    {
      if(isC(nodeOf(a))) return (long)nearestDouble(nodeOf(a));
      return (long)__sx_trunc(a);
    }
    return (long)a;
  }
  unsigned long __sx_fptoui(double a)
  {
    if(isSym(a) && isC(nodeOf(a))) return (unsigned long)nearestDouble(nodeOf(a));
    if(isSym(a)) return (unsigned long)__sx_trunc(a);
    return (unsigned long)a;
  }
  int __sx_fpclass(double a, int mask)
  {
    if(!isSym(a))
    {
      int c;
      switch(std::fpclassify(a))
      {
        case FP_NAN: c = 2; break;
        case FP_INFINITE: c = std::signbit(a) ? 4 : 512; break;
        case FP_ZERO: c = std::signbit(a) ? 32 : 64; break;
        case FP_SUBNORMAL: c = std::signbit(a) ? 16 : 128; break;
        default: c = std::signbit(a) ? 8 : 256;
      }
      if(c == 2) return (mask & 3) != 0;
      return (mask & c) != 0;
    }
    int fin = 8 | 16 | 32 | 64 | 128 | 256;
    if((mask & fin) == fin) return 1;
    if((mask & fin) == 0) return 0;
    throw Unsupported{"fpclass"};
  }
  int __sx_fcmp(int pred, double a, double b)
  {
    // llvm predicates: bit0 eq, bit1 gt, bit2 lt, bit3 uno
    if(!isSym(a) && !isSym(b))
    {
      bool uno = std::isnan(a) || std::isnan(b);
      if(uno) return (pred & 8) != 0;
      if(a == b) return (pred & 1) != 0;
      if(a > b) return (pred & 2) != 0;
      return (pred & 4) != 0;
    }
    if(nonfin(a) || nonfin(b))
    {
      if((nonfin(a) && std::isnan(a)) || (nonfin(b) && std::isnan(b))) return (pred & 8) != 0;
      // infinity against a finite symbolic value
      bool gt = nonfin(a) ? a > 0 : b < 0;
      return gt ? (pred & 2) != 0 : (pred & 4) != 0;
    }
    int p = pred & 7;
    if(p == 0) return 0;
    if(p == 7) return 1;
    int na = toNode(a), nb = toNode(b);
    switch(p)
    {
      case 1: return decide(0, na, nb);
      case 6: return !decide(0, na, nb);
      case 4: return decide(2, na, nb); // a<b
      case 5: return decide(1, na, nb); // a<=b
      case 2: return decide(2, nb, na); // a>b
      case 3: return decide(1, nb, na);
    }
    return 0;
  }
}

// ------------------------------------------------------------------------------------------------ harness API
#include <string>
static long g_nAssert = 0, g_nProved = 0, g_nUnknown = 0, g_nFailed = 0, g_nTrivial = 0;
static vector<string> g_failures; // json
static vector<string> g_unknowns;
struct RawCheck
{
  int na, nb;
  int size;
  string label;
};
static vector<RawCheck> g_raw;
static vector<std::array<int, 2>> g_obs; // operands of assertions (translator validation)
static vector<string> g_obsLabel;
static double g_assertTimeout = 20;
static map<string, int> g_labelFail;
// no <random> distributions here: their inline code would be merged with the instrumented one of the harness
static struct
{
  unsigned long long s = 1;
  void seed(unsigned long long x) { s = x * 0x9E3779B97F4A7C15ull + 0x1234567; }
  unsigned long long next()
  {
    unsigned long long z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double unif() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double gauss() { return sqrt(-2 * log(1 - unif())) * cos(6.283185307179586 * unif()); }
} g_rng;

static int dagSize(int n, int limit, bool & poly)
{
  set<int> seen;
  vector<int> st{n};
  while(!st.empty() && (int)seen.size() <= limit)
  {
    int k = st.back();
    st.pop_back();
    if(!seen.insert(k).second) continue;
    const Node & N = g_nodes[k];
    if(N.op > SQRT && N.op != ABS) poly = false;
    if(N.a >= 0) st.push_back(N.a);
    if(N.b >= 0) st.push_back(N.b);
  }
  return seen.size();
}
static bool rawConfirm(int na, int nb, double timeout)
{
  // the un-normalised DAG, straight to the solver
  set<int> seen;
  vector<int> st{na, nb};
  while(!st.empty())
  {
    int k = st.back();
    st.pop_back();
    if(!seen.insert(k).second) continue;
    const Node & N = g_nodes[k];
    if(N.a >= 0) st.push_back(N.a);
    if(N.b >= 0) st.push_back(N.b);
  }
  std::ostringstream o;
  o << "(set-logic QF_NRA)\n";
  set<int> vs;
  for(int k : seen)
    if(g_nodes[k].op == VAR) vs.insert(g_nodes[k].q);
  set<int> all = vs;
  closure(all);
  o << axiomsFor(all);
  for(int k : seen)
  {
    const Node & N = g_nodes[k];
    string n = "n" + std::to_string(k), a = "n" + std::to_string(N.a), b = "n" + std::to_string(N.b);
    switch(N.op)
    {
      case CONST: o << "(define-fun " << n << " () Real " << qStr(cval(k)) << ")\n"; break;
      case VAR: o << "(define-fun " << n << " () Real " << vName(N.q) << ")\n"; break;
      case ADD:
      case SUB:
      case MUL: o << "(define-fun " << n << " () Real (" << opName[N.op] << " " << a << " " << b << "))\n"; break;
      case DIV:
        o << "(declare-const " << n << " Real)\n(assert (= (* " << n << " " << b << ") " << a << "))\n(assert (distinct "
          << b << " 0.0))\n";
        break;
      case NEG: o << "(define-fun " << n << " () Real (- " << a << "))\n"; break;
      case SQRT:
        o << "(declare-const " << n << " Real)\n(assert (= (* " << n << " " << n << ") " << a << "))\n(assert (>= " << n
          << " 0.0))\n";
        break;
      case ABS: o << "(define-fun " << n << " () Real (ite (>= " << a << " 0.0) " << a << " (- " << a << ")))\n"; break;
      default: return false;
    }
  }
  o << "(assert (distinct n" << na << " n" << nb << "))\n(check-sat)\n";
  string file = g_tmpdir + "/r_" + std::to_string(getpid()) + "_" + std::to_string(g_qcount++) + ".smt2";
  {
    std::ofstream f(file);
    f << o.str();
  }
  double t0 = now();
  char tl[32];
  snprintf(tl, sizeof tl, "-T:%d", (int)std::ceil(timeout));
  string out = runCmd({Z3, tl, "-memory:3000", file}, timeout + 1);
  g_stats.solverTime += now() - t0;
  g_stats.rawQ++;
  if(!g_keepQueries) unlink(file.c_str());
  if(out.compare(0, 5, "unsat") == 0)
  {
    g_stats.rawUnsat++;
    return true;
  }
  g_stats.rawTimeout++;
  return false;
}

static void sampleInputs(map<int, double> & in, int mode)
{
  for(int v : g_inputVars)
  {
    const VarInfo & I = g_vars[v];
    if(I.kind == VUNIT) continue;
    double lo = -3, hi = 3;
    if(I.bounded)
    {
      lo = I.lo;
      hi = I.hi;
      if(hi - lo > 1e3)
      {
        lo = std::max(lo, -50.0);
        hi = std::min(hi, lo + 100.0);
      }
    }
    else if(mode % 5 == 4)
    {
      lo = -30;
      hi = 30;
    }
    else if(mode % 5 == 3)
    {
      lo = 0;
      hi = 1;
    }
    double x = lo + (hi - lo) * g_rng.unif();
    if(mode % 5 == 1)
    {
      x = std::round(x * 8) / 8;
      if(I.bounded) x = std::min(std::max(x, I.lo), I.hi);
    }
    if(mode % 5 == 2 && g_rng.unif() < 0.3 && (!I.bounded || (I.lo <= 0 && I.hi >= 0))) x = 0;
    in[v] = x;
  }
  for(int v : g_inputVars)
  {
    const VarInfo & I = g_vars[v];
    if(I.kind != VUNIT) continue;
    double s = 0;
    vector<double> g;
    for(size_t i = 0; i <= I.unitOthers.size(); ++i)
    {
      g.push_back(g_rng.gauss());
      s += g.back() * g.back();
    }
    s = std::sqrt(s);
    for(size_t i = 0; i < I.unitOthers.size(); ++i) in[I.unitOthers[i]] = g[i] / s;
    in[v] = g.back() / s;
  }
}
static string inputsJson(const map<int, double> & in)
{
  std::ostringstream o;
  o << "{";
  bool first = true;
  for(int v : g_inputVars)
  {
    auto it = in.find(v);
    if(it == in.end()) continue;
    char b[64];
    snprintf(b, sizeof b, "%.17g", it->second);
    o << (first ? "" : ",") << jstr(g_vars[v].name) << ":" << b;
    first = false;
  }
  o << "}";
  return o.str();
}
static string choicesJson()
{
  std::ostringstream o;
  o << "[";
  for(size_t i = 0; i < g_choices.size(); ++i)
    o << (i ? "," : "") << "[" << jstr(g_choices[i].first) << "," << g_choices[i].second << "]";
  o << "]";
  return o.str();
}
// numeric search of inputs on this path; if na>=0 requires a violation of (na op nb)
static vector<map<int, double>> numericWitness(int op, int na, int nb, double tol, int want, int tries)
{
  vector<map<int, double>> res;
  for(int t = 0; t < tries && (int)res.size() < want; ++t)
  {
    map<int, double> in;
    sampleInputs(in, t);
    vector<double> val;
    if(!numEval(in, val)) break;
    if(!numPc(val, 0)) continue;
    if(na >= 0)
    {
      double a = val[na], b = val[nb];
      double s = tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
      bool viol = false;
      if(std::isnan(a) || std::isnan(b))
        viol = false;
      else
        switch(op)
        {
          case 0: viol = std::fabs(a - b) > s; break;
          case 1: viol = a > b + s; break;
          case 2: viol = a >= b + s; break;
          case 3: viol = std::fabs(a - b) < 1e-13; break;
        }
      if(!viol) continue;
    }
    res.push_back(in);
  }
  return res;
}
static void fillModel(map<int, double> & in, const SolveResult & r)
{
  sampleInputs(in, 1);
  bool any = false;
  for(int v : g_inputVars)
  {
    auto it = r.model.find(v);
    if(it != r.model.end() && !std::isnan(it->second))
    {
      in[v] = it->second;
      any = true;
    }
  }
  (void)any;
}
static void recordFailure(const string & kind,
                          const string & label,
                          const string & detail,
                          const vector<map<int, double>> & cands)
{
  std::ostringstream o;
  o << "{\"kind\":" << jstr(kind) << ",\"label\":" << jstr(label) << ",\"detail\":" << jstr(detail)
    << ",\"path\":" << jstr(pfx(g_taken)) << ",\"choices\":" << choicesJson() << ",\"candidates\":[";
  for(size_t i = 0; i < cands.size(); ++i) o << (i ? "," : "") << inputsJson(cands[i]);
  o << "]}";
  g_failures.push_back(o.str());
}
static bool checkAssert(int op, int na, int nb, const string & label)
{
  g_nAssert++;
  g_obs.push_back({na, nb});
  g_obsLabel.push_back(label);
  if(na == nb)
  {
    if(op == 0 || op == 1)
    {
      g_nProved++;
      g_nTrivial++;
      return true;
    }
  }
  string why;
  try
  {
    Frac d = fadd(fracOf(na), fracOf(nb), -1);
    Poly L = (op == 0 || op == 3) ? d.n : literalPoly(d);
    int okMask = op == 0 ? 2 : op == 1 ? 3 : op == 2 ? 1 : 5;
    int m = signMask(L);
    if((m & okMask) != m && op != 0) m &= diffSign(na, nb);
    g_stats.assertQ++;
    if((m & okMask) == m)
    {
      // residual literal is decided by normal form / sign table; still give the residual to the solver below
      g_nProved++;
      bool poly = true;
      int sz = dagSize(na, 300, poly) + dagSize(nb, 300, poly);
      if(op == 0 && L.isZero() && poly && sz < 300) g_raw.push_back({na, nb, sz, label});
      return true;
    }
    static const int negOp[] = {3, 4, 5, 0};
    double rem = g_pathDeadline - now();
    double to = std::min(g_assertTimeout, std::max(1.0, rem));
    // fast attempt at refutation with most inputs pinned is done numerically afterwards
    SolveResult r = solve({}, {}, {{L, negOp[op]}}, to, true, false);
    if(r.res == 0)
    {
      g_stats.unsat++;
      g_nProved++;
      return true;
    }
    vector<map<int, double>> cands;
    if(r.res == 1)
    {
      g_stats.sat++;
      map<int, double> in;
      fillModel(in, r);
      cands.push_back(in);
    }
    else
      g_stats.unknown++;
    auto w = numericWitness(op, na, nb, 1e-5, 3, 3000);
    cands.insert(cands.end(), w.begin(), w.end());
    if(r.res == 1 || !w.empty())
    {
      g_nFailed++;
      recordFailure("assert", label, string(r.res == 1 ? "sat" : "numeric") + " residual " + polyStr(L, 6), cands);
      return false;
    }
    why = "solver timeout; residual " + polyStr(L, 4);
  }
  catch(const Budget & b)
  {
    why = "encoding budget: " + b.what;
    auto w = numericWitness(op, na, nb, 1e-5, 3, 3000);
    if(!w.empty())
    {
      g_nFailed++;
      recordFailure("assert", label, "numeric (encoding budget)", w);
      return false;
    }
  }
  catch(const Unsupported & u)
  {
    why = "unsupported: " + u.what;
    auto w = numericWitness(op, na, nb, 1e-5, 3, 3000);
    if(!w.empty())
    {
      g_nFailed++;
      recordFailure("assert", label, "numeric (unsupported)", w);
      return false;
    }
  }
  g_nUnknown++;
  g_unknowns.push_back(label + ": " + why);
  return false;
}
struct ScenarioEntry
{
  string name;
  void (*f)();
};
static vector<ScenarioEntry> & scenarios()
{
  static vector<ScenarioEntry> s;
  return s;
}
struct SxScenario
{
  SxScenario(const char * name, void (*f)());
};
SxScenario::SxScenario(const char * name, void (*f)())
{
  scenarios().push_back({name, f});
}
static void finishPath(const string & status, const string & detail);
static void crash(const string & what)
{
  vector<map<int, double>> cands;
  try
  {
    SolveResult r = solve({}, {}, {}, 10, true, false);
    if(r.res == 0)
    {
      finishPath("infeasible", what);
      _exit(0);
    }
    if(r.res == 1)
    {
      map<int, double> in;
      fillModel(in, r);
      cands.push_back(in);
    }
    auto w = numericWitness(0, -1, -1, 0, 3, 3000);
    cands.insert(cands.end(), w.begin(), w.end());
  }
  catch(...)
  {
  }
  recordFailure("crash", what, "abnormal termination on a feasible path", cands);
  finishPath("crash", what);
  _exit(0);
}
extern "C"
{
  int sx_is_symbolic_build(void) { return 1; }
  void sx_note(const char * t) { g_notes.push_back(t); }
  void sx_tolerance(double) {}
  void sx_mode_native_concrete(int on) { g_nativeConc = on; }
  void sx_abs_fork(int on) { g_absFork = on; }
  double sx_var_(const char * name, double lo, double hi)
  {
    auto it = g_inputIdx.find(name);
    if(it != g_inputIdx.end()) return box(it->second);
    int v = newVar(name, VINPUT);
    if(lo <= hi)
    {
      g_vars[v].bounded = true;
      g_vars[v].lo = lo;
      g_vars[v].hi = hi;
      noteBnd(Poly::var(v) - Poly::constant(Q(lo)), 5);
      noteBnd(Poly::var(v) - Poly::constant(Q(hi)), 1);
      if(lo >= 0) g_vars[v].nonneg = true;
      if(lo > 0) g_vars[v].pos = true;
    }
    int n = mkNodeRaw(VAR, -1, -1, v);
    g_inputIdx[name] = n;
    g_inputVars.push_back(v);
    return box(n);
  }
  double sx_unit_dep_(const char * name, const double * o, int k)
  {
    int v = newVar(name, VUNIT);
    Poly r = Poly::constant(1);
    for(int i = 0; i < k; ++i)
    {
      int n = toNode(o[i]);
      if(g_nodes[n].op != VAR) throw Unsupported{"unit group over non-inputs"};
      g_vars[v].unitOthers.push_back(g_nodes[n].q);
      r = r - Poly::var(g_nodes[n].q, 2);
    }
    g_vars[v].hasRule = true;
    g_vars[v].rule = fr(r);
    int n = mkNodeRaw(VAR, -1, -1, v);
    g_inputIdx[name] = n;
    g_inputVars.push_back(v);
    return box(n);
  }
  // the components of c (whose squares sum to 1, checked here) become opaque variables tied by that relation only
  void sx_define_unit_(const char * name, const double * c, int k)
  {
    vector<Frac> f;
    Frac s = frc(Q(-1));
    for(int i = 0; i < k; ++i)
    {
      f.push_back(fracOf(toNode(c[i])));
      s = fadd(s, fmulF(f[i], f[i]), 1);
    }
    if(!s.n.isZero()) throw Unsupported{"defined vector is not a unit vector"};
    Poly r = Poly::constant(1);
    for(int i = 0; i < k; ++i)
    {
      int v = newVar(string(name) + std::to_string(i), i == k - 1 ? VUNIT : VUF);
      g_vars[v].bounded = true;
      g_vars[v].lo = -1;
      g_vars[v].hi = 1;
      if(i == k - 1)
      {
        g_vars[v].hasRule = true;
        g_vars[v].rule = fr(r);
      }
      else
        r = r - Poly::var(v, 2);
      if(f[i].n.t.size() < 2) throw Unsupported{"defined vector is too simple"};
      g_alias[fracKey(f[i])] = {v, 1};
      g_alias[fracKey(fneg(f[i]))] = {v, -1};
    }
    for(size_t i = 0; i < g_nodeHas.size() && i < g_nodes.size(); ++i)
      if(g_nodeHas[i]) applyAlias(g_nodeFrac[i]);
  }
  int sx_choice(const char * name, int n)
  {
    int v = 0;
    if(g_pos < g_prefix.size())
      v = g_prefix[g_pos++];
    else
    {
      for(int i = 1; i < n; ++i)
      {
        vector<int> alt = g_taken;
        alt.push_back(i);
        g_newPrefixes.push_back(pfx(alt));
      }
      g_pos++;
    }
    g_taken.push_back(v);
    g_choices.push_back({name, v});
    return v;
  }
  void sx_assume_(int op, double a, double b)
  {
    int na = toNode(a), nb = toNode(b);
    Frac d = fadd(fracOf(na), fracOf(nb), -1);
    Poly L = (op == 0 || op == 3) ? d.n : literalPoly(d);
    int okMask = op == 0 ? 2 : op == 1 ? 3 : op == 2 ? 1 : 5;
    int m = signMask(L);
    if((m & okMask) == m) return;
    if((m & okMask) == 0) throw EndPath();
    addLit(L, op, na, nb, op);
  }
  void sx_assert_(int op, double a, double b, const char * label)
  {
    if(nonfin(a) || nonfin(b))
    {
      bool ok = false;
      if(!isSym(a) && !isSym(b)) ok = op == 0 ? a == b : op == 1 ? a <= b : op == 2 ? a < b : a != b;
      g_nAssert++;
      if(ok)
      {
        g_nProved++;
        return;
      }
      // feasible?
      SolveResult r = solve({}, {}, {}, 10, true, false);
      if(r.res == 0) throw EndPath();
      vector<map<int, double>> c;
      if(r.res == 1)
      {
        map<int, double> in;
        fillModel(in, r);
        c.push_back(in);
      }
      auto w = numericWitness(0, -1, -1, 0, 3, 2000);
      c.insert(c.end(), w.begin(), w.end());
      g_nFailed++;
      recordFailure("assert", label, "non-finite operand", c);
      return;
    }
    checkAssert(op, toNode(a), toNode(b), label);
  }
  void sx_assert_near_(double a, double b, double tol, const char * label)
  {
    if(nonfin(a) || nonfin(b)) return sx_assert_(0, a, b, label);
    double hi = __sx_fadd(b, tol), lo = __sx_fsub(b, tol);
    checkAssert(1, toNode(a), toNode(hi), string(label) + " <= +tol");
    checkAssert(1, toNode(lo), toNode(a), string(label) + " >= -tol");
  }
  void sx_lemma_(int op, double a, double b, const char * label)
  {
    if(checkAssert(op, toNode(a), toNode(b), string("lemma ") + label)) sx_assume_(op, a, b);
  }
  void sx_assert_true_(int cond, const char * label)
  {
    g_nAssert++;
    g_stats.assertQ++;
    if(cond)
    {
      g_nProved++;
      return;
    }
    SolveResult r = solve({}, {}, {}, 10, true, false);
    if(r.res == 0)
    {
      g_nProved++;
      throw EndPath();
    }
    vector<map<int, double>> c;
    if(r.res == 1)
    {
      map<int, double> in;
      fillModel(in, r);
      c.push_back(in);
    }
    auto w = numericWitness(0, -1, -1, 0, 3, 2000);
    c.insert(c.end(), w.begin(), w.end());
    g_nFailed++;
    recordFailure("assert", label, "condition false on a feasible path", c);
  }
  void __assert_fail(const char * e, const char * f, unsigned l, const char * fn) noexcept
  {
    (void)fn;
    crash(string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l));
    _exit(1);
  }
}
static void onSignal(int s)
{
  signal(s, SIG_DFL);
  if(s == SIGALRM)
  {
    finishPath("timeout", "path wall clock");
    _exit(0);
  }
  crash(string("signal ") + strsignal(s));
}
static bool g_finished = false;
static void writeAll(const string & s)
{
  size_t o = 0;
  while(o < s.size())
  {
    ssize_t k = write(g_pipe, s.data() + o, s.size() - o);
    if(k <= 0) break;
    o += k;
  }
}
static bool g_wantWitness = true;
static void finishPath(const string & status, const string & detail)
{
  if(g_finished) return;
  g_finished = true;
  alarm(0);
  std::locale::global(std::locale::classic()); // a harness may have changed how numbers are written
  std::ostringstream o;
  string witness = "null", obs = "[]";
  // vacuity: a concrete input reaching the end of this path, and the values of the assertion operands there
  string feasible = "unknown";
  if(status == "ok" || status == "unsupported" || status == "budget")
  {
    try
    {
      vector<map<int, double>> w = numericWitness(0, -1, -1, 0, 1, 600);
      if(w.empty() && g_wantWitness)
      {
        g_stats.feasQ++;
        SolveResult r = solve({}, {}, {}, 5, true, false);
        if(r.res == 0) feasible = "no";
        if(r.res == 1)
        {
          feasible = "yes";
          map<int, double> in;
          fillModel(in, r);
          vector<double> val;
          if(numEval(in, val) && numPc(val, 1e-9)) w.push_back(in);
        }
      }
      if(!w.empty())
      {
        feasible = "yes";
        witness = inputsJson(w[0]);
        vector<double> val;
        numEval(w[0], val);
        std::ostringstream b;
        b << "[";
        size_t cnt = std::min<size_t>(g_obs.size(), 4000);
        for(size_t i = 0; i < cnt; ++i)
        {
          char t[80];
          auto cl = [](double x) { return std::isfinite(x) ? x : 1e300; };
          snprintf(t, sizeof t, "%s[%.17g,%.17g]", i ? "," : "", cl(val[g_obs[i][0]]), cl(val[g_obs[i][1]]));
          b << t;
        }
        b << "]";
        obs = b.str();
      }
    }
    catch(...)
    {
    }
    if(feasible != "no" && status == "ok")
    {
      std::sort(g_raw.begin(), g_raw.end(), [](const RawCheck & a, const RawCheck & b) { return a.size < b.size; });
      int k = 0;
      for(auto & r : g_raw)
      {
        if(k++ >= 2) break;
        if(g_taken.size() < 40) rawConfirm(r.na, r.nb, 2);
      }
    }
  }
  o << "{\"path\":" << jstr(pfx(g_taken)) << ",\"status\":" << jstr(status) << ",\"detail\":" << jstr(detail)
    << ",\"feasible\":" << jstr(feasible) << ",\"choices\":" << choicesJson() << ",\"asserts\":" << g_nAssert
    << ",\"proved\":" << g_nProved << ",\"trivial\":" << g_nTrivial << ",\"unknown\":" << g_nUnknown
    << ",\"failed\":" << g_nFailed << ",\"feasQ\":" << g_stats.feasQ << ",\"assertQ\":" << g_stats.assertQ
    << ",\"unsat\":" << g_stats.unsat << ",\"sat\":" << g_stats.sat << ",\"solverUnknown\":" << g_stats.unknown
    << ",\"rawQ\":" << g_stats.rawQ << ",\"rawUnsat\":" << g_stats.rawUnsat << ",\"solver_s\":" << g_stats.solverTime
    << ",\"nodes\":" << g_nodes.size() << ",\"vars\":" << g_vars.size() << ",\"pc\":" << g_pc.size() << ",\"new\":[";
  for(size_t i = 0; i < g_newPrefixes.size(); ++i) o << (i ? "," : "") << jstr(g_newPrefixes[i]);
  o << "],\"failures\":[";
  for(size_t i = 0; i < g_failures.size(); ++i) o << (i ? "," : "") << g_failures[i];
  o << "],\"unknowns\":[";
  for(size_t i = 0; i < g_unknowns.size() && i < 20; ++i) o << (i ? "," : "") << jstr(g_unknowns[i]);
  o << "],\"funcs\":[";
  bool first = true;
  for(auto & f : g_funcs)
  {
    o << (first ? "" : ",") << jstr(f);
    first = false;
  }
  o << "],\"witness\":" << witness << ",\"obs\":" << obs << "}\n";
  writeAll(o.str());
}
int main(int argc, char ** argv)
{
  string scen, out, prefix;
  double pathTimeout = 120;
  bool list = false;
  for(int i = 1; i < argc; ++i)
  {
    string a = argv[i];
    auto nxt = [&]() { return string(argv[++i]); };
    if(a == "--list") list = true;
    else if(a == "--prefix") prefix = nxt();
    else if(a == "--path-timeout") pathTimeout = atof(nxt().c_str());
    else if(a == "--assert-timeout") g_assertTimeout = atof(nxt().c_str());
    else if(a == "--feas-timeout") g_feasTimeout = atof(nxt().c_str());
    else if(a == "--seed") g_seed = atoi(nxt().c_str());
    else if(a == "--tmp") g_tmpdir = nxt();
    else if(a == "--keep") g_keepQueries = true;
    else scen = a;
  }
  if(list)
  {
    for(auto & s : scenarios()) printf("%s\n", s.name.c_str());
    return 0;
  }
  for(auto & s : scenarios())
    if(s.name == scen)
    {
      g_pipe = dup(1);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      g_scenario = scen;
      std::istringstream is(prefix);
      string tok;
      while(std::getline(is, tok, '.'))
        if(!tok.empty()) g_prefix.push_back(atoi(tok.c_str()));
      g_rng.seed(g_seed);
      g_pathDeadline = now() + pathTimeout;
      signal(SIGABRT, onSignal);
      signal(SIGSEGV, onSignal);
      signal(SIGFPE, onSignal);
      signal(SIGBUS, onSignal);
      signal(SIGILL, onSignal);
      signal(SIGALRM, onSignal);
      alarm((unsigned)(pathTimeout + 60));
      std::set_terminate([]() {
        try
        {
          std::rethrow_exception(std::current_exception());
        }
        catch(const EndPath &)
        {
          finishPath("infeasible", "assumption");
        }
        catch(const Unsupported & u)
        {
          finishPath("unsupported", u.what);
        }
        catch(const Budget & b)
        {
          finishPath("budget", b.what);
        }
        catch(const std::exception & e)
        {
          crash(string("uncaught exception: ") + e.what());
        }
        catch(...)
        {
          crash("uncaught exception");
        }
        _exit(0);
      });
      try
      {
        s.f();
        finishPath("ok", "");
      }
      catch(const EndPath &)
      {
        finishPath("infeasible", "assumption");
      }
      catch(const Unsupported & u)
      {
        finishPath("unsupported", u.what);
      }
      catch(const Budget & b)
      {
        finishPath("budget", b.what);
      }
      catch(const std::exception & e)
      {
        crash(string("uncaught exception: ") + e.what());
      }
      catch(...)
      {
        crash("uncaught exception");
      }
      _exit(0);
    }
  fprintf(stderr, "no such scenario %s\n", scen.c_str());
  return 2;
}
