// Native (concrete) implementation of the harness API: replays solver models against the plainly compiled code.
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
using std::string;
struct Scen
{
  string name;
  void (*f)();
};
static std::vector<Scen> & scenarios()
{
  static std::vector<Scen> s;
  return s;
}
struct SxScenario
{
  SxScenario(const char * name, void (*f)());
};
SxScenario::SxScenario(const char * name, void (*f)())
{
  scenarios().push_back({name, f});
}
static std::map<string, double> g_in;
static std::vector<int> g_choice;
static size_t g_cpos = 0;
static double g_tol = 1e-6, g_tolMul = 1;
static int g_fail = 0;
static long g_n = 0;
static int g_out = 1;
struct AssumeFail
{
};
static void emit(const string & s)
{
  size_t o = 0;
  while(o < s.size())
  {
    ssize_t k = write(g_out, s.data() + o, s.size() - o);
    if(k <= 0) break;
    o += k;
  }
}
static void obs(const char * label, int op, double a, double b, bool ok)
{
  char buf[256];
  snprintf(buf, sizeof buf, "%c %d %.17g %.17g ", ok ? 'A' : 'F', op, a, b);
  emit(string(buf) + label + "\n");
  ++g_n;
  if(!ok) ++g_fail;
}
static bool holds(int op, double a, double b, double tol)
{
  if(std::isnan(a) || std::isnan(b)) return false;
  if(std::isinf(a) || std::isinf(b)) return op == 0 ? a == b : op == 1 ? a <= b : op == 2 ? a < b : a != b;
  double s = tol * g_tolMul * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
  switch(op)
  {
    case 0: return std::fabs(a - b) <= s;
    case 1: return a <= b + s;
    case 2: return a < b + s;
    case 3: return a != b;
  }
  return false;
}
extern "C"
{
  int sx_is_symbolic_build(void) { return 0; }
  void sx_note(const char *) {}
  void sx_tolerance(double t) { g_tol = t; }
  void sx_mode_native_concrete(int) {}
  void sx_abs_fork(int) {}
  double sx_var_(const char * name, double lo, double hi)
  {
    auto it = g_in.find(name);
    double v = it == g_in.end() ? 0.5 : it->second;
    if(lo <= hi)
    {
      if(v < lo) v = lo;
      if(v > hi) v = hi;
    }
    return v;
  }
  double sx_unit_dep_(const char * name, const double * o, int n)
  {
    double s = 1;
    for(int i = 0; i < n; ++i) s -= o[i] * o[i];
    auto it = g_in.find(name);
    double w = s > 0 ? std::sqrt(s) : 0;
    return (it != g_in.end() && it->second < 0) ? -w : w;
  }
  void sx_define_unit_(const char *, const double *, int) {}
  int sx_choice(const char *, int n)
  {
    int v = g_cpos < g_choice.size() ? g_choice[g_cpos] : 0;
    ++g_cpos;
    return v < n ? v : 0;
  }
  void sx_assume_(int op, double a, double b)
  {
    bool ok = op == 3 ? a != b : holds(op, a, b, 1e-9);
    if(!ok) throw AssumeFail();
  }
  void sx_assert_(int op, double a, double b, const char * label) { obs(label, op, a, b, holds(op, a, b, g_tol)); }
  void sx_assert_near_(double a, double b, double tol, const char * label)
  {
    obs((string(label) + " <= +tol").c_str(), 1, a, b + tol, holds(1, a, b + tol, 1e-9));
    obs((string(label) + " >= -tol").c_str(), 1, b - tol, a, holds(1, b - tol, a, 1e-9));
  }
  void sx_lemma_(int op, double a, double b, const char * label)
  {
    obs((string("lemma ") + label).c_str(), op, a, b, holds(op, a, b, g_tol));
  }
  void sx_assert_true_(int cond, const char * label)
  {
    emit(string(cond ? "T 9 1 1 " : "F 9 0 1 ") + label + "\n");
    if(!cond) ++g_fail;
  }
  void __assert_fail(const char * e, const char * f, unsigned l, const char *) noexcept
  {
    emit(string("CRASH assertion failed: ") + e + " at " + f + ":" + std::to_string(l) + "\n");
    _exit(3);
  }
}
static void onSignal(int s)
{
  emit(string("CRASH signal ") + strsignal(s) + "\n");
  _exit(3);
}
// usage: prog scenario replay-file ; file lines: "in <name> <value>" , "choice <v>"
int main(int argc, char ** argv)
{
  if(argc > 1 && string(argv[1]) == "--list")
  {
    for(auto & s : scenarios()) printf("%s\n", s.name.c_str());
    return 0;
  }
  if(argc < 3) return 2;
  g_out = dup(1);
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  std::ifstream f(argv[2]);
  string line;
  while(std::getline(f, line))
  {
    std::istringstream is(line);
    string k, n;
    is >> k;
    if(k == "in")
    {
      double v;
      is >> n >> v;
      g_in[n] = v;
    }
    else if(k == "tolmul")
      is >> g_tolMul;
    else if(k == "choice")
    {
      int v;
      is >> v;
      g_choice.push_back(v);
    }
  }
  signal(SIGABRT, onSignal);
  signal(SIGSEGV, onSignal);
  signal(SIGFPE, onSignal);
  signal(SIGBUS, onSignal);
  alarm(60);
  for(auto & s : scenarios())
    if(s.name == argv[1])
    {
      try
      {
        s.f();
      }
      catch(const AssumeFail &)
      {
        emit("ASSUME\n");
        return g_fail ? 3 : 4;
      }
      catch(const std::exception & e)
      {
        emit(string("CRASH uncaught exception: ") + e.what() + "\n");
        return 3;
      }
      catch(...)
      {
        emit("CRASH uncaught exception\n");
        return 3;
      }
      emit("END\n");
      return g_fail ? 3 : 0;
    }
  return 2;
}
