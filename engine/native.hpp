// Native counterpart of symx.hpp: replays one solver model against the code compiled with plain double.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace symx
{
struct model
{
  std::map<std::string, double> in;
  std::map<std::string, int> ch;
  struct uf
  {
    std::vector<double> a;
    double v;
  };
  std::map<std::string, std::vector<uf>> fn;
  std::string the_case;
};
inline model & mdl()
{
  static model m;
  return m;
}
inline double rd(const std::string & s)
{
  return std::strtod(s.c_str(), nullptr);
}
inline double input(const std::string & name)
{
  auto it = mdl().in.find(name);
  return it == mdl().in.end() ? 0.0 : it->second;
}
inline int choose(const std::string & name, int)
{
  auto it = mdl().ch.find(name);
  return it == mdl().ch.end() ? 0 : it->second;
}
inline double ufun(const std::string & name, const std::vector<double> & args)
{
  auto it = mdl().fn.find(name);
  if(it == mdl().fn.end()) return 0.0;
  for(double a : args)
    if(std::isfinite(a) && std::fabs(a) > 1e9)
    {
      std::cout << "REPLAY-UNRELIABLE (magnitudes beyond the reach of rounding-free comparison)" << std::endl;
      std::_Exit(3);
    }
  // a continuous function through the points of the model (inverse-distance weights), so that rounding does not matter
  double best = INFINITY, v = 0, w = 0;
  for(auto & e : it->second)
  {
    if(e.a.size() != args.size()) continue;
    double d = 0;
    for(size_t i = 0; i < args.size(); i++) d += std::fabs(e.a[i] - args[i]) / (1 + std::fabs(e.a[i]));
    if(d <= 1e-8) return e.v;
    if(!std::isfinite(d)) continue;
    best = std::min(best, d);
  }
  for(auto & e : it->second)
  {
    if(e.a.size() != args.size()) continue;
    double d = 0;
    for(size_t i = 0; i < args.size(); i++) d += std::fabs(e.a[i] - args[i]) / (1 + std::fabs(e.a[i]));
    if(!std::isfinite(d)) continue;
    double q = (best / d) * (best / d);
    v += q * e.v;
    w += q;
  }
  v = w > 0 ? v / w : 0;
  return v;
}
[[noreturn]] inline void viol(const std::string & label)
{
  std::cout << "REPLAY-VIOLATION " << label << std::endl;
  std::_Exit(1);
}
inline void assume(bool b)
{
  if(!b)
  {
    std::cout << "REPLAY-ASSUMPTION-UNMET" << std::endl;
    std::_Exit(4);
  }
}
inline void require(const std::string & label, bool b)
{
  if(!b) viol(label);
}
inline void require_eq(const std::string & label, double a, double b)
{
  if(a == b || (std::isnan(a) && std::isnan(b))) return;
  double tol = 1e-7 * (1 + std::fabs(a) + std::fabs(b));
  if(!(std::fabs(a - b) <= tol))
  {
    std::printf("  %s: %.17g vs %.17g\n", label.c_str(), a, b);
    std::fflush(stdout);
    viol(label);
  }
}
inline void require_le(const std::string & label, double a, double b)
{
  double tol = 1e-9 * (1 + std::fabs(a) + std::fabs(b));
  if(!(a <= b + tol))
  {
    std::printf("  %s: %.17g > %.17g\n", label.c_str(), a, b);
    std::fflush(stdout);
    viol(label);
  }
}
[[noreturn]] inline void fail(const std::string & label)
{
  viol(label);
}
[[noreturn]] inline void stop_path()
{
  std::cout << "REPLAY-OUT-OF-BOUND" << std::endl;
  std::_Exit(0);
}
inline void cover(const std::string &) {}
inline void count(const std::string &, long = 1) {}
inline bool native_mode()
{
  return true;
}
inline std::string case_name()
{
  return mdl().the_case;
}
inline double parse(const std::string & t)
{
  return rd(t);
}
inline int run_main(int argc, char ** argv, void (*fn)(), const std::vector<std::string> &)
{
  if(argc < 2)
  {
    std::cerr << "usage: replay MODEL" << std::endl;
    return 2;
  }
  std::ifstream f(argv[1]);
  std::string line;
  while(std::getline(f, line))
  {
    std::istringstream is(line);
    std::string k, n;
    is >> k;
    if(k == "case")
      is >> mdl().the_case;
    else if(k == "in")
    {
      std::string v;
      is >> n >> v;
      mdl().in[n] = rd(v);
    }
    else if(k == "choice")
    {
      int v;
      is >> n >> v;
      mdl().ch[n] = v;
    }
    else if(k == "uf")
    {
      size_t na;
      is >> n >> na;
      model::uf e;
      for(size_t i = 0; i < na; i++)
      {
        std::string v;
        is >> v;
        e.a.push_back(rd(v));
      }
      std::string v;
      is >> v;
      e.v = rd(v);
      mdl().fn[n].push_back(e);
    }
  }
  try
  {
    fn();
  }
  catch(const std::exception & e)
  {
    viol(std::string("uncaught-exception: ") + e.what());
  }
  std::cout << "REPLAY-OK" << std::endl;
  std::cout.flush();
  std::_Exit(0);
}
} // namespace symx

// Memory handed out by the allocator is filled so that reading it before writing shows up as NaN.
#include <cstring>
extern "C" void * __libc_malloc(size_t);
extern "C" inline __attribute__((used)) void * symx_fill(void * p, size_t n)
{
  if(p) std::memset(p, 0xff, n);
  return p;
}
#ifdef REPLAY_FILL
extern "C" __attribute__((used)) void * malloc(size_t n)
{
  return symx_fill(__libc_malloc(n), n);
}
#endif
