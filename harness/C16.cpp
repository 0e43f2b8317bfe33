// C16: FMPC rejects malformed initial variables and accepts well-formed ones.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  int n = F.n;
  if(opt("api", 0))
  {
    // a variable made for a horizon and reset is well-formed
    typename F_::Var v(n);
    if(v.horizon_steps != n || (int)v.x_list.size() != n + 1 || (int)v.lambda_list.size() != n + 1 || (int)v.u_list.size() != n || (int)v.s_list.size() != n || (int)v.nu_list.size() != n)
      V::fail("constructed variable has the lengths of its horizon");
    for(int i = 0; i < n; i++)
    {
      double t = F.t0 + i * F.dt;
      if(ID == Eigen::Dynamic) v.u_list[i].resize(F.p->inputDim(t));
      if(GD == Eigen::Dynamic)
      {
        v.s_list[i].resize(F.p->ineqDim(t));
        v.nu_list[i].resize(F.p->ineqDim(t));
      }
    }
    double a[5];
    for(int k = 0; k < 5; k++) a[k] = V::input(nm("reset", k));
    V::assume(V::And(a[3] >= 0, a[4] >= 0));
    v.reset(a[0], a[1], a[2], a[3], a[4]);
    auto all = [&](const auto & l, const double & x, const char * what) {
      for(auto & e : l)
        for(int j = 0; j < e.size(); j++) V::require_eq(std::string("reset: ") + what, e[j], x);
    };
    all(v.x_list, a[0], "x");
    all(v.u_list, a[1], "u");
    all(v.lambda_list, a[2], "lambda");
    all(v.s_list, a[3], "s");
    all(v.nu_list, a[4], "nu");
    V::cover("reset");
    s.solve(F.t0, F.state("xc"), v);
    return;
  }
  auto x0 = F.state("xc");
  if(V::choose("solved_before", 2)) s.solve(F.t0, x0, F.variable("a", n));
  typename F_::Var v = F.variable("b", n, 3);
  bool ok = true;
  int what = V::choose("what", 12);
  bool init = s.config().init_complementary_variable;
  if(what >= 1 && what <= 5)
  {
    int delta = V::choose("delta", 3) - 1; // one shorter, same, one longer
    auto rs = [&](auto & l) {
      int m = l.size() + delta;
      l.resize(m);
      if(delta > 0) l.back() = l.front();
    };
    if(what == 1) rs(v.x_list);
    if(what == 2) rs(v.u_list);
    if(what == 3) rs(v.lambda_list);
    if(what == 4) rs(v.s_list);
    if(what == 5) rs(v.nu_list);
    ok = delta == 0;
  }
  if(what >= 6 && what <= 8)
  {
    int i = V::choose("step", n), m = V::choose("dimension", 4);
    double t = F.t0 + i * F.dt;
    if(what == 6 && ID == Eigen::Dynamic)
    {
      v.u_list[i].setZero(m);
      ok = m == F.p->inputDim(t);
    }
    if(what == 7 && GD == Eigen::Dynamic)
    {
      v.s_list[i].setOnes(m);
      ok = m == F.p->ineqDim(t) || init;
    }
    if(what == 8 && GD == Eigen::Dynamic)
    {
      v.nu_list[i].setOnes(m);
      ok = m == F.p->ineqDim(t) || init;
    }
  }
  vbool sign = true;
  if((what == 9 || what == 10) && !init)
  {
    // any sign of one slack / multiplier
    int i = V::choose("step", n);
    auto & l = what == 9 ? v.s_list[i] : v.nu_list[i];
    if(l.size())
    {
      int j = V::choose("component", l.size());
      l[j] = V::input("value");
      sign = l[j] >= 0;
    }
  }
  if(what == 11)
  {
    v = typename F_::Var(n + 1); // another horizon altogether
    ok = false;
  }
  bool threw = false;
  try
  {
    s.solve(F.t0, x0, v);
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  V::cover(threw ? "rejected" : "accepted");
  if(!ok)
  {
    if(!threw) V::fail("malformed variables are rejected with an exception");
  }
  else
    V::require("exception exactly when a slack or multiplier is negative", threw ? V::Not(sign) : sign);
}
static void run()
{
  FMPC_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"x1u1g1.n=1.cx=1.it=0", "x1u1g1.n=2.cx=1.it=0", "x1udgd.n=2.dims=1.gd=3.cx=1.it=0", "x2u1gd.n=3.gd=1.it=0.cx=1", "x1udg1.n=2.dims=3.cx=1.it=0",
                         "x1u1g1.n=2.cx=1.it=0.init=1", "x1udgd.n=2.dims=1.gd=3.cx=1.it=0.init=1", "x1u1g0.n=2.cx=1.it=1", "x1u1g1.n=2.api=1.it=0", "x2u1g2.n=1.api=1.it=0", "x1udgd.n=3.dims=1.gd=3.api=1.it=0"});
}
