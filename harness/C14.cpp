// C14: NaN and infinity never reach the FMPC result.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  using St = typename F_::Status;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  s.config().kkt_error_thre = 0;
  auto x0 = F.state("xc");
  auto v0 = F.variable("a", F.n);
  bool bad = opt("bad", 0), zero = opt("zero", 0);
  double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  if(opt("api", 0))
  {
    // the check of the variable itself: true exactly if some entry is not finite
    double bads[] = {nan, inf, -inf};
    int what = V::choose("what", 6), i = V::choose("step", F.n + (what == 1 || what == 3));
    double b = bads[V::choose("kind", 3)];
    auto put = [&](auto & e) {
      if(e.size() == 0) return false;
      e[V::choose("entry", e.size())] = b;
      return true;
    };
    bool put_ = false;
    if(what == 1) put_ = put(v0.x_list[i]);
    if(what == 2) put_ = put(v0.u_list[i]);
    if(what == 3) put_ = put(v0.lambda_list[i]);
    if(what == 4) put_ = put(v0.s_list[i]);
    if(what == 5) put_ = put(v0.nu_list[i]);
    V::cover(put_ ? "non-finite entry" : "finite");
    if(v0.containsNaN() != put_) V::fail("Variable::containsNaN() reports exactly the non-finite entries");
    return;
  }
  if(opt("bad", 0) == 2)
  {
    double bads[] = {nan, inf, -inf};
    x0[V::choose("bad_component", SD)] = bads[V::choose("bad_kind", 3)];
  }
  else if(bad)
  {
    F.p->bad_fn = V::choose("bad_callback", 13);
    F.p->bad_step = F.p->bad_fn > 10 ? F.n : V::choose("bad_step", F.n);
    F.p->bad_kind = V::choose("bad_kind", 3);
    F.p->bad_pos = V::choose("bad_pos", SD > 1 ? 2 : 1);
    int g = v0.s_list[F.p->bad_step < F.n ? F.p->bad_step : 0].size();
    if(F.p->bad_fn >= 1 && F.p->bad_fn <= 3 && g == 0) return; // nothing is returned there
    int u = v0.u_list[F.p->bad_step < F.n ? F.p->bad_step : 0].size();
    if((F.p->bad_fn == 3 || F.p->bad_fn == 5 || F.p->bad_fn == 7 || F.p->bad_fn == 9 || F.p->bad_fn == 10) && u == 0) return;
  }
  if(zero)
  {
    int i = V::choose("zero_step", F.n);
    if(v0.s_list[i].size() == 0) return;
    v0.s_list[i][v0.s_list[i].size() - 1] = 0;
    if(V::choose("nu_zero_too", 2)) v0.nu_list[i][v0.s_list[i].size() - 1] = 0;
  }
  auto st = s.solve(F.t0, x0, v0);
  V::cover("status " + std::to_string((int)st));
  const auto & v = s.variable();
  auto fin = [&](const auto & l, const char * what) {
    for(auto & e : l)
      for(int j = 0; j < e.size(); j++)
        if(!V::finite(e[j])) V::fail(std::string("result is finite: ") + what);
  };
  fin(v.x_list, "x");
  fin(v.u_list, "u");
  fin(v.lambda_list, "lambda");
  fin(v.s_list, "s");
  fin(v.nu_list, "nu");
  if(bad || zero)
  {
    if(st != St::ErrorInBackward && st != St::ErrorInForward) V::fail("non-finite data is reported by the status");
    eq_var("error: variables stay at the last iterate", v, v0);
  }
  else if(st == St::ErrorInBackward || st == St::ErrorInForward)
    V::fail("no error for finite, regular data");
}
static void run()
{
  FMPC_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"x1u1g1.n=2.cx=1.bad=1", "x2u2g1.n=1.bad=1.cx=1", "x1udgd.n=3.dims=1.gd=3.bad=1.cx=1", "x1u1g0.n=2.cx=1.bad=1", "x1u1g1.n=2.zero=1", "x2u1g2.n=1.zero=1", "x1udgd.n=3.dims=1.gd=3.zero=1", "x1u1g1.n=1", "x1u1g0.n=2.it=2", "x2u2g1.n=1", "x1udgd.n=2.dims=1.gd=2", "x1udgd.n=3.dims=1.gd=2.init=1.cx=1", "x1u1g1.n=1.print=3.cx=1", "x1u1g1.n=3.cx=1.bad=1.it=2", "x1u1g1.n=2.bad=2.cx=1", "x2u2g1.n=1.bad=2.cx=1", "x1u1g0.n=2.bad=2.cx=1", "x1u1g1.n=2.api=1.cx=1", "x2u1g2.n=1.api=1", "x1udgd.n=3.dims=1.gd=3.api=1.cx=1", "t_x2u1gd.n=2.gd=2.ls=1.lm=1.cx=1", "t_x1u1g1.n=1.ls=1.cx=1.lm=1"});
}
