// C13: the FMPC status and trace tell the truth.
#include "fmpc.hpp"
using namespace H;
template<int SD, int ID, int GD>
void go()
{
  using F_ = FmpcFix<SD, ID, GD>;
  using St = typename F_::Status;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  double thre = s.config().kkt_error_thre;
  if(opt("sthre", 0))
  {
    thre = V::input("thre");
    V::assume(thre > 0);
    s.config().kkt_error_thre = thre;
  }
  auto x0 = F.state("xc");
  auto v0 = F.variable("a", F.n);
  if(opt("zs", 0)) v0.s_list[0][0] = 0; // forces an error in the backward pass
  int max_iter = s.config().max_iter;
  auto st = s.solve(F.t0, x0, v0);
  const auto & tr = s.traceDataList();
  if(max_iter == 0)
  {
    if(st != St::Uninitialized) V::fail("no iteration allowed: status says nothing was computed");
    if(!tr.empty()) V::fail("no iteration allowed: empty trace");
    eq_var("no iteration allowed: variables unchanged", s.variable(), v0);
    return;
  }
  V::cover("status " + std::to_string((int)st));
  if(tr.empty() || (int)tr.size() > max_iter) V::fail("one trace entry per iteration, at most max_iter");
  for(size_t k = 0; k < tr.size(); k++)
  {
    if(tr[k].iter != (int)k + 1) V::fail("trace: iteration number");
    // the iterate before iteration k+1, from a solver stopped there
    typename F_::Var vk = v0;
    if(k)
    {
      typename F_::Solver s2(F.p);
      F.configure(s2, F.n);
      s2.config().kkt_error_thre = thre;
      s2.config().max_iter = k;
      s2.solve(F.t0, x0, v0);
      vk = s2.variable();
    }
    RefFmpc<SD, ID, GD> ref(*F.p, F.t0, x0, vk);
    ref.linearise();
    double e2 = ref.kkt2();
    V::require_le("trace: kkt_error is not negative", 0, tr[k].kkt_error);
    V::require_eq("trace: kkt_error is the KKT error of the iterate", tr[k].kkt_error * tr[k].kkt_error, e2);
    bool last = k + 1 == tr.size();
    if(!last) V::require("no further iteration after convergence", V::Not(tr[k].kkt_error <= thre));
    if(last && st == St::Succeeded)
    {
      V::require_le("Succeeded: KKT error of the result within the threshold", tr[k].kkt_error, thre);
      eq_var("Succeeded: result is the iterate that was tested", s.variable(), vk);
    }
    if(last && st != St::Succeeded) V::require("not Succeeded: last tested iterate was above the threshold", V::Not(tr[k].kkt_error <= thre));
    if(last && (st == St::ErrorInForward || st == St::ErrorInBackward || st == St::ErrorInUpdate))
      eq_var("error: variables stay at the last iterate", s.variable(), vk);
  }
  if(st == St::MaxIterationReached && (int)tr.size() != max_iter) V::fail("MaxIterationReached: all iterations were used");
  if(st == St::Uninitialized || st == St::IterationContinued) V::fail("status is final");
  if(opt("zs", 0) && st != St::ErrorInBackward) V::fail("zero slack: error reported");
  if(opt("exact", 0))
  {
    // linear-quadratic without inequality constraints: the first full Newton step is the solution
    if(st != St::Succeeded || tr.size() > 2) V::fail("linear-quadratic problem without inequalities: solved by one Newton step");
  }
}
static void run()
{
  FMPC_DISPATCH(go);
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"x1u1g1.n=1.sthre=1", "x1u1g0.n=2.sthre=1", "x1u1g1.n=2.it=0.print=3", "x1u1g1.n=1.thre=1.cx=1", "x1u1g1.n=1.zs=1.ss=1", "x2u2g1.n=1.thre=1.cx=1", "x1u1g0.n=3.it=2.lin=1.thre=0.exact=1", "x1udgd.n=2.gd=2.dims=1.sthre=1", "x1u1g1.n=1.ss=1.sthre=1", "t_x1u1g1.n=1.it=2.sthre=1.lin=1.cx=1", "x1u1g0.n=1.it=3.sthre=1", "x2u2g1.n=2.sthre=1", "t_x1u1g1.n=1.it=2.sthre=1", "t_x2u1gd.n=2.gd=2.thre=0.lin=1.it=2", "t_x1u1g1.n=1.ls=1.cx=1.thre=0", "t_x1u1g0.n=4.it=3.sthre=1"});
}
