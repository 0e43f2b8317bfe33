// C01: the control data of DDPSolver is a rollout of its own inputs.
#include "ddp.hpp"
using namespace H;

template<int SD, int ID>
void check_rollout(const std::string & what,
                   const UFProblem<SD, ID> & p,
                   const typename nmpc_ddp::DDPSolver<SD, ID>::ControlData & d,
                   const double & t0,
                   const typename UFProblem<SD, ID>::SV & x0,
                   int n)
{
  if((int)d.x_list.size() != n + 1) V::fail(what + " x_list length");
  if((int)d.u_list.size() != n) V::fail(what + " u_list length");
  if((int)d.cost_list.size() != n + 1) V::fail(what + " cost_list length");
  eq(what + " x_list[0] == current_x", d.x_list[0], x0);
  for(int i = 0; i < n; i++)
  {
    double t = t0 + i * p.dt();
    if(d.u_list[i].size() != p.inputDim(t)) V::fail(what + " u_list[i] dimension");
    eq(what + " x[i+1] == stateEq(t_i, x_i, u_i)", d.x_list[i + 1], p.stateEq(t, d.x_list[i], d.u_list[i]));
    V::require_eq(what + " cost[i] == runningCost(t_i, x_i, u_i)", d.cost_list[i],
                  p.runningCost(t, d.x_list[i], d.u_list[i]));
  }
  double t = t0 + n * p.dt();
  V::require_eq(what + " cost[N] == terminalCost(t_N, x_N)", d.cost_list[n], p.terminalCost(t, d.x_list[n]));
}
template<int SD, int ID>
void go()
{
  double dt = V::input("dt"), t0 = V::input("t0");
  V::assume(dt > 0);
  int n = opt("n", 2), iters = opt("it", 1), alphas = opt("al", 2), sel = opt("dims", 0), resolve = opt("re", 0);
  auto p = std::make_shared<UFProblem<SD, ID>>(dt, t0, deriv_opt(), dims_for(sel, 8));
  nmpc_ddp::DDPSolver<SD, ID> s(p);
  auto & c = s.config();
  c.print_level = opt("print", 0);
  c.horizon_steps = n;
  c.max_iter = iters;
  c.initial_lambda = 0.125;
  c.lambda_factor = 4;
  c.lambda_max = 0.5 * opt("lm", 1);
  c.lambda_thre = 1;
  c.reg_type = opt("reg", 1);
  c.k_rel_norm_thre = opt("kthre", 0);
  c.cost_update_thre = opt("cthre", 0);
  c.alpha_list.resize(alphas);
  for(int i = 0; i < alphas; i++) c.alpha_list[i] = double(1) / (1 << i);
  c.with_input_constraint = opt("lim", 0);
  double lo = double(-1) / 2, hi = double(1) / 4;
  if(opt("lim", 0) == 2)
  {
    lo = V::input("lo"), hi = V::input("hi");
    V::assume(lo < hi);
  }
  if(c.with_input_constraint)
  {
    s.setInputLimitsFunc([&](double t) {
      std::array<typename UFProblem<SD, ID>::UV, 2> r;
      r[0].setConstant(p->inputDim(t), lo);
      r[1].setConstant(p->inputDim(t), hi);
      return r;
    });
  }
  for(int k = 0; k <= resolve; k++)
  {
    std::string pre = k ? "b" : "a";
    typename UFProblem<SD, ID>::SV x0;
    fill(pre + "x0", x0);
    double t = t0;
    if(k)
    {
      // a second solve with the same object: another horizon, another start
      int m = opt("n2", n);
      c.horizon_steps = n = m;
      if(opt("shift", 0))
      {
        t = t0 + dt;
        p->dims.erase(p->dims.begin());
        p->t0 = t;
      }
    }
    auto ul = input_list<SD, ID>(pre + "u", n, p->dims);
    if(opt("lim", 0) == 1)
      for(int i = 0; i < n; i++)
        for(int j = 0; j < ul[i].size(); j++) ul[i][j] = num("u", i, j) / 5;
    p->luu_shift = opt("neg", 0) ? 100 : 0;
    bool r = s.solve(t, x0, ul);
    V::cover(r ? "success" : "not-converged");
    check_rollout<SD, ID>(k ? "re-solve:" : "solve:", *p, s.controlData(), t, x0, n);
    if(iters == 0 || opt("neg", 0)) eq_list("no accepted step: u_list == initial_u_list", s.controlData().u_list, ul);
  }
}
static void run()
{
  std::string c = case_base();
  if(starts(c, "t_")) c = c.substr(2);
  if(c == "s1u1") go<1, 1>();
  if(c == "s2u1") go<2, 1>();
  if(c == "s2u2") go<2, 2>();
  if(c == "s1ud") go<1, Eigen::Dynamic>();
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s1u1.n=1.it=1.al=1.ufd=1", "s1u1.n=1.it=0", "s1u1.n=3.it=1.al=2.print=3", "s1u1.n=2.it=2.al=1",
                         "s1u1.n=2.it=1.neg=1", "s2u1.n=2.it=1.al=3.reg=2", "s2u2.n=2.it=1.al=2", "s2u2.n=1.it=3.al=1",
                         "s1ud.n=4.it=1.al=1.dims=1", "s1ud.n=3.it=1.al=2.dims=2", "s1ud.n=1.it=1.dims=3",
                         "s1u1.n=2.it=1.al=1.re=1.n2=3", "s1u1.n=3.it=1.al=1.re=1.n2=1",
                         "s1ud.n=3.it=1.al=1.dims=1.re=1.n2=4.shift=1", "s1ud.n=4.it=1.al=1.dims=3.re=1.n2=2.shift=1",
                         "s2u1.n=2.it=1.al=1.re=1.n2=2.shift=1", "s1u1.n=2.it=1.al=1.kthre=1", "s1u1.n=2.it=2.al=1.cthre=1",
                         "s1u1.n=6.it=1.al=1", "s1u1.n=3.it=1.al=2.lim=1", "s1u1.n=1.it=1.al=1.lim=2.salt=2",
                         "s1ud.n=3.it=1.al=1.dims=1.lim=1", "t_s1u1.n=10.it=1.al=1", "t_s1u1.n=3.it=2.al=2", "t_s2u2.n=3.it=2.al=1",
                         "t_s1u1.n=2.it=1.al=2.ufd=1", "t_s1u1.n=2.it=1.al=1.lim=2"});
}
