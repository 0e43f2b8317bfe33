#pragma once
#include "ddp_ref.hpp"
namespace H
{
enum What
{
  LAW,
  TRACE
};
// a solver with a "every problem" instance, configured by the options of the case
template<int SD, int ID>
struct DdpFix
{
  using UV = typename UFProblem<SD, ID>::UV;
  using SV = typename UFProblem<SD, ID>::SV;
  using Solver = nmpc_ddp::DDPSolver<SD, ID>;
  double dt, t0;
  int n;
  std::shared_ptr<UFProblem<SD, ID>> p;
  std::function<std::array<UV, 2>(double)> lim;
  DdpFix()
  {
    dt = V::input("dt");
    t0 = V::input("t0");
    V::assume(dt > 0);
    n = opt("n", 2);
    p = std::make_shared<UFProblem<SD, ID>>(dt, t0, deriv_opt(), dims_for(opt("dims", 0), 12));
    p->salt = opt("salt", 0);
    p->reset = opt("rst", 0);
    p->luu_shift = opt("neg", 0);
    p->shift_step = opt("at", 0);
    auto pp = p;
    bool sym = opt("lim", 0) == 2;
    double lo = 0, hi = 0;
    if(sym)
    {
      lo = V::input("lo");
      hi = V::input("hi");
      V::assume(lo < hi);
    }
    int wide = opt("wide", 1), only = opt("limat", -1);
    lim = [=](double t) {
      std::array<UV, 2> r;
      int k = pp->idx(t);
      r[0].setConstant(pp->inputDim(t), sym ? lo : wide * double(-1 - k % 2) / 2);
      r[1].setConstant(pp->inputDim(t), sym ? hi : wide * double(1) / (3 + k));
      for(int j = 0; j < r[0].size(); j++)
      {
        // components have limits of their own; "limat" leaves all steps but one practically unlimited
        double f = only >= 0 && only != k ? 64 : double(1) + double(j) / 4;
        r[0][j] = r[0][j] * f;
        r[1][j] = r[1][j] * f;
      }
      return r;
    };
  }
  void configure(Solver & s)
  {
    int alphas = opt("al", 2);
    auto & c = s.config();
    c.print_level = opt("print", 0);
    c.horizon_steps = n;
    c.max_iter = opt("it", 1);
    c.reg_type = opt("reg", 1);
    c.initial_lambda = 0.125;
    c.lambda_factor = 4;
    c.lambda_max = opt("lm", 1);
    c.lambda_thre = opt("lthre", 1);
    c.lambda_min = double(1) / 64;
    c.k_rel_norm_thre = double(opt("kthre", 0)) / 4;
    c.cost_update_thre = opt("cthre", 0);
    if(opt("lam0", 0)) c.initial_lambda = 0;
    if(opt("rsym", 0))
    {
      c.cost_update_ratio_thre = V::input("ratio_thre");
      V::assume(V::And(c.cost_update_ratio_thre >= 0, c.cost_update_ratio_thre < 1));
      c.cost_update_thre = V::input("cost_thre");
      V::assume(c.cost_update_thre >= 0);
    }
    if(opt("lsym", 0))
    {
      c.initial_lambda = V::input("lambda0");
      c.initial_dlambda = V::input("dlambda0");
      c.lambda_min = V::input("lambda_min");
      c.lambda_max = V::input("lambda_max");
      c.lambda_thre = V::input("lambda_thre");
      V::assume(V::And(c.initial_lambda >= 0, c.initial_dlambda > 0));
      V::assume(V::And(c.lambda_min > 0, c.lambda_max > c.lambda_min));
      V::assume(c.lambda_max < 16 * c.lambda_min);
      V::assume(c.lambda_thre > 0);
    }
    c.alpha_list.resize(alphas);
    for(int i = 0; i < alphas; i++) c.alpha_list[i] = opt("asym", 0) ? V::input(nm("alpha", i)) : double(1) / (1 << i);
    if(opt("asym", 0))
      for(int i = 0; i < alphas; i++) V::assume(V::And(c.alpha_list[i] > 0, c.alpha_list[i] <= 1));
    if(opt("defal", 0)) c.alpha_list = typename Solver::Configuration().alpha_list;
    c.with_input_constraint = opt("lim", 0);
    if(c.with_input_constraint) s.setInputLimitsFunc(lim);
  }
  std::vector<UV> inputs(const std::string & name, int m)
  {
    auto ul = input_list<SD, ID>(name, m, p->dims);
    if(opt("lim", 0) == 1 || opt("cu", 0))
      for(int i = 0; i < m; i++)
        for(int j = 0; j < ul[i].size(); j++) ul[i][j] = num("u", i, j) / 5;
    return ul;
  }
};
template<int SD, int ID>
void law(What what)
{
  DdpFix<SD, ID> F;
  nmpc_ddp::DDPSolver<SD, ID> s(F.p);
  F.configure(s);
  auto & c = s.config();
  auto & p = F.p;
  auto & lim = F.lim;
  double t0 = F.t0;
  int n = F.n, resolve = opt("re", 0);
  for(int k = 0; k <= resolve; k++)
  {
    std::string pre = k ? "b" : "a";
    typename UFProblem<SD, ID>::SV x0;
    fill(pre + "x0", x0);
    if(k) c.horizon_steps = n = opt("n2", n);
    auto ul = F.inputs(pre + "u", n);
    bool r = s.solve(t0, x0, ul);
    RefDDP<SD, ID> ref(*p, c, t0);
    ref.lim = lim;
    bool rr = ref.solve(x0, ul);
    V::cover(r ? "success" : "not-converged");
    const auto & d = s.controlData();
    const auto & tr = s.traceDataList();
    if(ref.retries) V::cover("backward pass retried");
    if(ref.retval < 0) V::cover("failure due to large lambda");
    if(ref.trace.back().ratio > c.cost_update_ratio_thre) V::cover("step accepted");
    if(what == LAW)
    {
      eq_list("u_list == update law of iLQR", d.u_list, ref.u);
      eq_list("x_list == update law of iLQR", d.x_list, ref.x);
      for(int i = 0; i <= n; i++) V::require_eq("cost_list == update law of iLQR", d.cost_list[i], ref.cost[i]);
    }
    else
    {
      if(r != rr) V::fail("return value: true exactly when a termination threshold was met");
      if(tr.size() != ref.trace.size()) V::fail("number of iterations performed");
      for(size_t i = 0; i < tr.size(); i++)
      {
        if(tr[i].iter != ref.trace[i].iter) V::fail("trace: iter");
        V::require_eq("trace: cost is the total cost of the iterate", tr[i].cost, ref.trace[i].cost);
        V::require_eq("trace: lambda follows the schedule", tr[i].lambda, ref.trace[i].lambda);
        V::require_eq("trace: dlambda follows the schedule", tr[i].dlambda, ref.trace[i].dlambda);
        V::require_eq("trace: k_rel_norm", tr[i].k_rel_norm, ref.trace[i].k_rel_norm);
        V::require_eq("trace: alpha", tr[i].alpha, ref.trace[i].alpha);
        V::require_eq("trace: cost_update_actual", tr[i].cost_update_actual, ref.trace[i].actual);
        V::require_eq("trace: cost_update_expected", tr[i].cost_update_expected, ref.trace[i].expected);
        V::require_eq("trace: cost_update_ratio", tr[i].cost_update_ratio, ref.trace[i].ratio);
      }
      double sum = 0;
      for(int i = 0; i <= n; i++) sum += d.cost_list[i];
      V::require_eq("last trace cost == total cost of the returned control data", tr.back().cost, sum);
    }
  }
}
#define DDP_DISPATCH(CALL, ...)                                   \
  std::string c_ = H::case_base();                               \
  if(H::starts(c_, "t_")) c_ = c_.substr(2);                     \
  constexpr int D_ = Eigen::Dynamic;                             \
  if(c_ == "s1u1") CALL<1, 1>(__VA_ARGS__);                      \
  if(c_ == "s2u1") CALL<2, 1>(__VA_ARGS__);                      \
  if(c_ == "s2u2") CALL<2, 2>(__VA_ARGS__);                      \
  if(c_ == "s1ud") CALL<1, D_>(__VA_ARGS__);

inline void law_dispatch(What w)
{
  DDP_DISPATCH(law, w);
  if(c_ == "s1u2") law<1, 2>(w);
  if(c_ == "s3u2") law<3, 2>(w);
  if(c_ == "s2ud") law<2, Eigen::Dynamic>(w);
}
} // namespace H
