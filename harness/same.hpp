// Comparing two solver runs.
#pragma once
#include "ddp_law.hpp"
#include "fmpc.hpp"
namespace H
{
template<class A, class B>
void same_ddp(const std::string & what, const A & a, const B & b)
{
  eq_list(what + ": states", a.controlData().x_list, b.controlData().x_list);
  eq_list(what + ": inputs", a.controlData().u_list, b.controlData().u_list);
  auto &ca = a.controlData().cost_list, &cb = b.controlData().cost_list;
  if(ca.size() != cb.size()) V::fail(what + ": costs (length)");
  for(int i = 0; i < (int)ca.size(); i++) V::require_eq(what + ": costs", ca[i], cb[i]);
  auto &ta = a.traceDataList(), &tb = b.traceDataList();
  if(ta.size() != tb.size()) V::fail(what + ": number of trace entries");
  for(size_t i = 0; i < ta.size(); i++)
  {
    if(ta[i].iter != tb[i].iter) V::fail(what + ": trace iter");
    V::require_eq(what + ": trace cost", ta[i].cost, tb[i].cost);
    V::require_eq(what + ": trace lambda", ta[i].lambda, tb[i].lambda);
    V::require_eq(what + ": trace dlambda", ta[i].dlambda, tb[i].dlambda);
    V::require_eq(what + ": trace alpha", ta[i].alpha, tb[i].alpha);
    V::require_eq(what + ": trace k_rel_norm", ta[i].k_rel_norm, tb[i].k_rel_norm);
    V::require_eq(what + ": trace cost_update_actual", ta[i].cost_update_actual, tb[i].cost_update_actual);
    V::require_eq(what + ": trace cost_update_expected", ta[i].cost_update_expected, tb[i].cost_update_expected);
    V::require_eq(what + ": trace cost_update_ratio", ta[i].cost_update_ratio, tb[i].cost_update_ratio);
  }
}
template<class A, class B>
void same_fmpc(const std::string & what, const A & a, const B & b)
{
  eq_var(what, a.variable(), b.variable());
  auto &ta = a.traceDataList(), &tb = b.traceDataList();
  if(ta.size() != tb.size()) V::fail(what + ": number of trace entries");
  for(size_t i = 0; i < ta.size(); i++)
  {
    if(ta[i].iter != tb[i].iter) V::fail(what + ": trace iter");
    V::require_eq(what + ": trace kkt_error", ta[i].kkt_error, tb[i].kkt_error);
  }
}
template<class A, class B>
void same_qp(const std::string & what, const A & a, const B & b)
{
  if(a.retval_ != b.retval_) V::fail(what + ": return code");
  if(a.retval_ > 0 && a.retval_ != 4)
  {
    if(a.free_idxs_ != b.free_idxs_) V::fail(what + ": free set");
  }
  auto &ta = a.traceDataList(), &tb = b.traceDataList();
  if(ta.size() != tb.size()) V::fail(what + ": number of trace entries");
  for(size_t i = 0; i < ta.size(); i++)
  {
    if(ta[i].iter != tb[i].iter) V::fail(what + ": trace iter");
    V::require_eq(what + ": trace objective", ta[i].obj, tb[i].obj);
    eq(what + ": trace iterate", ta[i].x, tb[i].x);
  }
}
// a box QP
template<class QP>
struct QpData
{
  typename QP::VarVarDimMatrix Hm;
  typename QP::VarDimVector g, lo, hi, x0;
  QpData(const std::string & r, int n, int salt) : Hm(n, n), g(n), lo(n), hi(n), x0(n)
  {
    fill_pd("H", Hm, salt);
    if(opt("ind", 0) && salt == opt("ind", 0) - 1) Hm(n - 1, n - 1) -= 6;
    fill(r + "g", g);
    for(int i = opt("gs", n); i < n; i++) g[i] = num("g", i, 0, salt);
    for(int i = 0; i < n; i++)
    {
      lo[i] = double(-2 - i) / 4;
      hi[i] = double(1 + i) / 4;
    }
    fill_num("x", x0, salt);
  }
  template<class S>
  typename QP::VarDimVector solve(S & s) const
  {
    return s.solve(Hm, g, lo, hi, x0);
  }
};
template<class QP>
void qp_config(QP & qp)
{
  auto & c = qp.config();
  c.print_level = opt("print", 0);
  c.max_iter = opt("mi", 3);
  c.step_factor = 0.5;
  c.min_step = double(3) / (4 << opt("ls", 1));
  c.armijo_param = double(1) / 8;
}
} // namespace H
