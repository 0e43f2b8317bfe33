#pragma once
#include "common.hpp"
#include <nmpc_ddp/BoxQP.h>
namespace H
{
enum BoxGoal
{
  BOUNDS,
  KKT,
  FACTOR
};
// H: 0 fixed positive definite, 1 symbolic positive definite (dimension 1 and 2), 2 fixed indefinite, 3 symbolic, any
template<int D>
void boxqp(BoxGoal goal)
{
  int n = D == Eigen::Dynamic ? opt("d", 2) : D;
  using QP = nmpc_ddp::BoxQP<D>;
  QP qp(n);
  auto & c = qp.config();
  c.print_level = opt("print", 0);
  c.max_iter = opt("mi", 4);
  c.step_factor = 0.5;
  int ls = opt("ls", 2); // longest line search
  c.min_step = double(3) / (4 << ls);
  c.armijo_param = double(opt("arm", 2)) / 16;
  if(opt("arm", 2) == 0)
  {
    c.armijo_param = V::input("armijo");
    V::assume(V::And(c.armijo_param > 0, c.armijo_param < 1));
  }
  if(opt("tol", 1) == 0)
  {
    c.grad_thre = double(1) / 4;
    c.rel_improve_thre = double(1) / 16;
  }
  for(int rep = 0; rep <= opt("re", 0); rep++)
  {
    std::string r = rep ? "b" : "a";
    typename QP::VarVarDimMatrix Hm(n, n);
    typename QP::VarDimVector g(n), lo(n), hi(n), x0(n);
    int hk = opt("H", 0);
    bool pd = hk < 2;
    if(hk == 0) fill_pd("H", Hm, opt("salt", 0) + 5 * rep);
    if(hk == 2)
    {
      fill_pd("H", Hm, opt("salt", 0));
      Hm(n - 1, n - 1) -= 6;
    }
    if(hk == 1 || hk == 3) fill_sym(r + "H", Hm);
    if(hk == 1)
    {
      V::assume(Hm(0, 0) > 0);
      if(n == 2) V::assume(Hm(0, 0) * Hm(1, 1) - Hm(0, 1) * Hm(0, 1) > 0);
    }
    fill(r + "g", g);
    fill(r + "lo", lo);
    fill(r + "hi", hi);
    fill(r + "x", x0);
    if(opt("g", 1) == 0) fill_num("g", g, opt("salt", 0) + rep);
    if(opt("b", 1) == 0)
      for(int i = 0; i < n; i++)
      {
        lo[i] = double(-2 - i) / 4;
        hi[i] = double(1 + i) / 4;
      }
    if(opt("x", 1) == 0) fill_num("x", x0, rep);
    // only the first gs / xs entries symbolic
    for(int i = opt("gs", n); i < n; i++) g[i] = num("g", i, 0, opt("salt", 0) + rep);
    for(int i = opt("xs", n); i < n; i++) x0[i] = num("x", i, 0, rep);
    if(opt("x", 1) == 2) x0.setZero();
    for(int i = 0; i < n; i++) V::assume(lo[i] <= hi[i]);
    typename QP::VarDimVector x = opt("x", 1) == 2 ? qp.solve(Hm, g, lo, hi) : qp.solve(Hm, g, lo, hi, x0);
    const auto & tr = qp.traceDataList();
    V::cover("retval " + std::to_string(qp.retval_));
    if(x.size() != n) V::fail("dimension of the solution");
    if(goal == BOUNDS)
    {
      for(int i = 0; i < n; i++)
      {
        V::require_le("lower <= x", lo[i], x[i]);
        V::require_le("x <= upper", x[i], hi[i]);
      }
      V::require_eq("trace[0] is the initial guess clamped to the bounds", tr[0].x[0],
                    x0[0] < lo[0] ? lo[0] : (x0[0] > hi[0] ? hi[0] : x0[0]));
      continue;
    }
    auto obj = [&](const typename QP::VarDimVector & v) {
      double s = 0;
      for(int i = 0; i < n; i++)
      {
        s += g[i] * v[i];
        for(int j = 0; j < n; j++) s += v[i] * Hm(i, j) * v[j] / 2;
      }
      return s;
    };
    typename QP::VarDimVector grad(n);
    for(int i = 0; i < n; i++)
    {
      grad[i] = g[i];
      for(int j = 0; j < n; j++) grad[i] += Hm(i, j) * x[j];
    }
    bool exhausted = false;
    for(auto & t : tr)
      if(t.step_num > ls) exhausted = true;
    if(goal == KKT)
    {
      if(qp.retval_ == 0 || !qp.retstr_.count(qp.retval_)) V::fail("return value is one of the documented reasons");
      if(pd && qp.retval_ < 0) V::fail("no failure reported for a positive definite Hessian");
      if(pd)
      {
        V::require_eq("trace[0].obj is the objective of the initial guess", tr[0].obj, obj(tr[0].x));
        // the trace lists the iterates; the last entry is only complete if the iteration limit ended the search
        int full = (int)tr.size() - (qp.retval_ == 1 ? 1 : 2);
        for(int k = 1; k <= full; k++)
        {
          const auto & y = tr[k];
          if(y.iter != k) V::fail("trace is numbered");
          if(k == 1)
            for(int i = 0; i < n; i++) V::require_eq("trace: first iterate is the clamped initial guess", y.x[i], tr[0].x[i]);
          double oy = obj(y.x);
          V::require_eq("trace: objective of the iterate", y.obj, oy);
          typename QP::VarDimVector nx = k < full ? tr[k + 1].x : x;
          double step = 1, slope = 0;
          for(int j = 0; j < y.step_num; j++) step = step * c.step_factor;
          for(int i = 0; i < n; i++)
          {
            double w = y.x[i] + step * y.search_dir[i], d = g[i];
            for(int j = 0; j < n; j++) d += Hm(i, j) * y.x[j];
            slope += d * y.search_dir[i];
            V::require("trace: next iterate is the clamped step along the search direction",
                       V::Or(V::And(w <= lo[i], nx[i] == lo[i]), V::Or(V::And(w >= hi[i], nx[i] == hi[i]), nx[i] == w)));
          }
          if(y.step_num <= ls) V::require_le("trace: Armijo condition holds for the step taken", obj(nx) - oy, c.armijo_param * step * slope);
          if(y.step_num > 0 && y.step_num <= ls) V::cover("step shortened");
        }
        if(!exhausted) V::require_le("objective of the solution <= objective of the initial guess", obj(x), tr[0].obj);
      }
      if(qp.retval_ == 1 && (int)tr.size() != c.max_iter + 1) V::fail("'maximum iterations' only after max_iter iterations");
      if((int)tr.size() > c.max_iter + 1) V::fail("at most max_iter iterations");
      if(qp.retval_ == 5 || qp.retval_ == 6)
      {
        double free_norm = 0;
        for(int i = 0; i < n; i++)
        {
          vbool at_lo = V::And(x[i] == lo[i], grad[i] > 0), at_hi = V::And(x[i] == hi[i], grad[i] < 0);
          vbool small = V::And(grad[i] < c.grad_thre, -grad[i] < c.grad_thre);
          if(qp.retval_ == 6)
            V::require("retval 6: every variable sits on a bound with the gradient pointing outwards", V::Or(at_lo, at_hi));
          else
            V::require("retval 5: gradient small, or variable on a bound with the gradient pointing outwards",
                       V::Or(small, V::Or(at_lo, at_hi)));
        }
      }
      if(n == 1 && pd && !exhausted && (qp.retval_ == 5 || qp.retval_ == 6) && opt("tol", 1))
      {
        // scalar problem: the exact minimiser, up to the gradient tolerance
        double z = -g[0] / Hm(0, 0);
        if(z < lo[0]) z = lo[0];
        if(z > hi[0]) z = hi[0];
        double d = Hm(0, 0) * (x[0] - z);
        V::require_le("scalar problem: minimiser over the box", d, c.grad_thre);
        V::require_le("scalar problem: minimiser over the box", -d, c.grad_thre);
      }
      if(hk == 2 && qp.retval_ > 0 && qp.retval_ != 6)
      {
        // a successful result never relies on an indefinite block
        bool all_free = (int)qp.free_idxs_.size() == n;
        if(all_free) V::fail("an indefinite Hessian is reported");
      }
    }
    if(goal == FACTOR)
    {
      for(size_t k = 0; k < qp.free_idxs_.size(); k++)
      {
        int i = qp.free_idxs_[k];
        if(i < 0 || i >= n || (k && qp.free_idxs_[k - 1] >= i)) V::fail("free_idxs is an increasing list of indices");
      }
      std::vector<bool> is_free(n, false);
      for(int i : qp.free_idxs_) is_free[i] = true;
      if(qp.retval_ == 5 || qp.retval_ == 6)
        for(int i = 0; i < n; i++)
        {
          vbool clamped = V::Or(V::And(x[i] == lo[i], grad[i] > 0), V::And(x[i] == hi[i], grad[i] < 0));
          V::require("free_idxs: exactly the variables not held at a bound", is_free[i] ? V::Not(clamped) : clamped);
        }
      if(qp.retval_ == 6 && !qp.free_idxs_.empty()) V::fail("all clamped: no free index");
      if(qp.retval_ > 0 && !qp.free_idxs_.empty())
      {
        if(!qp.llt_free_) V::fail("factor of the free block is available");
        auto L = qp.llt_free_->reconstructedMatrix().eval();
        int m = qp.free_idxs_.size();
        if(L.rows() != m) V::fail("factor of the free block has the dimension of free_idxs");
        for(int i = 0; i < m; i++)
          for(int j = 0; j < m; j++)
            V::require_eq("factor of the free block reproduces the Hessian block", L(i, j),
                          Hm(qp.free_idxs_[i], qp.free_idxs_[j]));
      }
    }
  }
}
inline void ctor()
{
  // dimensions given to the constructor
  int n = V::choose("n", 5) - 1;
  bool threw = false;
  try
  {
    nmpc_ddp::BoxQP<2> q(n);
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  if(threw != (n != 2)) V::fail("constructor rejects a dimension different from the template parameter");
  threw = false;
  try
  {
    nmpc_ddp::BoxQP<Eigen::Dynamic> q(n);
  }
  catch(const std::exception &)
  {
    threw = true;
  }
  if(threw != (n <= 0)) V::fail("constructor rejects a non-positive dimension");
}
inline void boxqp_dispatch(BoxGoal g)
{
  std::string c = case_base();
  if(starts(c, "t_")) c = c.substr(2);
  if(c == "ctor") ctor();
  if(c == "f1") boxqp<1>(g);
  if(c == "f2") boxqp<2>(g);
  if(c == "d") boxqp<Eigen::Dynamic>(g);
}
} // namespace H
