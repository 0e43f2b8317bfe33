// C07: a used solver object behaves like a new one.
#include "same.hpp"
#include "gmres_ref.hpp"
#include <nmpc_cgmres/Gmres.h>
using namespace H;
// the next solve starts one step later
template<class P>
void shift(P & p, const double & dt, double & t)
{
  if(!opt("shift", 0)) return;
  t = t + dt;
  p.dims.erase(p.dims.begin());
  p.t0 = t;
}
template<int SD, int ID>
void ddp()
{
  DdpFix<SD, ID> F;
  typename DdpFix<SD, ID>::Solver used(F.p), fresh(F.p);
  F.configure(used);
  F.configure(fresh);
  typename DdpFix<SD, ID>::SV xa, xb;
  fill("ax0", xa);
  fill("bx0", xb);
  int n2 = opt("n2", F.n);
  for(int k = 0; k < opt("pre", 1); k++) used.solve(F.t0, xa, F.inputs(nm("a", k), F.n));
  used.config().horizon_steps = fresh.config().horizon_steps = n2;
  if(opt("exc", 0))
  {
    bool threw = false;
    try
    {
      used.solve(F.t0, xa, F.inputs("e", n2 + 1));
    }
    catch(const std::exception &)
    {
      threw = true;
    }
    if(!threw) V::fail("wrong length is rejected");
  }
  double t = F.t0;
  shift(*F.p, F.dt, t);
  auto ul = F.inputs("bu", n2);
  bool ra = used.solve(t, xb, ul), rb = fresh.solve(t, xb, ul);
  V::cover(ra ? "success" : "not converged");
  if(ra != rb) V::fail("used and new DDP solver: return value");
  same_ddp("used and new DDP solver", used, fresh);
}
template<int SD, int ID, int GD>
void fmpc()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver used(F.p), fresh(F.p);
  F.configure(used, F.n);
  F.configure(fresh, F.n);
  auto xa = F.state("xa"), xb = F.state("xb");
  int n2 = opt("n2", F.n);
  auto st0 = used.solve(F.t0, xa, F.variable("a", F.n, 2));
  (void)st0;
  used.config().horizon_steps = fresh.config().horizon_steps = n2;
  if(opt("exc", 0))
  {
    bool threw = false;
    try
    {
      used.solve(F.t0, xa, F.variable("e", n2 + 1));
    }
    catch(const std::exception &)
    {
      threw = true;
    }
    if(!threw) V::fail("wrong length is rejected");
  }
  shift(*F.p, F.dt, F.t0);
  if(opt("shift", 0)) F.p->gdims.erase(F.p->gdims.begin());
  auto v = F.variable("b", n2);
  auto sa = used.solve(F.t0, xb, v), sb = fresh.solve(F.t0, xb, v);
  V::cover("status " + std::to_string((int)sa));
  if((int)sa != (int)sb) V::fail("used and new FMPC solver: status");
  same_fmpc("used and new FMPC solver", used, fresh);
}
template<int D>
void qp()
{
  int n = D == Eigen::Dynamic ? opt("d", 2) : D;
  using QP = nmpc_ddp::BoxQP<D>;
  QP used(n), fresh(n);
  qp_config(used);
  qp_config(fresh);
  QpData<QP> a("a", n, 0), b("b", n, 1);
  a.solve(used);
  typename QP::VarDimVector x = b.solve(used), y = b.solve(fresh);
  V::cover("retval " + std::to_string(fresh.retval_));
  eq("used and new box-QP solver: solution", x, y);
  same_qp("used and new box-QP solver", used, fresh);
}
static void gm()
{
  nmpc_cgmres::Gmres used, fresh;
  used.make_triangular_ = fresh.make_triangular_ = opt("tri", 1);
  used.apply_reorth_ = fresh.apply_reorth_ = opt("reo", 1);
  auto make = [](const std::string & p, int n, int salt) {
    Sys s;
    s.A.resize(n, n);
    fill_num("A", s.A, salt);
    for(int i = 0; i < n; i++) s.A(i, i) += 4;
    s.b.resize(n);
    fill_num("b", s.b, salt);
    s.b[0] = V::input(p + "b");
    s.x0.resize(n);
    fill_num("x", s.x0, salt);
    return s;
  };
  Sys a = make("a", opt("d", 2), 0), b = make("b", opt("d2", 2), 1);
  Eigen::VectorXd xa = a.x0, x = b.x0, y = b.x0;
  auto go = [](nmpc_cgmres::Gmres & g, const Sys & s, Eigen::VectorXd & x, int k) {
    nmpc_cgmres::Gmres::AmulFunc f = [&](const Eigen::Ref<const Eigen::VectorXd> & v) -> Eigen::VectorXd { return mul(s.A, Vec(v)); };
    g.solve(f, Eigen::VectorXd(s.b), x, k, 1e-10);
  };
  go(used, a, xa, opt("k", 5));
  go(used, b, x, opt("k2", 5));
  go(fresh, b, y, opt("k2", 5));
  V::cover("gmres");
  eq("used and new GMRES solver: solution", x, y);
  if(used.err_list_.size() != fresh.err_list_.size()) V::fail("used and new GMRES solver: length of the error list");
  for(size_t i = 0; i < used.err_list_.size(); i++) V::require_eq("used and new GMRES solver: error list", used.err_list_[i], fresh.err_list_[i]);
}
static void run()
{
  {
    DDP_DISPATCH(ddp);
  }
  {
    FMPC_DISPATCH(fmpc);
    if(c_ == "q1") qp<1>();
    if(c_ == "q2") qp<2>();
    if(c_ == "qd") qp<D_>();
    if(c_ == "g") gm();
  }
}
int main(int argc, char ** argv)
{
  return symx::run_main(
      argc, argv, run,
      {"s1u1.n=1.al=2.salt=2",          "s1u1.n=2.n2=3.al=1",        "s1u1.n=3.n2=1.al=1",           "s2u1.n=1.n2=2.al=1",   "s1ud.n=3.n2=2.dims=1.al=1",
       "s1ud.n=2.n2=4.dims=2.al=1", "s2u2.n=1.al=1.it=2",       "s1u1.n=2.neg=3.al=1",          "s1u1.n=2.exc=1.al=1",  "s1u1.n=1.exc=1.pre=0.al=2.salt=2",
       "s1u1.n=2.n2=1.lim=1.al=1", "s1u1.n=1.it=2.al=1.cthre=1.salt=2", "s1u1.n=1.pre=2.al=1.salt=2",
       "x1u1g1.n=1",             "x1u1g0.n=2.n2=1",           "x1u1g0.n=1.n2=3",              "x1u1g1.n=1.n2=2.cx=1", "x2u2g1.n=1.cx=1",
       "x1udgd.n=2.n2=3.dims=1.gd=4.cx=1", "x1udgd.n=3.n2=1.dims=2.gd=4.cx=1", "x1u1g1.n=1.init=1.cx=1", "x1u1g1.n=1.ub=0.cx=1", "x1u1g1.n=1.exc=1.cx=1", "t_x1u1g0.n=1.ls=1.lm=1.cx=1.it=1",
       "s1ud.n=2.dims=1.al=1.shift=1", "s1ud.n=3.dims=3.al=1.shift=1", "x1udgd.n=2.dims=1.gd=4.cx=1.shift=1", "x1udg1.n=2.dims=3.cx=1.shift=1", "t_x2u1gd.n=2.gd=3.cx=1.shift=1", "q1",                     "q2.gs=1",                   "qd.d=2.gs=1",                  "t_qd.d=3.gs=1.mi=2",     "q2.gs=1.ind=1",        "q2.gs=1.ind=2",
       "g.d=2.d2=3",             "g.d=3.d2=2",                "g.d=3.d2=2.tri=0",             "g.d=2.d2=2.k=1",       "g.d=3.d2=3.k=3.k2=1"});
}
