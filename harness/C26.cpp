// C26: fixed and dynamic dimensions give the same results.
#include "same.hpp"
using namespace H;
template<int SD, int ID>
void ddp()
{
  DdpFix<SD, ID> F;
  DdpFix<SD, Eigen::Dynamic> G;
  G.p->dims = std::vector<int>(16, ID);
  typename DdpFix<SD, ID>::Solver a(F.p);
  typename DdpFix<SD, Eigen::Dynamic>::Solver b(G.p);
  F.configure(a);
  G.configure(b);
  typename DdpFix<SD, ID>::SV x0;
  fill("x0", x0);
  auto ul = F.inputs("u", F.n);
  std::vector<typename DdpFix<SD, Eigen::Dynamic>::UV> ud(ul.begin(), ul.end());
  bool ra = a.solve(F.t0, x0, ul), rb = b.solve(F.t0, x0, ud);
  V::cover(ra ? "success" : "not converged");
  if(ra != rb) V::fail("fixed and dynamic DDP: return value");
  same_ddp("fixed and dynamic DDP", a, b);
}
template<int SD, int ID, int GD, int ID2, int GD2>
void fmpc()
{
  using FA = FmpcFix<SD, ID, GD>;
  using FB = FmpcFix<SD, ID2, GD2>;
  FA F;
  FB G;
  G.p->dims = std::vector<int>(16, ID);
  G.p->gdims = std::vector<int>(16, GD);
  typename FA::Solver a(F.p);
  typename FB::Solver b(G.p);
  F.configure(a, F.n);
  G.configure(b, F.n);
  auto x0 = F.state("xc");
  auto va = F.variable("v", F.n);
  auto vb = G.variable("v", F.n);
  auto sa = a.solve(F.t0, x0, va);
  auto sb = b.solve(F.t0, x0, vb);
  V::cover("status " + std::to_string((int)sa));
  if((int)sa != (int)sb) V::fail("fixed and dynamic FMPC: status");
  same_fmpc("fixed and dynamic FMPC", a, b);
}
template<int D>
void qp()
{
  using A = nmpc_ddp::BoxQP<D>;
  using B = nmpc_ddp::BoxQP<Eigen::Dynamic>;
  A a;
  B b(D);
  qp_config(a);
  qp_config(b);
  QpData<A> pa("p", D, 0);
  QpData<B> pb("p", D, 0);
  Eigen::VectorXd x = pa.solve(a), y = pb.solve(b);
  V::cover("retval " + std::to_string(a.retval_));
  eq("fixed and dynamic box QP: solution", x, y);
  same_qp("fixed and dynamic box QP", a, b);
}
static void run()
{
  std::string c = case_base();
  if(starts(c, "t_")) c = c.substr(2);
  constexpr int D = Eigen::Dynamic;
  if(c == "s1u1") ddp<1, 1>();
  if(c == "s2u1") ddp<2, 1>();
  if(c == "s1u2") ddp<1, 2>();
  if(c == "s1u0") ddp<1, 0>();
  if(c == "a111dd") fmpc<1, 1, 1, D, D>();
  if(c == "a1111d") fmpc<1, 1, 1, 1, D>();
  if(c == "a111d1") fmpc<1, 1, 1, D, 1>();
  if(c == "a110dd") fmpc<1, 1, 0, D, D>();
  if(c == "a1101d") fmpc<1, 1, 0, 1, D>();
  if(c == "a212dd") fmpc<2, 1, 2, D, D>();
  if(c == "a101dd") fmpc<1, 0, 1, D, D>();
  if(c == "q1") qp<1>();
  if(c == "q2") qp<2>();
  if(c == "q3") qp<3>();
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s1u1.n=2.al=2", "s1u1.n=1.ufd=1.al=1", "s1u1.n=3.al=1.reg=2", "s2u1.n=2.al=1", "s1u2.n=2.al=1", "s1u0.n=2.al=1", "s1u1.n=2.neg=3.al=1", "s1u1.n=2.lim=1.al=1", "s1u2.n=1.lim=1.al=1", "s1u1.n=1.it=2.al=1.salt=2",
                         "a111dd.n=2.cx=1", "a111dd.n=1", "a1111d.n=2.cx=1", "a111d1.n=2.cx=1", "a110dd.n=3", "a1101d.n=2", "a212dd.n=1.cx=1", "a101dd.n=2", "t_a111dd.n=2.init=1.cx=1", "t_a111dd.n=1.ls=1.lm=1.cx=1.it=1", "t_a1101d.n=1.ls=1.cx=1.it=1",
                         "q1", "q2.gs=1", "q3.gs=1.mi=2", "q2.gs=1.ind=1"});
}
