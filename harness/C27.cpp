// C27: the clock and the print level do not influence results, and reported durations are consistent.
#include "same.hpp"
using namespace H;
static double g_now;
static int g_tick;
static double sym_clock()
{
  double d = V::input(nm("clk", g_tick++));
  V::assume(d >= 0);
  g_now = g_now + d;
  return g_now;
}
static double cnt_clock()
{
  return double(1000) * ++g_tick;
}
struct Clock
{
  Clock(bool sym)
  {
    g_now = V::input("clk_start");
    g_tick = 0;
    symx::clock_hook = sym ? sym_clock : cnt_clock;
  }
  ~Clock()
  {
    symx::clock_hook = nullptr;
  }
};
// silence what the code prints
struct Mute
{
  std::streambuf * b;
  std::ostringstream o;
  Mute() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Mute()
  {
    std::cout.rdbuf(b);
  }
};
static void part(const char * what, const double & a)
{
  V::require_le(std::string("durations are not negative: ") + what, 0, a);
}
template<int SD, int ID>
void ddp()
{
  DdpFix<SD, ID> F;
  typename DdpFix<SD, ID>::Solver a(F.p), b(F.p);
  F.configure(a);
  F.configure(b);
  static const int lv[] = {0, 1, 2, 3, 4};
  a.config().print_level = lv[V::choose("print", 5)];
  b.config().print_level = 0;
  typename DdpFix<SD, ID>::SV x0;
  fill("x0", x0);
  auto ul = F.inputs("u", F.n);
  bool ra, rb;
  {
    Mute m;
    Clock c(true);
    if(opt("twice", 0)) a.solve(F.t0, x0, ul); // durations of an earlier solve do not add up
    ra = a.solve(F.t0, x0, ul);
  }
  auto d = a.computationDuration();
  {
    Clock c(false);
    rb = b.solve(F.t0, x0, ul);
  }
  V::cover(ra ? "success" : "not converged");
  if(ra != rb) V::fail("clock and print level do not influence the return value");
  same_ddp("clock and print level do not influence the result", a, b);
  part("setup", d.setup), part("opt", d.opt), part("derivative", d.derivative), part("backward", d.backward), part("forward", d.forward);
  part("Q", d.Q), part("reg", d.reg), part("gain", d.gain);
  V::require_eq("solve duration = setup + optimisation", d.solve, d.setup + d.opt);
  V::require_le("derivative + backward + forward within optimisation", d.derivative + d.backward + d.forward, d.opt);
  V::require_le("Q + regularisation + gain within backward", d.Q + d.reg + d.gain, d.backward);
  double s1 = 0, s2 = 0, s3 = 0;
  for(auto & t : a.traceDataList())
  {
    part("trace", t.duration_derivative), part("trace", t.duration_backward), part("trace", t.duration_forward);
    s1 += t.duration_derivative, s2 += t.duration_backward, s3 += t.duration_forward;
  }
  V::require_eq("derivative duration is the sum over the trace", d.derivative, s1);
  V::require_eq("backward duration is the sum over the trace", d.backward, s2);
  V::require_eq("forward duration is the sum over the trace", d.forward, s3);
}
template<int SD, int ID, int GD>
void fmpc()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver a(F.p), b(F.p);
  F.configure(a, F.n);
  F.configure(b, F.n);
  static const int lv[] = {0, 1, 2, 3, 4};
  a.config().print_level = lv[V::choose("print", 5)];
  b.config().print_level = 0;
  auto x0 = F.state("xc");
  auto v0 = F.variable("v", F.n);
  if(opt("zs", 0)) v0.s_list[0][0] = 0;
  typename F_::Status sa, sb;
  {
    Mute m;
    Clock c(true);
    if(opt("twice", 0)) a.solve(F.t0, x0, v0);
    sa = a.solve(F.t0, x0, v0);
  }
  auto d = a.computationDuration();
  {
    Clock c(false);
    sb = b.solve(F.t0, x0, v0);
  }
  V::cover("status " + std::to_string((int)sa));
  if((int)sa != (int)sb) V::fail("clock and print level do not influence the status");
  same_fmpc("clock and print level do not influence the result", a, b);
  part("setup", d.setup), part("opt", d.opt), part("coeff", d.coeff), part("backward", d.backward), part("forward", d.forward), part("update", d.update);
  part("gain_pre", d.gain_pre), part("gain_solve", d.gain_solve), part("gain_post", d.gain_post), part("fraction", d.fraction);
  V::require_eq("solve duration = setup + optimisation", d.solve, d.setup + d.opt);
  V::require_le("coefficients + backward + forward + update within optimisation", d.coeff + d.backward + d.forward + d.update, d.opt);
  double s[4] = {0, 0, 0, 0};
  for(auto & t : a.traceDataList())
  {
    part("trace", t.duration_coeff), part("trace", t.duration_backward), part("trace", t.duration_forward), part("trace", t.duration_update);
    s[0] += t.duration_coeff, s[1] += t.duration_backward, s[2] += t.duration_forward, s[3] += t.duration_update;
  }
  if((int)sa == (int)F_::Status::MaxIterationReached || (int)sa == (int)F_::Status::Succeeded)
  {
    V::require_le("gains within backward", d.gain_pre + d.gain_solve + d.gain_post, d.backward);
    V::require_le("fraction rule within update", d.fraction, d.update);
    V::require_eq("coefficient duration is the sum over the trace", d.coeff, s[0]);
    V::require_eq("backward duration is the sum over the trace", d.backward, s[1]);
    V::require_eq("forward duration is the sum over the trace", d.forward, s[2]);
    V::require_eq("update duration is the sum over the trace", d.update, s[3]);
  }
}
static void run()
{
  {
    DDP_DISPATCH(ddp);
  }
  {
    FMPC_DISPATCH(fmpc);
  }
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s1u1.n=1.al=2.salt=2", "s1u1.n=2.al=1", "s1u1.n=2.neg=3.al=1", "s1u1.n=1.it=2.al=1.salt=2", "s1ud.n=3.dims=1.al=1", "s1u1.n=2.lim=1.al=1", "s1u1.n=1.al=1.twice=1.salt=2", "s1u1.n=1.it=0", "s2u2.n=1.al=1",
                         "x1u1g1.n=1", "x1u1g0.n=2", "x1udgd.n=2.dims=1.gd=4.cx=1", "x1u1g1.n=1.twice=1.cx=1", "x1u1g0.n=1.it=2", "x1u1g1.n=2.it=0", "x1u1g1.n=1.zs=1", "t_x1u1g0.n=1.ls=1.lm=1.cx=1", "x1u1g0.n=1.thre=1", "x2u2g1.n=1.cx=1", "x1u1g1.n=1.init=1.cx=1"});
}
