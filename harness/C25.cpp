// C25: dumped trace files hold the trace data.
#include "same.hpp"
#include "text.hpp"
using namespace H;
using Table = std::vector<std::map<std::string, std::string>>;
static Table table(const std::string & path, const std::vector<std::string> & cols)
{
  if(!symx::files().count(path)) V::fail("trace file is written to the given path");
  auto r = rows_of(symx::files()[path]);
  if(r.empty()) V::fail("trace file has a header");
  for(auto & c : cols)
    if(std::count(r[0].begin(), r[0].end(), c) != 1) V::fail("trace file header names every quantity once");
  Table t;
  for(size_t i = 1; i < r.size(); i++)
  {
    if(r[i].size() != r[0].size()) V::fail("trace file rows have one value per column");
    std::map<std::string, std::string> m;
    for(size_t j = 0; j < r[0].size(); j++) m[r[0][j]] = r[i][j];
    t.push_back(m);
  }
  return t;
}
template<int SD, int ID>
void ddp()
{
  DdpFix<SD, ID> F;
  typename DdpFix<SD, ID>::Solver s(F.p);
  F.configure(s);
  typename DdpFix<SD, ID>::SV x0;
  fill("x0", x0);
  symx::files().clear();
  if(opt("first", 0)) s.dumpTraceDataList("/nowhere/a");
  auto ul = F.inputs("u", F.n);
  bool r = s.solve(F.t0, x0, ul);
  if(opt("twice", 0)) s.dumpTraceDataList("/nowhere/b");
  s.dumpTraceDataList("/nowhere/b");
  V::cover(r ? "success" : "not converged");
  std::vector<std::string> cols = {"iter", "cost", "lambda", "dlambda", "alpha", "k_rel_norm", "cost_update_actual", "cost_update_expected",
                                   "cost_update_ratio", "duration_derivative", "duration_backward", "duration_forward"};
  if(opt("first", 0) && !table("/nowhere/a", cols).empty()) V::fail("no rows before the first solve");
  Table t = table("/nowhere/b", cols);
  auto & tr = s.traceDataList();
  if(t.size() != tr.size()) V::fail("one row per trace entry");
  for(size_t i = 0; i < t.size(); i++)
  {
    auto w = [&](const char * n, const double & v) { written(std::string("dumped ") + n, t[i][n], v); };
    if(t[i]["iter"] != std::to_string(tr[i].iter)) V::fail("dumped iter");
    w("cost", tr[i].cost), w("lambda", tr[i].lambda), w("dlambda", tr[i].dlambda), w("alpha", tr[i].alpha), w("k_rel_norm", tr[i].k_rel_norm);
    w("cost_update_actual", tr[i].cost_update_actual), w("cost_update_expected", tr[i].cost_update_expected);
    w("cost_update_ratio", tr[i].cost_update_ratio);
    w("duration_derivative", tr[i].duration_derivative), w("duration_backward", tr[i].duration_backward);
    w("duration_forward", tr[i].duration_forward);
  }
}
template<int SD, int ID, int GD>
void fmpc()
{
  using F_ = FmpcFix<SD, ID, GD>;
  F_ F;
  typename F_::Solver s(F.p);
  F.configure(s, F.n);
  auto x0 = F.state("xc");
  auto v0 = F.variable("v", F.n);
  if(opt("zs", 0)) v0.s_list[0][0] = 0;
  symx::files().clear();
  if(opt("first", 0)) s.dumpTraceDataList("/nowhere/a");
  auto st = s.solve(F.t0, x0, v0);
  V::cover("status " + std::to_string((int)st));
  s.dumpTraceDataList("/nowhere/b");
  std::vector<std::string> cols = {"iter", "kkt_error", "duration_coeff", "duration_backward", "duration_forward", "duration_update"};
  if(opt("first", 0) && !table("/nowhere/a", cols).empty()) V::fail("no rows before the first solve");
  Table t = table("/nowhere/b", cols);
  auto & tr = s.traceDataList();
  if(t.size() != tr.size()) V::fail("one row per trace entry");
  for(size_t i = 0; i < t.size(); i++)
  {
    auto w = [&](const char * n, const double & v) { written(std::string("dumped ") + n, t[i][n], v); };
    if(t[i]["iter"] != std::to_string(tr[i].iter)) V::fail("dumped iter");
    w("kkt_error", tr[i].kkt_error), w("duration_coeff", tr[i].duration_coeff), w("duration_backward", tr[i].duration_backward);
    w("duration_forward", tr[i].duration_forward), w("duration_update", tr[i].duration_update);
  }
}
static void run()
{
  // a clock that advances irregularly, so that durations differ
  static long k;
  k = 0;
  symx::clock_hook = []() -> double {
    k += 1;
    return double(1000000) * (k * k + 7 * k % 13);
  };
  {
    DDP_DISPATCH(ddp);
  }
  {
    FMPC_DISPATCH(fmpc);
  }
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"s1u1.n=1.al=2.salt=2", "s1u1.n=1.it=2.al=1.salt=2", "s1u1.n=2.al=1.first=1", "s1u1.n=2.neg=3.al=1", "s1ud.n=3.dims=1.al=1.twice=1", "s1u1.n=1.it=0", "s1u1.n=1.al=1.lim=1.salt=2",
                         "x1u1g1.n=1", "x1u1g0.n=1.it=2", "x1u1g1.n=2.it=0.first=1", "x1u1g1.n=1.zs=1", "x1udgd.n=2.dims=1.gd=3.cx=1", "x1u1g0.n=1.thre=1"});
}
