// C24: run() is the closed loop of the plant simulation and the input update, and logs it.
#include "cgmres.hpp"
#include "text.hpp"
using namespace H;
static void run()
{
  CgFix F;
  auto & p = *F.p;
  bool sep = opt("sep", 0);
  auto s = F.solver(sep);
  int steps = opt("st", 2);
  double frac = opt("frac", 0) ? F.dt / 2 : double(0);
  s->sim_duration_ = F.dt * steps + frac;
  s->dump_step_ = opt("dump", 1);
  if(!p.lin)
  {
    // start from a stationary input (otherwise setup() iterates, see C23)
    Vec xi = p.x_initial_;
    Vec g = p.h(0, xi, Vec(p.u_initial_), p.p(0, xi));
    for(int i = 0; i < F.nu; i++) V::assume(g[i] == 0);
  }
  symx::files().clear();
  if(opt("again", 0)) s->run();
  // the reference: setup, then plant step and input update in turn, with a second solver object
  auto r = F.solver();
  r->setup();
  Vec x = p.x_initial_;
  Eigen::VectorXd u = r->u_;
  struct Row
  {
    double t;
    Vec x, u;
    double e2;
  };
  std::vector<Row> log;
  for(int k = 0; k <= steps; k++)
  {
    double t = k * F.dt;
    Vec uu = u;
    auto f = [&](const double & q, const Vec & y) { return p.f(q, y, uu); };
    bool rk = sep ? F.simrk : F.rk;
    Vec xn = rk ? rk4(f, t, x, F.dt) : euler(f, t, x, F.dt);
    Mat U = r->u_list_;
    double e2 = sq(flat(F.F(t, x, U)));
    r->calcControlInput(t, x, xn, u);
    for(int i = 0; i < F.nu; i++)
      if(!V::finite(u[i])) V::stop_path(); // singular continuation equation
    x = xn;
    if(k % opt("dump", 1) == 0) log.push_back({t, x, u, e2});
  }
  s->run();
  V::cover("ran");
  eq("final state of the closed loop", s->x_, x);
  eq("final input of the closed loop", s->u_, u);
  auto fx = rows_of(symx::files()["/tmp/cgmres_x.dat"]), fu = rows_of(symx::files()["/tmp/cgmres_u.dat"]),
       fe = rows_of(symx::files()["/tmp/cgmres_err.dat"]);
  if(fx.size() != log.size() || fu.size() != log.size() || fe.size() != log.size()) V::fail("one log row per dump_step_ steps");
  for(size_t k = 0; k < log.size(); k++)
  {
    if((int)fx[k].size() != 1 + F.nx || (int)fu[k].size() != 1 + F.nu || fe[k].size() != 2) V::fail("columns of the log rows");
    written("logged time", fx[k][0], log[k].t);
    written("logged time", fu[k][0], log[k].t);
    written("logged time", fe[k][0], log[k].t);
    for(int i = 0; i < F.nx; i++) written("logged state", fx[k][1 + i], log[k].x[i]);
    for(int i = 0; i < F.nu; i++) written("logged input", fu[k][1 + i], log[k].u[i]);
    written("logged optimality error", fe[k][1], std::sqrt(log[k].e2));
  }
  std::string param = symx::files()["/tmp/cgmres_param.dat"];
  if(param.find("\"log_dt\"") == std::string::npos || param.find("\"state_eq_param\"") == std::string::npos || param[0] != '{') V::fail("parameter file");
}
int main(int argc, char ** argv)
{
  return symx::run_main(argc, argv, run,
                        {"r.n=1.st=0", "r.n=1.st=1", "r.n=1.st=1.frac=1", "r.n=1.st=2.lin=1.co=1.cui=1", "r.n=1.st=1.sep=1.srk=1", "r.n=1.st=1.rk=1", "r.n=1.st=3.dump=2.lin=1.co=1.cui=1.cxi=1", "r.n=2.st=1.lin=1.co=1.cui=1.cxi=1.x=2",
                         "r.n=1.st=0.again=1", "r.n=1.st=1.r=1.x=2", "r.n=1.st=0.sp=1"});
}
