// C03: each DDP iteration applies the documented iLQR update law.
#include "ddp_law.hpp"
static void run()
{
  H::law_dispatch(H::LAW);
}
int main(int argc, char ** argv)
{
  return symx::run_main(
      argc, argv, run,
      {"s1u1.n=1.al=1.ufd=1", "t_s1u1.n=2.al=1.ufd=1", "s1u1.n=2.al=1.ufd=2", "s1u1.n=3.al=1.ufd=2.cu=1", "s2u1.n=2.al=1.ufd=2", "t_s2u2.n=2.al=1.ufd=2", "s1ud.n=3.al=1.dims=1.ufd=2", "s1u1.n=2.it=2.al=1.ufd=2.cu=1", "s2u1.n=1.it=2.al=2.ufd=2", "s1u1.n=3.al=2", "s2u1.n=2.al=2.asym=1", "s2u2.n=2.al=2.reg=2", "s2u2.n=3.al=1.reg=1",
       "s2u2.n=2.al=1.reg=0", "s1u2.n=3.al=1.reg=2", "s3u2.n=2.al=1", "s1ud.n=4.al=1.dims=1", "s2ud.n=3.al=2.dims=3.reg=2",
       "s1ud.n=3.al=2.dims=2", "s1u1.n=2.it=2.al=1", "s2u1.n=1.it=3.al=1", "s1u1.n=2.neg=4.at=1.lm=8", "s1u1.n=2.neg=4.at=0.lm=8.reg=2",
       "s2u2.n=2.neg=6.at=1.lm=8.it=1.al=1", "s1u1.n=3.al=1.lim=1", "s1u1.n=3.al=2.lim=1.salt=3.reg=2", "s2u1.n=2.lim=1.al=1.salt=1", "s2u2.n=2.lim=1.al=1.salt=6", "s2u2.n=2.lim=1.al=1.reg=2.salt=9", "s2u2.n=3.lim=1.al=1.salt=1", "s1u2.n=2.lim=1.al=1.salt=6.re=1.n2=3", "t_s2u2.n=2.lim=1.al=2.it=2.salt=6",
       "s1ud.n=3.al=1.lim=1.dims=2", "s1u1.n=2.re=1.n2=3.al=1", "s2ud.n=3.dims=1.re=1.n2=2.al=1", "s1u1.n=6.al=1.cu=1",
       "t_s2u1.n=1.al=11.defal=1.cu=1", "s3u2.n=6.al=2.cu=1.rst=2", "s1u1.n=12.al=2.cu=1.rst=3", "s1u1.n=4.it=2.al=1.cu=1.rst=3", "s2ud.n=4.dims=1.it=2.al=1.cu=1.rst=2", "s2ud.n=8.dims=1.al=2.cu=1.rst=3", "s2u2.n=5.neg=5.at=2.lm=64.al=1.cu=1.rst=2", "s1u1.n=2.kthre=2.al=1", "s1u1.n=1.al=1.lsym=1.neg=4.salt=2", "s1u1.n=2.al=2.rsym=1.lam0=1"});
}
