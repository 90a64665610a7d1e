// C11: Sturm sequences, root intervals, bisection and quadratic roots
#include "sx.h"
#include <vector>
#include <tuple>
#include <cassert>
#include "delfem2/polynomial_root.h"
namespace dfm2=delfem2; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("check_ms",10000); sx_opt("max_steps",3000000); sx_opt("steps_are_violation",1); }
SX_ENTRY(eval){ opt(); int n=1+sx_choose("n",6); double a[6],x=sx_real_in("x",-20,20),r=0,p=1; for(int i=0;i<n;i++){ a[i]=sx_real_in("a",-20,20); r+=a[i]*p; p*=x; } sx_eq(dfm2::Eval_Polynomial(x,a,n),r,"value of the polynomial"); }
// polynomial with the given real roots and an optional factor x^2+c without real roots
static int build(double*a,int nr,const double*r,double lead,double c){ int n=1; a[0]=lead; for(int i=0;i<nr;i++){ a[n]=0; for(int k=n;k>0;k--) a[k]=a[k-1]-r[i]*a[k]; a[0]=-r[i]*a[0]; n++; } if(c>0){ a[n]=a[n+1]=0; for(int k=n+1;k>=2;k--) a[k]=a[k-2]+c*a[k]; a[1]*=c; a[0]*=c; n+=2; } return n; }
static const double RT[5]={0.25,0.75,-1,1.5,0.5};
template<int N> static void sturm(){ opt(); int cpx=sx_choose("complex",N>=4?2:1); int nr=N-1-2*cpx; double r[6],lead=sx_choose("lead",2)?-2:1; int off=sx_choose("roots",N>=4&&!T?1:2); double s=sx_real_in("s",-3,3); r[0]=s; for(int i=1;i<nr;i++) r[i]=RT[(i-1+off*2)%5]; for(int i=1;i<nr;i++) sx_assume((s-r[i]>=0.0625)|(s-r[i]<=-0.0625)); double a[N]; int n=build(a,nr,r,lead,cpx?0.5:0); (void)n; double q[N][N]; dfm2::SturmSequenceOfPolynomial<N>(q,a); int w=sx_choose("range",T?3:N>=4?1:2); static const double X0[3]={0,-2,0.3},X1[3]={1,2.5,0.9}; double x0=X0[w],x1=X1[w]; int n0=dfm2::SturmNumber<N>(x0,q),n1=dfm2::SturmNumber<N>(x1,q); int ref=0; for(int i=0;i<nr;i++) if(sx_fork((r[i]>x0)&(r[i]<=x1))) ref++; sx_check(n0-n1==ref,"sign changes count the roots of the half-open range");
  if(N==3){ double u[3][3]; dfm2::SturmSequenceOfPolynomial_Quadratic((double(*)[3])u,a); sx_check(dfm2::SturmNumber<3>(x0,u)-dfm2::SturmNumber<3>(x1,u)==ref,"quadratic sequence counts the roots"); } if(N==4){ double u[4][4]; dfm2::SturmSequenceOfPolynomial_Cubic((double(*)[4])u,a); sx_check(dfm2::SturmNumber<4>(x0,u)-dfm2::SturmNumber<4>(x1,u)==ref,"cubic sequence counts the roots"); }
  auto iv=dfm2::RootInterval_SturmSequence<N>(x0,x1,q); sx_check((int)iv.size()==ref,"one interval per root"); for(auto&v:iv){ int c=0; for(int i=0;i<nr;i++) if(sx_fork((r[i]>v.first)&(r[i]<=v.second))) c++; sx_check(c==1&&v.first>=x0&&v.second<=x1,"each interval holds one root"); } for(size_t i=0;i<iv.size();i++) for(size_t j=0;j<i;j++) sx_check(iv[i].second<=iv[j].first||iv[j].second<=iv[i].first,"intervals do not overlap"); }
SX_ENTRY(sturm2){ sturm<2>(); }
SX_ENTRY(sturm3){ sturm<3>(); }
SX_ENTRY(sturm4){ sturm<4>(); }
SX_ENTRY(sturm5){ if(T) sturm<5>(); }
SX_ENTRY(sturm6){ if(T) sturm<6>(); }
// missing leading coefficients
SX_ENTRY(sturm_degenerate){ opt(); double s=sx_real_in("s",-3,3),r[2]={s,0.75}; int nr=1+sx_choose("nr",2); if(nr==2) sx_assume((s-0.75>=0.0625)|(s-0.75<=-0.0625)); double a[5]={0,0,0,0,0}; build(a,nr,r,-1.5,0); double q[5][5]; dfm2::SturmSequenceOfPolynomial<5>(q,a); int ref=0; for(int i=0;i<nr;i++) if(sx_fork((r[i]>0)&(r[i]<=1))) ref++; sx_check(dfm2::SturmNumber<5>(0.,q)-dfm2::SturmNumber<5>(1.,q)==ref,"lower-degree polynomial is counted"); }
SX_ENTRY(bisection){ opt(); int c=sx_choose("poly",4),it=sx_choose("it",T?6:4); double s=sx_real_in("s",0,1),r[3]={s,c==1?4.0:-0.5,2.0}; double a[6]; int n=build(a,c==0?1:c==3?3:2,r,c==2?-3:1,c==2?1:0); double y=dfm2::RootInInterval_Bisection(0,1,a,n,it); double w=1.0/(1<<it)+1e-9; sx_check((y-s<=w)&(s-y<=w),"bisection encloses the root"); }
SX_ENTRY(roots){ opt(); int c=sx_choose("poly",T?4:3),it=2; double s=sx_real_in("s",-0.5,1.5),r[3]={s,c==1?0.25:c==2?0.625:-2,c==3?0.75:3.0}; for(int i=1;i<3;i++) sx_assume((s-r[i]>=0.0625)|(s-r[i]<=-0.0625)); double a[4]; build(a,3,r,c==2?-1:1,0); auto y=dfm2::RootsOfPolynomial<4>(a,it); int ref=0; for(int i=0;i<3;i++) if(sx_fork((r[i]>0)&(r[i]<=1))){ ref++; bool f=false; for(double v:y) f=f|((v-r[i]<=0.25)&(r[i]-v<=0.25)); sx_check(f,"every root of (0,1] is found"); } sx_check((int)y.size()==ref,"as many results as roots"); }
SX_ENTRY(quadratic){ opt(); int k=sx_choose("a",4); static const double A[4]={0,1,-2,0.5}; double a=A[k],b=sx_real_in("b",-8,8),c=sx_real_in("c",-8,8); if(k==0) sx_assume((b>=0.125)|(b<=-0.125)); auto y=dfm2::RootsInRange_QuadraticPolynomial<double>(-1.0,2.0,a,b,c); for(double v:y){ sx_check((v>=-1)&(v<=2),"root is in the range"); double f=a*v*v+b*v+c; sx_check((f<=1e-9)&(f>=-1e-9),"result is a root"); } double t=sx_real_in("t",-1,2); sx_assume(a*t*t+b*t+c==0); bool f=false; for(double v:y) f=f|((v-t<=1e-9)&(t-v<=1e-9)); sx_check(f,"every root of the range is reported"); }
