// C12: two-phase simplex
#include "sx.h"
#include <iostream>
#include <vector>
#include "delfem2/lp.h"
namespace dfm2=delfem2; typedef dfm2::CLinPro LP; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("check_ms",10000); sx_opt("max_steps",3000000); sx_opt("steps_are_violation",1); }
static const double W[8][3]={{1,2,-1},{1,-1,0},{-1,1,2},{2,1,1},{0,1,-1},{-1,-1,1},{1,0,0},{-2,1,1}};
static const double C[5][3]={{1,1,0},{2,1,-1},{-1,-1,1},{1,-2,1},{0,0,0}};
static bool holds(LP::EQ_TYPE t,double s,double r,double e){ return t==LP::LE?(s<=r+e):t==LP::GE?(s>=r-e):((s<=r+e)&(s>=r-e)); }
// is there a direction along which the objective grows for ever (two unknowns)
static bool unbounded2(int n,const int*w,const LP::EQ_TYPE*t,const double*c){ double D[24][2]={{1,0},{0,1},{1,1}}; int m=3; for(int k=0;k<n;k++) for(int s=-1;s<=1;s+=2){ D[m][0]=s*W[w[k]][1]; D[m][1]=-s*W[w[k]][0]; m++; } for(int i=0;i<m;i++){ if(D[i][0]<0||D[i][1]<0) continue; bool ok=c[0]*D[i][0]+c[1]*D[i][1]>0; for(int k=0;k<n;k++) ok=ok&&holds(t[k],W[w[k]][0]*D[i][0]+W[w[k]][1]*D[i][1],0,0); if(ok) return true; } return false; }
static void run(int nv,int n,const int*w,const LP::EQ_TYPE*t,const double*r,const double*c){
  LP lp; for(int k=0;k<n;k++) lp.AddEqn(std::vector<double>(W[w[k]],W[w[k]]+nv),r[k],t[k]);
  int nitr=12; int res=lp.Precomp(nitr); if(nitr>=12){ sx_reach("iteration limit"); return; }
  double z[3]; for(int i=0;i<nv;i++) z[i]=sx_real_in(i==0?"z0":i==1?"z1":"z2",0,1000);
  if(res==3){ for(int k=0;k<n;k++){ double s=0; for(int i=0;i<nv;i++) s+=W[w[k]][i]*z[i]; sx_assume(holds(t[k],s,r[k],0)); } sx_check(false,"reported infeasible although a feasible point exists"); return; }
  sx_check(res==0,"first phase decides feasibility"); if(res!=0) return;
  std::vector<double> y=lp.GetValid(); sx_check((int)y.size()==nv,"feasible point size"); for(int i=0;i<nv;i++) sx_check(y[i]>=-1e-6,"feasible point is non-negative"); for(int k=0;k<n;k++){ double s=0; for(int i=0;i<nv;i++) s+=W[w[k]][i]*y[i]; sx_check(holds(t[k],s,r[k],1e-6),"feasible point satisfies the constraints"); }
  nitr=12; std::vector<double> x; double ov=0; int rs=lp.Solve(x,ov,nitr,std::vector<double>(c,c+nv)); if(nitr>=12){ sx_reach("iteration limit"); return; }
  if(rs==2){ if(nv==2) sx_check(unbounded2(n,w,t,c),"reported unbounded although the objective is bounded"); return; }
  sx_check(rs==0,"second phase result"); sx_check((int)x.size()==nv,"solution size"); double o=0; for(int i=0;i<nv;i++){ sx_check(x[i]>=-1e-6,"solution is non-negative"); o+=c[i]*x[i]; } for(int k=0;k<n;k++){ double s=0; for(int i=0;i<nv;i++) s+=W[w[k]][i]*x[i]; sx_check(holds(t[k],s,r[k],1e-6),"solution satisfies the constraints"); } sx_check((o-ov<=1e-6)&(ov-o<=1e-6),"optimal value is the objective at the solution");
  double oz=0; for(int k=0;k<n;k++){ double s=0; for(int i=0;i<nv;i++) s+=W[w[k]][i]*z[i]; sx_assume(holds(t[k],s,r[k],0)); } for(int i=0;i<nv;i++) oz+=c[i]*z[i]; sx_check(oz<=ov+1e-6,"no feasible point is better"); }
static const char*RN[3]={"r0","r1","r2"};
SX_ENTRY(lp2_rhs){ opt(); static const int S[4][3]={{0,1,2},{3,4,5},{0,7,6},{2,3,1}}; int s=sx_choose("sys",T?4:3),n=2+sx_choose("n",2); LP::EQ_TYPE t[3]; double r[3]; for(int k=0;k<n;k++){ t[k]=(LP::EQ_TYPE)sx_choose(k==0?"t0":k==1?"t1":"t2",3); r[k]=sx_real_in(RN[k],-4,4); } run(2,n,S[s],t,r,C[sx_choose("c",T?5:2)]); }
SX_ENTRY(lp1){ opt(); static const int S[1]={3}; LP::EQ_TYPE t[1]; t[0]=(LP::EQ_TYPE)sx_choose("t0",3); double r[1]={sx_grid("r0",-9,9)}; run(2,1,S,t,r,C[sx_choose("c",5)]); }
SX_ENTRY(lp2_obj){ opt(); static const int S[3][3]={{0,1,2},{3,4,6},{3,7,1}}; static const double R[3][3]={{4,1,2},{3,1,1},{5,1,-1}}; int s=sx_choose("sys",3); LP::EQ_TYPE t[3]={LP::LE,s==2?LP::GE:LP::LE,s==1?LP::EQ:LP::LE}; double c[2]={sx_grid("c0",-5,5),sx_grid("c1",-5,5)}; LP lp; for(int k=0;k<3;k++) lp.AddEqn(std::vector<double>(W[S[s][k]],W[S[s][k]]+2),R[s][k],t[k]); int nitr=12; sx_check(lp.Precomp(nitr)==0,"feasible"); std::vector<double> x; double ov; nitr=12; int rs=lp.Solve(x,ov,nitr,{c[0],c[1]}); sx_check(nitr<12,"terminates"); if(rs!=0){ sx_check(rs==2,"result code"); double D[24][2]={{1,0},{0,1},{1,1}}; int m=3; for(int k=0;k<3;k++) for(int q=-1;q<=1;q+=2){ D[m][0]=q*W[S[s][k]][1]; D[m][1]=-q*W[S[s][k]][0]; m++; } bool any=false; for(int i=0;i<m;i++){ bool ok=D[i][0]>=0&&D[i][1]>=0; for(int k=0;k<3;k++) ok=ok&&holds(t[k],W[S[s][k]][0]*D[i][0]+W[S[s][k]][1]*D[i][1],0,0); if(ok) any=any|(c[0]*D[i][0]+c[1]*D[i][1]>0); } sx_check(any,"unbounded only along a recession direction"); return; }
  double z[2]={sx_real_in("z0",0,1000),sx_real_in("z1",0,1000)}; for(int k=0;k<3;k++){ double a=W[S[s][k]][0],b=W[S[s][k]][1]; sx_check(holds(t[k],a*x[0]+b*x[1],R[s][k],1e-6),"solution satisfies the constraints"); sx_assume(holds(t[k],a*z[0]+b*z[1],R[s][k],0)); } sx_check((x[0]>=-1e-6)&(x[1]>=-1e-6),"solution is non-negative"); sx_check(c[0]*z[0]+c[1]*z[1]<=ov+1e-6,"no feasible point is better"); double o=c[0]*x[0]+c[1]*x[1]; sx_check((o-ov<=1e-6)&(ov-o<=1e-6),"optimal value is the objective at the solution"); }
SX_ENTRY(lp3_rhs){ opt(); static const int S[2][3]={{0,3,5},{2,7,1}}; int s=sx_choose("sys",T?2:1),n=T?2+sx_choose("n",2):2; LP::EQ_TYPE t[3]; double r[3]; for(int k=0;k<n;k++){ t[k]=(LP::EQ_TYPE)sx_choose(k==0?"t0":k==1?"t1":"t2",3); r[k]=sx_real_in(RN[k],-4,4); } run(3,n,S[s],t,r,C[sx_choose("c",T?4:2)]); }
