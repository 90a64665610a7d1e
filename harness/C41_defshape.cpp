// C41: Laplacian and as-rigid-as-possible shape deformation operators
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstring>
#include <cstdint>
#include <vector>
#include <set>
#include <array>
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <functional>
#include <random>
#include <stack>
#include <map>
#include <utility>
#define private public
#include "delfem2/deflap.h"
#include "delfem2/defarap.h"
#include "delfem2/defarapenergy_geo3.h"
#undef private
#include "delfem2/jagarray.h"
#include "delfem2/msh_topology_uniform.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef dfm2::CVec3d V3; typedef std::vector<double> VD; typedef std::vector<U> VU; typedef std::vector<int> VI;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",7); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); sx_opt("max_steps",6000000); sx_opt("steps_are_violation",1); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); }
struct M{ VD X; VU t; U n; std::vector<std::set<U>> nb; };
static M mesh(int k){ M m; if(k==0){ m.X={0,0,0, 1,0,0.2, 0.1,1,0, 0.3,0.2,1}; m.t={0,2,1, 0,1,3, 1,2,3, 2,0,3}; } else if(k==1){ m.X={0,0,0, 1,0,0.3, 1.2,1,0, 0,1,0.5}; m.t={0,1,2, 0,2,3}; } else { m.X={0,0,0.4, 1,0,0, 0.2,1,0, -1,0.1,0.3, 0,-1,0.2}; m.t={0,1,2, 0,2,3, 0,3,4}; }
  m.n=m.X.size()/3; m.nb.resize(m.n); for(U i=0;i<m.t.size();i++) for(int d=1;d<3;d++) m.nb[m.t[i]].insert(m.t[i/3*3+(i+d)%3]); return m; }
static VD sym(const char*nm,U n,double lo=-2,double hi=2){ VD v; for(U i=0;i<n;i++) v.push_back(sx_real_in(NM(nm,i),lo,hi)); return v; }
static VD Lap(const M&m,const VD&x){ VD r(m.n*3,0); for(U i=0;i<m.n;i++) for(int d=0;d<3;d++){ r[i*3+d]=x[i*3+d]*m.nb[i].size(); for(U j:m.nb[i]) r[i*3+d]-=x[j*3+d]; } return r; } // the graph Laplacian is symmetric
static VI bcs(const M&m,int k){ VI f(m.n*3,0); if(k>=1) f[0]=f[1]=f[2]=1; if(k==2){ f[3*1+1]=1; f[3*2+0]=1; f[3*2+2]=1; f[3*3+1]=1; } return f; }
static V3 nrm(int k){ static const double N[3][3]={{0,0,1},{0.6,0,0.8},{2./7,3./7,6./7}}; return V3(N[k]); }
// energy 1/2|L u|^2 + penalties : reference operator
static VD refop(const M&m,const VD&x,const VI&bc,double wbc,const std::vector<std::pair<U,V3>>&nr,double wn){ VD y=Lap(m,Lap(m,x)); for(U i=0;i<bc.size();i++) if(bc[i]) y[i]+=wbc*x[i]; for(auto&p:nr){ double d=0; for(int k=0;k<3;k++) d+=p.second.p[k]*x[p.first*3+k]; for(int k=0;k<3;k++) y[p.first*3+k]+=wn*d*p.second.p[k]; } return y; }
template<class D> static void chk_op(const D&d,const VD&ref,const VD&x,const char*l){ U n=x.size(); double a=sx_real_in("alpha",-2,2),b=sx_real_in("beta",-2,2); VD y=sym("y",n),y0=y; d.MatVec(y.data(),a,x.data(),b); for(U i=0;i<n;i++) sx_eq(y[i],b*y0[i]+a*ref[i],l); }
template<class D> static void addn(D&d,std::vector<std::pair<U,V3>>&nr){ int k=sx_choose("slide",T?4:3); if(k>0){ nr.push_back({1,nrm(k-1)}); if(k==2) nr.push_back({3,nrm(2)}); } for(auto&p:nr) d.aIdpNrm.push_back({p.first,p.second}); }
SX_ENTRY(lap_linear){ optl(); M m=mesh(sx_choose("mesh",3)); dfm2::CDef_LaplacianLinear d; d.Init(m.X,m.t,false); VI bc=bcs(m,sx_choose("bc",3)); sx_check(d.aBCFlag.size()==m.n*3,"one flag per degree of freedom"); d.aBCFlag=bc; d.weight_bc=37; d.weight_nrm=11; std::vector<std::pair<U,V3>> nr; addn(d,nr); VD x=sym("x",m.n*3); VD r=Lap(m,Lap(m,m.X)); for(U i=0;i<m.n*3;i++) sx_eq(d.aRes0[i],-r[i],"rest residual of the bi-Laplacian energy"); chk_op(d,refop(m,x,bc,37,nr,11),x,"operator of the bi-Laplacian energy with penalties"); }
SX_ENTRY(lap_degenerate){ optl(); M m=mesh(sx_choose("mesh",3)); dfm2::CDef_LaplacianLinearDegenerate d; d.Init(m.X,m.t,false); VI bc=bcs(m,sx_choose("bc",3)); sx_check(d.aBCFlag.size()==m.n*3,"one flag per degree of freedom"); d.aBCFlag=bc; d.weight_bc=37; d.weight_nrm=11; std::vector<std::pair<U,V3>> nr; addn(d,nr); VD x=sym("x",m.n*3); VD r=Lap(m,Lap(m,m.X)); for(U i=0;i<m.n*3;i++) sx_eq(d.aRes0[i],-r[i],"rest residual of the bi-Laplacian energy"); chk_op(d,refop(m,x,bc,37,nr,11),x,"operator of the bi-Laplacian energy with penalties"); }
SX_ENTRY(lap_gram){ optl(); M m=mesh(sx_choose("mesh",3)); dfm2::CDef_LaplacianLinearGram d; d.Init(m.X,m.t,false); VI bc=bcs(m,sx_choose("bc",3)); d.aBCFlag=bc; d.weight_bc=37; d.vec_tmp2.resize(m.n*3); VD x=sym("x",m.n*3); VD r=Lap(m,m.X); for(U i=0;i<m.n*3;i++) sx_eq(d.aRes0[i],-r[i],"rest Laplacian"); chk_op(d,refop(m,x,bc,37,{},0),x,"operator of the bi-Laplacian energy with penalties"); }
// the Jacobi preconditioners invert the diagonal blocks of the operator
template<class D> static void chk_jac(const D&d,const VD&x,const std::function<VD(const VD&)>&op,U nb){ VD v=x; for(U b=0;b<nb;b++){ VD e(nb*3,0); for(int k=0;k<3;k++) e[b*3+k]=x[b*3+k]; VD y=op(e); for(int k=0;k<3;k++) v[b*3+k]=y[b*3+k]; } d.SolvePrecond(v.data()); for(U i=0;i<nb*3;i++) sx_eq(v[i],x[i],"preconditioner inverts the diagonal blocks"); }
SX_ENTRY(lap_precond){ optl(); M m=mesh(sx_choose("mesh",3)); VI bc=bcs(m,sx_choose("bc",3)); int k=sx_choose("kind",2); VD x=sym("x",m.n*3); if(k==0){ dfm2::CDef_LaplacianLinearGram d; d.Init(m.X,m.t,true); d.aBCFlag=bc; d.weight_bc=37; d.SetBoundaryConditionToPreconditioner(); chk_jac(d,x,[&](const VD&e){ return refop(m,e,bc,37,{},0); },m.n); } else { dfm2::CDef_LaplacianLinearDegenerate d; d.Init(m.X,m.t,true); d.aBCFlag=bc; d.weight_bc=37; d.weight_nrm=11; std::vector<std::pair<U,V3>> nr; addn(d,nr); d.SetBoundaryConditionToPreconditioner(); chk_jac(d,x,[&](const VD&e){ return refop(m,e,bc,37,nr,11); },m.n); } }
// with full fill the incomplete factorisation solves the system, and building it leaves the operator alone
SX_ENTRY(lap_ilu){ optl(); M m=mesh(sx_choose("mesh",3)); VI bc=bcs(m,1+sx_choose("bc",2)); dfm2::CDef_LaplacianLinear d; d.Init(m.X,m.t,true); d.aBCFlag=bc; d.weight_bc=37; d.weight_nrm=11; std::vector<std::pair<U,V3>> nr; addn(d,nr); for(int rep=0;rep<2;rep++) d.SetValueToPreconditioner(); VD x=sym("x",m.n*3),ref=refop(m,x,bc,37,nr,11); VD y(m.n*3,0); d.MatVec(y.data(),1,x.data(),0); for(U i=0;i<m.n*3;i++) sx_eq(y[i],ref[i],"building the preconditioner keeps the operator"); VD v=ref; d.Prec.SolvePrecond(v.data()); for(U i=0;i<m.n*3;i++) sx_eq(v[i],x[i],"preconditioner with full fill solves the system"); }
// the deformed shape minimises the energy (one step of the preconditioned solver with an exact factorisation)
SX_ENTRY(lap_deform){ optl(); M m=mesh(sx_choose("mesh",3)); VI bc=bcs(m,1+sx_choose("bc",2)); dfm2::CDef_LaplacianLinear d; d.Init(m.X,m.t,true); d.aBCFlag=bc; d.weight_bc=37; d.weight_nrm=11; std::vector<std::pair<U,V3>> nr; addn(d,nr); d.SetValueToPreconditioner(); double s=sx_real_in("s",0.5,1.5); VD x1=m.X; int k=sx_choose("dir",2); x1[k==0?0:1]+=s; x1[k==0?3*2+2:3*3]-=s*0.5; if(k) x1[3*1+1]+=s; VD b=x1; d.Deform(x1,m.X); VD u(m.n*3),w(m.n*3); for(U i=0;i<m.n*3;i++){ u[i]=x1[i]-b[i]; w[i]=b[i]-m.X[i]; } VD A=refop(m,u,bc,37,nr,11),g=Lap(m,Lap(m,w)); for(U i=0;i<m.n*3;i++) sx_eq(A[i],-g[i],"stationary point of the energy with the given positions as targets"); }
static void quat(double*q,int k,double c,double s){ static const double A[3][3]={{0,0,1},{0.6,0,0.8},{2./7,3./7,6./7}}; for(int i=0;i<3;i++) q[i]=A[k][i]*s; q[3]=c; }
static void unit(double&c,double&s,const char*nm){ double t=sx_real_in(nm,-1,1); double d=1+t*t; c=(1-t*t)/d; s=2*t/d; }
static V3 rq(const double*q,const V3&v){ V3 u(q); V3 t=u.cross(v)*2.0; return v+t*q[3]+u.cross(t); }
static const double QF[4][4]={{0,0,0,1},{0.6,0,0,0.8},{0.5,-0.5,0.5,0.5},{2./7,3./7,-6./7,0}};
static V3 P(const VD&x,U i){ return V3(x.data()+3*i); }
static void topo(const M&m,VU&pi,VU&p){ pi.assign(1,0); for(U i=0;i<m.n;i++){ for(U j:m.nb[i]) p.push_back(j); pi.push_back(p.size()); } }
SX_ENTRY(arap_energy){ optl(); sx_opt("max_ite",0); M m=mesh(sx_choose("mesh",3)); VU pi,p; topo(m,pi,p); VD x=sym("x",m.n*3); VD q; int k=sx_choose("q",T?4:3); for(U i=0;i<m.n;i++) for(int j=0;j<4;j++) q.push_back(QF[(i+k)%4][j]); double w=dfm2::W_ArapEnergy(m.X,x,q,pi,p); double e=0; VD g(m.n*3,0); for(U i=0;i<m.n;i++) for(U j:m.nb[i]){ V3 r=rq(q.data()+4*i,P(m.X,j)-P(m.X,i))-(P(x,j)-P(x,i)); e+=0.5*r.dot(r); for(int a=0;a<3;a++){ g[3*i+a]+=r.p[a]; g[3*j+a]-=r.p[a]; } } sx_eq(w,e,"energy is the squared edge mismatch"); VD d; dfm2::dW_ArapEnergy(d,m.X,x,q,pi,p); sx_check(d.size()==m.n*3,"one force per vertex"); for(U i=0;i<m.n*3;i++) sx_eq(d[i],g[i],"force is the derivative of the energy"); if(!sx_native()) for(U i=0;i<m.n*3;i+=T?1:5) sx_eq(sx_d(w,x[i]),d[i],"force is the derivative of the energy"); }
// Hessian of the energy minimised over the rotation at a vertex: value, symmetry
SX_ENTRY(arap_hessian){ optl(); sx_opt("max_ite",0); M m=mesh(sx_choose("mesh",2)); U ip=sx_choose("vertex",T?4:3); if(m.nb[ip].size()<2) return; VU ips(m.nb[ip].begin(),m.nb[ip].end()); ips.push_back(ip); U n=ips.size(); VD q; int k=sx_choose("q",T?4:3); for(U i=0;i<m.n;i++) for(int j=0;j<4;j++) q.push_back(QF[(i+k)%4][j]); VD eM; dfm2::ddW_ArapEnergy(eM,ips,m.X,q); sx_check(eM.size()==n*n*9,"size of the Hessian"); for(U a=0;a<n;a++) for(U b=0;b<n;b++) for(int i=0;i<3;i++) for(int j=0;j<3;j++) sx_eq(eM[(a*n+b)*9+i*3+j],eM[(b*n+a)*9+j*3+i],"symmetric Hessian");
  VD u=sym("u",n*3,-1,1); double uu=0; VD Hu(n*3,0); for(U a=0;a<n;a++) for(U b=0;b<n;b++) for(int i=0;i<3;i++) for(int j=0;j<3;j++) Hu[a*3+i]+=eM[(a*n+b)*9+i*3+j]*u[b*3+j]; for(U i=0;i<n*3;i++) uu+=Hu[i]*u[i];
  std::vector<V3> v; double A[9]={0,0,0,0,0,0,0,0,0}; V3 rhs(0,0,0); for(U a=0;a+1<n;a++){ V3 r=rq(q.data()+4*ip,P(m.X,ips[a])-P(m.X,ip)); v.push_back(r); V3 d=P(u,a)-P(u,n-1); rhs=rhs+r.cross(d); double rr=r.dot(r); for(int i=0;i<3;i++) for(int j=0;j<3;j++) A[i*3+j]+=(i==j?rr:0)-r.p[i]*r.p[j]; }
  double D=A[0]*(A[4]*A[8]-A[5]*A[7])-A[1]*(A[3]*A[8]-A[5]*A[6])+A[2]*(A[3]*A[7]-A[4]*A[6]); V3 w; for(int i=0;i<3;i++){ double B[9]; for(int j=0;j<9;j++) B[j]=A[j]; for(int j=0;j<3;j++) B[j*3+i]=rhs.p[j]; w.p[i]=(B[0]*(B[4]*B[8]-B[5]*B[7])-B[1]*(B[3]*B[8]-B[5]*B[6])+B[2]*(B[3]*B[7]-B[4]*B[6]))/D; }
  double e=0; for(U a=0;a+1<n;a++){ V3 r=P(u,a)-P(u,n-1)-w.cross(v[a]); e+=r.dot(r); } sx_eq(uu,e,"Hessian of the energy with the rotation eliminated"); }
// the assembled Newton system of the deformer
SX_ENTRY(arap_newton){ optl(); sx_opt("max_ite",0); M m=mesh(sx_choose("mesh",2)); VU pi,p; topo(m,pi,p); dfm2::Deformer_Arap d; d.Init(m.X,m.t,false); VD x=sym("x",m.n*3); VD q; int k=sx_choose("q",T?4:3); for(U i=0;i<m.n;i++) for(int j=0;j<4;j++) q.push_back(QF[(i+k)%4][j]); VD g; dfm2::dW_ArapEnergy(g,m.X,x,q,pi,p); VD s(m.n*3,0); for(U ip=0;ip<m.n;ip++){ VU ips(m.nb[ip].begin(),m.nb[ip].end()); ips.push_back(ip); VD eM,eR,e2; dfm2::deflap::dWddW_ArapEnergy(eM,eR,d.precomp_.data()+9*ip,ips,m.X,x,q); dfm2::ddW_ArapEnergy(e2,ips,m.X,q); sx_check(eM.size()==e2.size()&&eR.size()==ips.size()*3,"element sizes"); for(U i=0;i<eM.size();i++) sx_eq(eM[i],e2[i],"element Hessian"); for(U a=0;a<ips.size();a++) for(int i=0;i<3;i++) s[ips[a]*3+i]+=eR[a*3+i]; } for(U i=0;i<m.n*3;i++) sx_eq(s[i],g[i],"element residuals sum to the force"); }
// a rigid motion is a fixed point of every deformer and of the rotation update
SX_ENTRY(arap_rigid){ opt(); M m=mesh(sx_choose("mesh",2)); double c,s; unit(c,s,"t"); double q4[4]; quat(q4,sx_choose("axis",T?3:2),c,s); double tx=sx_real_in("tx",-3,3); VD x1,q; for(U i=0;i<m.n;i++){ V3 r=rq(q4,P(m.X,i)); x1.push_back(r.p[0]+tx); x1.push_back(r.p[1]-2*tx); x1.push_back(r.p[2]+1); for(int j=0;j<4;j++) q.push_back(q4[j]); } VD b=x1,bq=q; VI bc=bcs(m,sx_choose("bc",3)); VU pi,p; topo(m,pi,p); int k=sx_choose("kind",T?4:3);
  if(k==0){ dfm2::UpdateRotationsByMatchingCluster_Linear(q,m.X,x1,pi,p); } else if(k==1){ dfm2::CDef_ArapEdge d; d.Init(m.X,m.t,37,bc,false); d.Deform(x1,q,m.X); } else if(k==2){ dfm2::Deformer_Arap2 d; d.Init(m.X,m.t,q,bc); d.Deform(x1,q,m.X,bc); } else { dfm2::Deformer_Arap d; d.Init(m.X,m.t,false); d.Deform(x1,q,m.X,bc); }
  for(U i=0;i<m.n*3;i++) sx_eq(x1[i],b[i],"a rigid motion is kept"); for(U i=0;i<m.n;i++){ for(int a=0;a<4;a++) for(int e=0;e<a;e++) sx_eq(q[4*i+a]*bq[4*i+e],q[4*i+e]*bq[4*i+a],"rotations of a rigid motion are kept"); } }
// edge based deformers: operator J^T J with penalties, right hand side -J^T r, block Jacobi preconditioner
SX_ENTRY(edge_disp){ optl(); M m=mesh(sx_choose("mesh",3)); VI bc=bcs(m,sx_choose("bc",3)); dfm2::CDef_ArapEdgeLinearDisponly d(m.X,m.t,37,bc); VD x=sym("x",m.n*3),r=Lap(m,x); for(U i=0;i<m.n*3;i++){ r[i]*=2; if(bc[i]) r[i]+=37*x[i]; } chk_op(d,r,x,"operator of the edge energy with penalties"); VD rhs(m.n*3,7); d.MakeLinearSystem(rhs.data(),m.X.data(),x.data()); VD u(m.n*3); for(U i=0;i<m.n*3;i++) u[i]=m.X[i]-x[i]; VD g=Lap(m,u); for(U i=0;i<m.n*3;i++) sx_eq(rhs[i],2*g[i],"right hand side is the descent direction of the edge energy"); }
SX_ENTRY(edge_arap){ optl(); sx_opt("max_ite",0); M m=mesh(sx_choose("mesh",T?3:2)); VI bc=bcs(m,sx_choose("bc",3)); U n=m.n; dfm2::CDef_ArapEdge d; d.Init(m.X,m.t,37,bc,true); VD q; int k=sx_choose("q",T?4:2); for(U i=0;i<n;i++) for(int j=0;j<4;j++) q.push_back(QF[(i+k)%4][j]); VD x1=sym("p",n*3); VD rhs(n*6,7); d.MakeLinearSystem(rhs.data(),m.X.data(),x1.data(),q.data());
  auto op=[&](const VD&v){ VD y(n*6,0); for(U i=0;i<n;i++) for(U j:m.nb[i]){ V3 R=rq(q.data()+4*i,P(m.X,j)-P(m.X,i)); V3 e=P(v,i)-P(v,j)+P(v,n+i).cross(R); V3 t=R.cross(e); for(int a=0;a<3;a++){ y[3*i+a]+=e.p[a]; y[3*j+a]-=e.p[a]; y[3*(n+i)+a]+=t.p[a]; } } for(U i=0;i<n*3;i++) if(bc[i]) y[i]+=37*v[i]; return y; };
  VD g(n*6,0); for(U i=0;i<n;i++) for(U j:m.nb[i]){ V3 R=rq(q.data()+4*i,P(m.X,j)-P(m.X,i)); V3 e=R-(P(x1,j)-P(x1,i)); V3 t=R.cross(e); for(int a=0;a<3;a++){ g[3*i+a]-=e.p[a]; g[3*j+a]+=e.p[a]; g[3*(n+i)+a]-=t.p[a]; } } for(U i=0;i<n*6;i++) sx_eq(rhs[i],g[i],"right hand side is minus the derivative of the energy in positions and rotations");
  int what=sx_choose("what",2); if(what==0){ VD x=sym("x",n*6); chk_op(d,op(x),x,"Gauss-Newton operator with penalties"); } else { bool ok=true; for(U i=0;i<n;i++) if(m.nb[i].size()<2) ok=false; if(!ok) return; d.MakePreconditionerJacobi(); VD x=sym("x",n*6); chk_jac(d,x,op,n*2); } }
// on a tetrahedron the incomplete factorisation is exact: one global step minimises the energy for the given rotations
SX_ENTRY(arap2_step){ optl(); sx_opt("max_ite",0); M m=mesh(0); VI bc=bcs(m,1+sx_choose("bc",2)); VD q; int k=sx_choose("q",T?4:2); for(U i=0;i<m.n;i++) for(int j=0;j<4;j++) q.push_back(QF[(i+k)%4][j]); dfm2::Deformer_Arap2 d; d.Init(m.X,m.t,q,bc); VD x=m.X; double s=sx_real_in("s",0.5,1.5); for(U i=0;i<m.n*3;i++) x[i]*=s; VD b=x; d.Deform(x,q,m.X,bc); VD g(m.n*3,0); for(U i=0;i<m.n;i++) for(U j:m.nb[i]){ V3 r=rq(q.data()+4*i,P(m.X,j)-P(m.X,i))-(P(x,j)-P(x,i)); for(int a=0;a<3;a++){ g[3*i+a]+=r.p[a]; g[3*j+a]-=r.p[a]; } } for(U i=0;i<m.n*3;i++) if(bc[i]) sx_eq(x[i],b[i],"fixed coordinates stay"); else sx_eq(g[i],(b[i]-x[i])*1e-5,"the step minimises the energy for the given rotations"); }
