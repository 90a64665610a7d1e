// C16: iterative solvers, vector helpers, master-slave elimination
#include "sx.h"
#include <vector>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstring>
#include <iostream>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_masterslave.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef dfm2::CMatrixSparse<double> M; typedef std::vector<double> V; typedef dfm2::CPreconditionerILU<double> ILU; typedef std::complex<double> CD;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",3000); sx_opt("branch_ms",1000); sx_opt("float_sqrt",1); }
// 2- and 3-unknown symmetric positive definite matrices
static const double S2[3][4]={{2,1,1,3},{4,-1,-1,1},{1,0,0,5}};
static const double S3[4][9]={{4,1,0, 1,3,1, 0,1,2},{2,-1,0,-1,2,-1,0,-1,2},{5,2,1,2,4,-1,1,-1,3},{1,0,0,0,2,1,0,1,3}};
static const double U3[3][9]={{4,1,0, -1,3,1, 2,0,2},{2,1,0.5,0,3,-1,1,0,2},{3,-1,1,1,2,0,0,1,1}};
static const double U2[3][4]={{4,1,-1,3},{2,1,0.5,3},{3,-1,2,1}};
static void fill(M&m,int n,const double*a){ m.Initialize(n,1,true); std::vector<unsigned> ci(1,0),rp; for(int i=0;i<n;i++){ for(int j=0;j<n;j++) if(j!=i) rp.push_back(j); ci.push_back((unsigned)rp.size()); } m.SetPattern(ci.data(),ci.size(),rp.data(),rp.size()); m.setZero(); for(int i=0;i<n;i++){ m.val_dia_[i]=a[i*n+i]; for(unsigned p=m.col_ind_[i];p<m.col_ind_[i+1];p++) m.val_crs_[p]=a[i*n+m.row_ptr_[p]]; } }
static int KMAX=3,LINES=2;
static V rhs(int n){ V b(n); static const double B0[3]={1,-2,0.5}, B1[3]={0.5,1,-1}; int k=sx_choose("line",LINES); double t=sx_real_in("t",-3,3); for(int i=0;i<n;i++) b[i]=k?B0[i]+t*B1[i]:LINES==1?(i==1?t:1.-0.5*i):B1[(i+1)%3]*2+t*B0[(i+1)%3]; return b; }
static V resid(int n,const double*a,const V&b,const V&u){ V r(n); for(int i=0;i<n;i++){ r[i]=b[i]; for(int j=0;j<n;j++) r[i]-=a[i*n+j]*u[j]; } return r; }
static double sq(const V&r){ double s=0; for(double x:r) s+=x*x; return s; }
static void cg(int n,const double*A,V b){ int k=1+sx_choose("k",n<KMAX?n:KMAX); double tol=n==3&&k==3&&!T?-1:sx_choose("tol",2)?-1:0.3; M m; fill(m,n,A); sx_assume(sq(b)>0.01); V r=b,u(n,7.),ap(n),p(n); auto h=dfm2::Solve_CG(dfm2::ViewAsVectorXd(r),dfm2::ViewAsVectorXd(u),dfm2::ViewAsVectorXd(ap),dfm2::ViewAsVectorXd(p),tol,(unsigned)k,m); V q=resid(n,A,b,u); for(int i=0;i<n;i++) sx_eq(r[i],q[i],"carried residual is b-Au"); sx_check(h.size()>=1&&h.size()<=(size_t)k,"history has one entry per step"); if(tol<0) sx_check(h.size()==(size_t)k,"runs to the iteration limit"); sx_check(h.back()>=0,"norm is not negative"); sx_eq(h.back()*h.back()*sq(b),sq(q),"history is the relative residual norm"); if((int)h.size()<k) sx_check(h.back()<tol,"stops only when converged"); if((int)h.size()==n) for(int i=0;i<n;i++) sx_eq(q[i],0,"exact after n steps"); }
SX_ENTRY(cg2){ opt(); V b={sx_real_in("b0",-3,3),sx_real_in("b1",-3,3)}; cg(2,S2[sx_choose("A",3)],b); }
SX_ENTRY(cg3){ opt(); KMAX=T?3:2; cg(3,S3[sx_choose("A",4)],rhs(3)); }
SX_ENTRY(cg3_exact){ opt(); KMAX=3; LINES=1; cg(3,S3[sx_choose("A",T?4:1)],rhs(3)); }
SX_ENTRY(cg2_matrix){ opt(); double d=sx_real_in("d",0.25,2),c=sx_real_in("c",-1,1); double A[4]={1+c*c,c,c,d+0.}; sx_assume(d*(1+c*c)>c*c+0.1); V b={1.5,-0.5}; cg(2,A,b); }
SX_ENTRY(zero_rhs){ opt(); int n=3; M m; fill(m,n,S3[0]); V b(n,0.); b[sx_choose("i",3)]=sx_real_in("e",-1e-16,1e-16); int w=sx_choose("which",3); V u(n,9.),a(n),p(n); if(w==0) dfm2::Solve_CG(dfm2::ViewAsVectorXd(b),dfm2::ViewAsVectorXd(u),dfm2::ViewAsVectorXd(a),dfm2::ViewAsVectorXd(p),1e-5,5u,m); else if(w==1){ auto h=dfm2::Solve_BiCGStab(b,u,1e-5,5u,m); sx_check(h.empty(),"nothing to do"); for(double&x:u) x=0; } else { ILU l; l.Initialize_ILUk(m,0); l.CopyValue(m); l.Decompose(); dfm2::Solve_PCG(dfm2::ViewAsVectorXd(b),dfm2::ViewAsVectorXd(u),dfm2::ViewAsVectorXd(a),dfm2::ViewAsVectorXd(p),1e-5,5u,m,l); } for(double x:u) sx_check(x==0,"zero right-hand side gives zero"); }
struct Diag{ V d; void SolvePrecond(double*v) const { for(size_t i=0;i<d.size();i++) v[i]/=d[i]; } };
namespace delfem2{ static void SolvePrecond(ViewAsVectorXd&v,const Diag&d){ d.SolvePrecond(v.p); } }
template<class P> static void pcg(int n,const double*A,V b,const M&m,const P&P0,bool exact){ int k=1+sx_choose("k",exact?1:n<KMAX?n:KMAX); double tol=!T&&n==3&&k==3?-1:sx_choose("tol",2)?-1:0.3; sx_assume(sq(b)>0.01); V r=b,u(n,7.),ap(n),p(n); auto h=dfm2::Solve_PCG(dfm2::ViewAsVectorXd(r),dfm2::ViewAsVectorXd(u),dfm2::ViewAsVectorXd(ap),dfm2::ViewAsVectorXd(p),tol,(unsigned)k,m,P0); V q=resid(n,A,b,u); for(int i=0;i<n;i++) sx_eq(r[i],q[i],"carried residual is b-Au"); sx_eq(h[0]*h[0],sq(b),"history starts with the initial norm"); sx_check(h.size()>=2&&h.size()<=(size_t)k+2,"history has one entry per step"); sx_check(h.back()>=0,"norm is not negative"); sx_eq(h.back()*h.back(),sq(q),"history ends with the residual norm"); int it=tol<0?k:(int)h.size()-1; if(it>k) it=k; if(exact||it==n) for(int i=0;i<n;i++) sx_eq(q[i],0,"exact after n steps"); }
SX_ENTRY(pcg_diag2){ opt(); int w=sx_choose("A",2); V b={sx_real_in("b0",-3,3),sx_real_in("b1",-3,3)}; M m; fill(m,2,S2[w]); Diag d; d.d={S2[w][0],S2[w][3]}; pcg(2,S2[w],b,m,d,false); }
SX_ENTRY(pcg_diag3){ opt(); KMAX=T?3:2; int w=sx_choose("A",4); M m; fill(m,3,S3[w]); Diag d; d.d={S3[w][0],S3[w][4],S3[w][8]}; pcg(3,S3[w],rhs(3),m,d,false); }
SX_ENTRY(pcg_ilu){ opt(); int w=sx_choose("A",4); M m; fill(m,3,S3[w]); ILU l; l.Initialize_ILUk(m,0); l.CopyValue(m); l.Decompose(); pcg(3,S3[w],rhs(3),m,l,true); }
SX_ENTRY(bicgstab){ opt(); LINES=T?2:1; int w=sx_choose("A",3); int k=1+sx_choose("k",2),n=k==1?3:2; const double*A=n==3?U3[w]:U2[w]; double tol=sx_choose("tol",2)?-1:0.3; V b=rhs(n); sx_assume(sq(b)>0.01); M m; fill(m,n,A); V r=b,u; auto h=dfm2::Solve_BiCGStab(r,u,tol,(unsigned)k,m); V q=resid(n,A,b,u); for(int i=0;i<n;i++) sx_eq(r[i],q[i],"carried residual is b-Au"); sx_check(h.size()>=1&&h.size()<=(size_t)k&&(tol>0||h.size()==(size_t)k),"one history entry per step"); sx_eq(h.back()*h.back()*sq(b),sq(q),"history is the relative residual norm"); if((int)h.size()<k) sx_check(h.back()<tol,"stops only when converged"); }
SX_ENTRY(bicgstab2){ opt(); double A[4]={2,sx_real_in("a",-1,1),0.5,3}; int n=2,k=2; V b={1,sx_real_in("b",-2,2)}; M m; fill(m,n,A); V r=b,u; auto h=dfm2::Solve_BiCGStab(r,u,-1.,1u,m); V q=resid(n,A,b,u); for(int i=0;i<n;i++) sx_eq(r[i],q[i],"carried residual is b-Au"); double aq[2]={A[0]*q[0]+A[1]*q[1],A[2]*q[0]+A[3]*q[1]}; (void)aq; (void)k;
  // first step: p=b, alpha=(b,b)/(Ab,b), s=b-alpha*Ab, omega minimises |s-omega*As|
  V Ab={A[0]*b[0]+A[1]*b[1],A[2]*b[0]+A[3]*b[1]}; double al=sq(b)/(Ab[0]*b[0]+Ab[1]*b[1]); V s={b[0]-al*Ab[0],b[1]-al*Ab[1]}; V As={A[0]*s[0]+A[1]*s[1],A[2]*s[0]+A[3]*s[1]}; sx_eq(q[0]*As[0]+q[1]*As[1],0,"stabilising step minimises the residual"); (void)h; }
SX_ENTRY(pbicgstab){ opt(); LINES=T?2:1; int w=sx_choose("A",3); int k=1+sx_choose("k",3),n=k<3?3:2; const double*A=n==3?U3[w]:U2[w]; double tol=sx_choose("tol",2)?-1:0.3; V b=rhs(n); sx_assume(sq(b)>0.01); M m; fill(m,n,A); Diag d; for(int i=0;i<n;i++) d.d.push_back(A[i*n+i]); V r=b,u(n,7.); auto h=dfm2::Solve_PBiCGStab(r.data(),u.data(),tol,(unsigned)k,m,d); V q=resid(n,A,b,u); for(int i=0;i<n;i++) sx_eq(r[i],q[i],"carried residual is b-Au"); sx_check(h.size()<=(size_t)k,"at most the requested number of steps"); if(!h.empty()) sx_eq(h.back()*h.back()*sq(b),sq(q),"history is the relative residual norm"); }
struct CDiag{ std::vector<CD> d; void SolvePrecond(CD*v) const { for(size_t i=0;i<d.size();i++) v[i]/=d[i]; } };
SX_ENTRY(pcocg){ opt(); int n=2,k=1+sx_choose("k",2); double tol=sx_choose("tol",2)?-1:0.3; dfm2::CMatrixSparse<CD> m; m.Initialize(2,1,true); unsigned ci[3]={0,1,2},rp[2]={1,0}; m.SetPattern(ci,3,rp,2); m.setZero(); CD A[4]={{2,1},{0.5,-1},{0.5,-1},{3,0.5}}; m.val_dia_[0]=A[0]; m.val_dia_[1]=A[3]; m.val_crs_[0]=A[1]; m.val_crs_[1]=A[2]; CDiag d; d.d={{2,0},{3,0}}; double t=sx_real_in("t",-2,2); std::vector<CD> b={{1+t,0.5},{-1,t}}; std::vector<CD> r=b,u(2,CD(3,3)); auto h=dfm2::Solve_PCOCG(r.data(),u.data(),tol,(unsigned)k,m,d); double s=0,s0=0; for(int i=0;i<2;i++){ double qr=b[i].real(),qi=b[i].imag(); s0+=qr*qr+qi*qi; for(int j=0;j<2;j++){ CD a=A[i*2+j],x=u[j]; qr-=a.real()*x.real()-a.imag()*x.imag(); qi-=a.real()*x.imag()+a.imag()*x.real(); } sx_eq(r[i].real(),qr,"real part of the carried residual"); sx_eq(r[i].imag(),qi,"imaginary part of the carried residual"); s+=qr*qr+qi*qi; } sx_check(h.size()>=1&&h.size()<=(size_t)k,"history has one entry per step"); sx_eq(h.back()*h.back()*s0,s,"history is the relative residual norm"); if((int)h.size()==n){ sx_eq(s,0,"exact after n steps"); } }
// whole solver objects: fixed unknowns stay zero, free unknowns satisfy their equations
template<class L> static void prep(L&ls,V&b,const double*A,int n,int fix){ std::vector<unsigned> pi={0,2,4,6},ps={1,2,0,2,0,1}; ls.Initialize(3,1,pi,ps); ls.BeginMerge(); unsigned id[3]={0,1,2}; double e[3][3][1][1]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) e[i][j][0][0]=A[i*3+j]*0.5; ls.template Merge<3,3,1,1>(id,id,e); ls.template Merge<3,3,1,1>(id,id,e); for(int i=0;i<3;i++){ ls.AddValueToDiagonal(i,0,0.5*i); ls.vec_r[i]=b[i]; if(fix>>i&1) ls.dof_bcflag[i]=1; } (void)n; }
static void post(const V&x,const V&b,const double*A,int fix){ for(int i=0;i<3;i++){ if(fix>>i&1){ sx_eq(x[i],0,"fixed unknown stays zero"); continue; } double v=0; for(int j=0;j<3;j++) v+=(A[i*3+j]+(i==j?0.5*i:0))*x[j]; sx_eq(v,b[i],"free equation is satisfied"); } }
SX_ENTRY(object_ilu){ opt(); const double*A=S3[sx_choose("A",4)]; V b=rhs(3); int fix=sx_choose("fix",7); double f=0; for(int i=0;i<3;i++) if(!(fix>>i&1)) f+=b[i]*b[i]; sx_assume(f>0.01); dfm2::LinearSystemSolver_BlockSparseILU ls; prep(ls,b,A,3,fix); ls.Solve_PcgIlu(); post(ls.vec_x,b,A,fix); }
SX_ENTRY(object_cg){ opt(); int fx[4]={3,5,6,0}; int fix=fx[sx_choose("fix",T?4:3)]; const double*A=S3[sx_choose("A",fix?4:1)]; V b=rhs(3); double f=0; for(int i=0;i<3;i++) if(!(fix>>i&1)) f+=b[i]*b[i]; sx_assume(f>0.01); if(sx_choose("ilu",2)){ dfm2::LinearSystemSolver_BlockSparseILU ls; prep(ls,b,A,3,fix); ls.Solve_Cg(); if(ls.conv_hist.size()==(fix?1u:3u)) post(ls.vec_x,b,A,fix); } else { dfm2::LinearSystemSolver_BlockSparse ls; prep(ls,b,A,3,fix); ls.Solve(); if(ls.conv_hist.size()==(fix?1u:3u)) post(ls.vec_x,b,A,fix); } }
// vector helpers
SX_ENTRY(helpers){ opt(); int n=1+sx_choose("n",4); V x(n),y(n),z(n),w(n),X(n); std::vector<int> bc(n); double a=sx_real("al"),b=sx_real("be"),c=sx_real("ga"); for(int i=0;i<n;i++){ x[i]=sx_real(NM("x",i)); y[i]=sx_real(NM("y",i)); z[i]=sx_real(NM("z",i)); w[i]=sx_real(NM("w",i)); X[i]=sx_real(NM("X",i)); bc[i]=sx_choose(NM("bc",i),2)*3; } double d=0; for(int i=0;i<n;i++) d+=x[i]*y[i]; sx_eq(dfm2::DotX(x.data(),y.data(),n),d,"dot product"); sx_eq(dfm2::Dot(x,y),d,"dot product of vectors"); V p=X; dfm2::XPlusAY(p,n,bc,a,y); for(int i=0;i<n;i++) sx_eq(p[i],bc[i]?X[i]:X[i]+a*y[i],"x+ay"); p=X; dfm2::XPlusAYBZ(p,n,bc,a,y,b,z); for(int i=0;i<n;i++) sx_eq(p[i],bc[i]?X[i]:X[i]+a*y[i]+b*z[i],"x+ay+bz"); p=X; dfm2::XPlusAYBZCW(p,n,bc,a,y,b,z,c,w); for(int i=0;i<n;i++) sx_eq(p[i],bc[i]?X[i]:X[i]+a*y[i]+b*z[i]+c*w[i],"x+ay+bz+cw"); p=X; dfm2::AXPY(a,y,p); for(int i=0;i<n;i++) sx_eq(p[i],X[i]+a*y[i],"axpy"); p=X; dfm2::AXPY(a,y.data(),p.data(),(unsigned)n); for(int i=0;i<n;i++) sx_eq(p[i],X[i]+a*y[i],"axpy on arrays"); p=X; dfm2::ScaleX(p.data(),a,n); for(int i=0;i<n;i++) sx_eq(p[i],X[i]*a,"scale"); p=X; int keep=sx_choose("keep",2)*3; dfm2::setRHS_Zero(p,bc,keep); for(int i=0;i<n;i++) sx_eq(p[i],bc[i]==keep?X[i]:0,"fixed entries cleared"); double e=dfm2::Distance(x,y),ds=0; for(int i=0;i<n;i++) ds+=(x[i]-y[i])*(x[i]-y[i]); sx_eq(e*e,ds,"Euclidean distance"); }
SX_ENTRY(normalize){ opt(); int n=1+sx_choose("n",3); V p(n),q(n); double s=0; for(int i=0;i<n;i++){ p[i]=sx_real_in(NM("p",i),-3,3); q[i]=sx_real(NM("q",i)); s+=p[i]*p[i]; } sx_assume(s>0.01); V u=p; dfm2::NormalizeX(u.data(),n); double t=0,pu=0; for(int i=0;i<n;i++){ t+=u[i]*u[i]; pu+=p[i]*u[i]; } sx_eq(t,1,"unit length"); sx_lt(0,pu,"same direction"); for(int i=0;i<n;i++) for(int j=0;j<i;j++) sx_eq(u[i]*p[j],u[j]*p[i],"parallel"); V v=q; dfm2::OrthogonalizeToUnitVectorX(v.data(),u.data(),n); double o=0,qu=0; for(int i=0;i<n;i++){ o+=v[i]*u[i]; qu+=q[i]*u[i]; } for(int i=0;i<n;i++) sx_eq(v[i],q[i]-qu*u[i],"component along the unit vector removed"); sx_eq(o,0,"orthogonal"); }
SX_ENTRY(dense){ opt(); int nr=1+sx_choose("nr",3),nc=1+sx_choose("nc",3); double A[9],x[3],y[3],al=sx_real("al"),be=sx_real("be"); for(int i=0;i<9;i++) A[i]=sx_real(NM("A",i)); for(int i=0;i<3;i++){ x[i]=sx_real(NM("x",i)); y[i]=sx_real(NM("y",i)); } double p[3]={0,0,0}; dfm2::MatVec(p,A,nr,nc,x); for(int i=0;i<nr;i++){ double v=0; for(int j=0;j<nc;j++) v+=A[i*nc+j]*x[j]; sx_eq(p[i],v,"matrix times vector"); } for(int i=0;i<3;i++) p[i]=y[i]; dfm2::MatTVec(p,al,A,nr,nc,x,be); for(int j=0;j<3;j++){ double v=be*y[j]; for(int i=0;i<nr;i++) if(j<nc) v+=al*A[i*nc+j]*x[i]; sx_eq(p[j],j<nc?v:y[j],"transpose times vector"); } }
SX_ENTRY(complex_helpers){ opt(); int n=1+sx_choose("n",3); std::vector<CD> a(n),b(n); double r=0,i_=0,sr=0,si=0; for(int i=0;i<n;i++){ double p=sx_real(NM("ar",i)),q=sx_real(NM("ai",i)),s=sx_real(NM("br",i)),t=sx_real(NM("bi",i)); a[i]=CD(p,q); b[i]=CD(s,t); r+=p*s+q*t; i_+=q*s-p*t; sr+=p*s-q*t; si+=p*t+q*s; } CD d=dfm2::DotX(a.data(),b.data(),(size_t)n),e=dfm2::Dot(a,b),m=dfm2::MultSumX(a.data(),b.data(),(unsigned)n); sx_eq(d.real(),r,"hermitian product real"); sx_eq(d.imag(),i_,"hermitian product imaginary"); sx_eq(e.real(),r,"hermitian product of vectors real"); sx_eq(e.imag(),i_,"hermitian product of vectors imaginary"); sx_eq(m.real(),sr,"bilinear product real"); sx_eq(m.imag(),si,"bilinear product imaginary"); std::vector<int> bc(n); for(int i=0;i<n;i++) bc[i]=i%2; auto z=a; dfm2::setRHS_Zero(z,bc,0); for(int i=0;i<n;i++){ sx_eq(z[i].real(),i%2?0:a[i].real(),"cleared real"); sx_eq(z[i].imag(),i%2?0:a[i].imag(),"cleared imaginary"); } }
// master-slave elimination: K' = P^T K P with the slave rows replaced by identity
static const int SY[6][4][4]={{{0,1,0,0},{1,0,1,0},{0,1,0,1},{0,0,1,0}},{{0,1,1,1},{1,0,1,1},{1,1,0,1},{1,1,1,0}},{{0,1,1,0},{1,0,0,1},{1,0,0,1},{0,1,1,0}},{{0,1,1,1},{1,0,0,0},{1,0,0,0},{1,0,0,0}},{{0,0,1,0},{0,0,1,1},{1,1,0,0},{0,1,0,0}},{{0,0,0,1},{0,0,1,0},{0,1,0,0},{1,0,0,0}}};
template<int L> static void ms(int g){ opt(); const int n=4; std::vector<unsigned> pi(1,0),ps; for(int i=0;i<n;i++){ for(int j=0;j<n;j++) if(SY[g][i][j]) ps.push_back(j); pi.push_back((unsigned)ps.size()); }
  std::vector<unsigned> f(n*L,UINT_MAX); int cfg=sx_choose("slaves",L==1?9:6); if(L==2&&cfg==5) cfg=6; /* a block that is master in one component and slave in another is outside the bound */ if(L==1){ static const int C[9][4]={{-1,-1,-1,-1},{-1,-1,-1,0},{3,-1,-1,-1},{-1,0,-1,-1},{-1,-1,1,1},{-1,0,0,0},{2,-1,-1,1},{-1,0,-1,2},{1,-1,-1,-1}}; for(int i=0;i<4;i++) if(C[cfg][i]>=0) f[i]=C[cfg][i]; } else { static const int C[7][4]={{-1,-1,-1,-1},{6,-1,-1,-1},{1,6,-1,-1},{2,0,3,0},{4,0,6,0},{5,1,7,3},{0,6,1,5}}; static const int D[7][4]={{0},{0},{6,0,7,1},{0},{2,0,6,0},{0},{0}}; (void)D; if(cfg==1) f[6]=0; if(cfg==2){ f[6]=0; f[7]=1; } if(cfg==3){ f[2]=0; f[3]=1; } if(cfg==4){ f[2]=0; f[4]=0; f[6]=0; } if(cfg==5){ f[1]=5; f[4]=2; } if(cfg==6){ f[0]=6; f[7]=1; } (void)C; }
  std::vector<unsigned> ci,rp; dfm2::JArray_AddMasterSlavePattern(ci,rp,f.data(),L,pi.data(),pi.size(),ps.data()); sx_check(ci.size()==n+1&&ci[0]==0&&ci[n]==rp.size(),"pattern index array"); for(int i=0;i<n;i++){ int seen=0; for(unsigned k=ci[i];k<ci[i+1];k++){ sx_check(rp[k]<n&&(int)rp[k]!=i&&!(seen>>rp[k]&1),"pattern entries distinct"); seen|=1<<rp[k]; } for(int j=0;j<n;j++) if(SY[g][i][j]) sx_check(seen>>j&1,"pattern keeps the original entries"); }
  M m; m.Initialize(n,L,true); m.SetPattern(ci.data(),ci.size(),rp.data(),rp.size()); m.setZero(); const int N=n*L; V K(N*N,0); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i==j||SY[g][i][j]) for(int a=0;a<L;a++) for(int b=0;b<L;b++) K[(i*L+a)*N+j*L+b]=sx_real(NM("k",(i*L+a)*N+j*L+b)); for(int i=0;i<n;i++){ for(int q=0;q<L*L;q++) m.val_dia_[i*L*L+q]=K[(i*L+q/L)*N+i*L+q%L]; for(unsigned p=ci[i];p<ci[i+1];p++) for(int q=0;q<L*L;q++) m.val_crs_[p*L*L+q]=K[(i*L+q/L)*N+rp[p]*L+q%L]; }
  dfm2::SetMasterSlave(m,f.data()); V R(N*N,0); for(int r=0;r<N;r++) for(int c=0;c<N;c++) R[(f[r]==UINT_MAX?r:f[r])*N+(f[c]==UINT_MAX?c:f[c])]+=K[r*N+c]; for(int r=0;r<N;r++) if(f[r]!=UINT_MAX) R[r*N+r]=1;
  V G(N*N,0); for(int i=0;i<n;i++){ for(int q=0;q<L*L;q++) G[(i*L+q/L)*N+i*L+q%L]=m.val_dia_[i*L*L+q]; for(unsigned p=ci[i];p<ci[i+1];p++) for(int q=0;q<L*L;q++) G[(i*L+q/L)*N+rp[p]*L+q%L]=m.val_crs_[p*L*L+q]; } for(int q=0;q<N*N;q++) sx_eq(G[q],R[q],"condensed matrix is P^T K P");
  V b(N),c; for(int i=0;i<N;i++) b[i]=sx_real(NM("b",i)); c=b; dfm2::setRHS_MasterSlave(c.data(),N,f.data()); V e(N,0); for(int i=0;i<N;i++) e[f[i]==UINT_MAX?i:f[i]]+=b[i]; for(int i=0;i<N;i++) sx_eq(c[i],e[i],"condensed right-hand side"); }
SX_ENTRY(masterslave1){ ms<1>(sx_choose("graph",6)); }
SX_ENTRY(masterslave2){ ms<2>(sx_choose("graph",6)); }
