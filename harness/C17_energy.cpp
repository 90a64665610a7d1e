// C17: gradients and Hessians of elastic energies are exact derivatives of the returned energy
#include "sx.h"
#include <vector>
#include <cmath>
#include <cassert>
#include "delfem2/fem_stvk.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/fem_mips.h"
#include "delfem2/fem_rod2.h"
#include "delfem2/fem_rod3_straight.h"
#include "delfem2/fem_distance3.h"
#include "delfem2/fem_discreteshell.h"
#include "delfem2/fem_beam2.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/fem_mitc3.h"
namespace dfm2=delfem2; static const int T=SX_TIER;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",3000); sx_opt("branch_ms",1000); sx_opt("float_sqrt",1); }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",3000); sx_opt("branch_ms",1000); }
// rest triangles (planar, rational area) and tetra-like hinge shapes
static const double TR2[3][3][2]={{{0,0},{2,0},{0.5,1.5}},{{1,-1},{3,0.5},{-0.5,2}},{{-1,0.25},{0.5,-2},{1.5,1}}};
static const double TR3[3][3][3]={{{0,0,0},{2,0,0},{0.5,1.5,0}},{{1,0,-1},{3,0,0.5},{-0.5,0,2}},{{0,0,0},{1,2,2},{-2,2,-1}}};
static const double HG[2][4][3]={{{-1,0.5,0},{1.5,0.25,0},{0,-1,0},{0,2,0}},{{-1,0.5,1},{1.5,0.5,-0.25},{0.25,-1,0.5},{0,2,0}}};
// n coordinates: `sel` of them symbolic (all when sel<0: every coordinate)
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
static void far(const double*p,int n){ for(int i=0;i<n;i++) for(int j=0;j<i;j++){ double s=0; for(int k=0;k<3;k++) s+=(p[3*i+k]-p[3*j+k])*(p[3*i+k]-p[3*j+k]); sx_assume(s>0.01); } }
SX_ENTRY(stvk_strain){ optl(); int w=sx_choose("rest",3); double c[3][3],C[3],d[3][9]; all(&c[0][0],9,"x"); dfm2::CdC_StVK(C,d,TR2[w],c); for(int i=0;i<3;i++) for(int j=0;j<9;j++) sx_eq(sx_d(C[i],(&c[0][0])[j]),d[i][j],"strain derivative"); 
  // the strain is the Green-Lagrange tensor (F^T F - 1)/2, shear doubled
  double e0[2]={TR2[w][1][0]-TR2[w][0][0],TR2[w][1][1]-TR2[w][0][1]},e1[2]={TR2[w][2][0]-TR2[w][0][0],TR2[w][2][1]-TR2[w][0][1]}; double det=e0[0]*e1[1]-e0[1]*e1[0]; double F[3][2]; for(int k=0;k<3;k++){ double a=c[1][k]-c[0][k],b=c[2][k]-c[0][k]; F[k][0]=(a*e1[1]-b*e0[1])/det; F[k][1]=(b*e0[0]-a*e1[0])/det; } double xx=0,yy=0,xy=0; for(int k=0;k<3;k++){ xx+=F[k][0]*F[k][0]; yy+=F[k][1]*F[k][1]; xy+=F[k][0]*F[k][1]; } sx_eq(C[0],0.5*(xx-1),"strain xx"); sx_eq(C[1],0.5*(yy-1),"strain yy"); sx_eq(C[2],xy,"shear strain"); }
SX_ENTRY(stvk_strain_rest){ optl(); double P[3][2],c[3][3],C[3],d[3][9]; int k=sx_choose("k",6); for(int i=0;i<6;i++) (&P[0][0])[i]=i==k?TR2[0][i/2][i%2]+sx_real_in("d",-0.25,0.25):TR2[0][i/2][i%2]; all(&c[0][0],9,"x"); dfm2::CdC_StVK(C,d,P,c); for(int i=0;i<3;i++) for(int j=0;j<9;j++) sx_eq(sx_d(C[i],(&c[0][0])[j]),d[i][j],"strain derivative"); }
SX_ENTRY(stvk_energy){ optl(); int w=sx_choose("rest",3); double c[3][3],C,d[9],la=sx_real_in("lambda",0,4),mu=sx_real_in("mu",0,4); all(&c[0][0],9,"x"); dfm2::CdC_EnergyStVK(C,d,TR2[w],c,la,mu); for(int j=0;j<9;j++) sx_eq(sx_d(C,(&c[0][0])[j]),d[j],"energy derivative");
  // energy is area * (lambda/2 tr(E)^2 + mu E:E)
  double S[3],q[3][9]; dfm2::CdC_StVK(S,q,TR2[w],c); double e0[2]={TR2[w][1][0]-TR2[w][0][0],TR2[w][1][1]-TR2[w][0][1]},e1[2]={TR2[w][2][0]-TR2[w][0][0],TR2[w][2][1]-TR2[w][0][1]}; double A=0.5*(e0[0]*e1[1]-e0[1]*e1[0]); sx_eq(C,A*(0.5*la*(S[0]+S[1])*(S[0]+S[1])+mu*(S[0]*S[0]+S[1]*S[1]+0.5*S[2]*S[2])),"energy density integrates the strain"); }
// constant strain triangle: gradient everywhere, Hessian exact when the stress is positive definite (documented projection otherwise)
static void cst(int w,double c[3][3],double la,double mu,bool hess){ double W,dW[3][3],H[3][3][3][3]; dfm2::WdWddW_CST(W,dW,H,TR3[w],c,la,mu); for(int i=0;i<3;i++) for(int k=0;k<3;k++){ sx_eq(sx_d(W,c[i][k]),dW[i][k],"gradient"); if(hess) for(int j=0;j<3;j++) for(int l=0;l<3;l++) sx_eq(sx_d(dW[i][k],c[j][l]),H[i][j][k][l],"Hessian"); } }
static const double DF[3][3][3]={{{0,0,0},{3,0.5,0},{0.5,2.5,1}},{{1.5,0.5,-0.5},{2.5,-0.25,0.75},{0,0.25,1.5}},{{0.25,0,0.5},{0.5,1.25,1},{-1,1,0.25}}};
SX_ENTRY(cst){ opt(); int w=sx_choose("rest",3),d=sx_choose("deformed",T?3:2),k=sx_choose("k",9); double c[3][3]; for(int i=0;i<9;i++) (&c[0][0])[i]=DF[d][i/3][i%3]; double x=sx_real_in("x",-0.5,0.5); (&c[0][0])[k]+=x; double la=sx_choose("mat",2)?0:sx_real_in("lambda",0.5,2),mu=1; double W,dW[3][3],H[3][3][3][3]; dfm2::WdWddW_CST(W,dW,H,TR3[w],c,la,mu); double*y=&dW[0][0]; sx_eq(sx_d(W,x),y[k],"gradient"); for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int p=0;p<3;p++) for(int q=0;q<3;q++) sx_eq(H[i][j][p][q],H[j][i][q][p],"Hessian is symmetric");
  // exact Hessian minus the returned one is (S - S+) spread over the shape functions: zero when the stress is positive definite
  double e[3]; for(int i=0;i<3;i++) e[i]=0; (void)e; double D[9]; for(int i=0;i<9;i++) D[i]=H[i/3][k/3][i%3][k%3]-sx_d(y[i],x); double s=0; for(int i=0;i<3;i++){ s+=D[i*3+k%3]; for(int p=0;p<3;p++) if(p!=k%3) sx_eq(D[i*3+p],0,"off-axis part of the Hessian is exact"); } sx_eq(s,0,"the correction does no work on translations"); }
static void cstpd(int w,int sc,int k){ double c[3][3]; for(int i=0;i<9;i++) (&c[0][0])[i]=TR3[w][i/3][i%3]*(sc?2.5:1.75)+0.125*((i*5)%3); double x=sx_real_in("x",-0.25,0.25),y=sx_real_in("y",-0.25,0.25); (&c[0][0])[k]+=x; (&c[0][0])[(k*4+3)%9]+=y; double W,dW[3][3],H[3][3][3][3]; dfm2::WdWddW_CST(W,dW,H,TR3[w],c,0.5,1); double*g=&dW[0][0]; for(int i=0;i<9;i++) sx_eq(H[i/3][k/3][i%3][k%3],sx_d(g[i],x),"stretched element has the exact Hessian"); }
SX_ENTRY(cst_stretched){ opt(); int w=sx_choose("rest",3),s=sx_choose("stretch",2); cstpd(w,s,sx_choose("k",9)); }
SX_ENTRY(stress_projection){ opt(); double s2[3],s3[3]; static const double L[6][3]={{1,2,0.5},{-1,-2,0.5},{1,-1,0.75},{2,0.5,1.5},{0,0,1},{1,1,0}}; int w=sx_choose("base",6),k=sx_choose("k",3); double t=sx_real_in("t",-4,4); for(int i=0;i<3;i++) s2[i]=L[w][i]+(i==k?t:0); MakePositiveDefinite_Sim22(s2,s3); double tr=s3[0]+s3[1],det=s3[0]*s3[1]-s3[2]*s3[2]; sx_le(0,tr,"projected stress has no negative trace"); double d0=s3[0]-s2[0],d1=s3[1]-s2[1],d2=s3[2]-s2[2]; double det2=s2[0]*s2[1]-s2[2]*s2[2],tr2=s2[0]+s2[1]; sx_assume((det2>0.01)|(det2<-0.01)); if(det2>0&&tr2>0){ sx_eq(d0,0,"positive stress is kept"); sx_eq(d1,0,"positive stress is kept"); sx_eq(d2,0,"positive stress is kept"); } else if(det2>0){ for(int i=0;i<3;i++) sx_eq(s3[i],0,"negative stress is removed"); } else { sx_eq(det,0,"indefinite stress becomes rank one"); sx_eq(d0*d1-d2*d2,0,"correction is rank one"); sx_eq(s3[0]*d0+s3[2]*d2,0,"correction is orthogonal"); sx_eq(s3[2]*d2+s3[1]*d1,0,"correction is orthogonal"); sx_le(0,d0+d1,"correction is non-negative"); } }
SX_ENTRY(cst_sensitivity){ opt(); int w=sx_choose("rest",3),k=sx_choose("k",9); double C[3][3],c[3][3],R[3][3],K[3][3][3][3],D[3][3][3][3]; for(int i=0;i<9;i++){ (&C[0][0])[i]=TR3[w][i/3][i%3]; (&c[0][0])[i]=DF[w?1:0][i/3][i%3]; } double x=sx_real_in("x",-0.25,0.25); (&C[0][0])[k]+=x; double mu=1.25,la=0.75; dfm2::WdWddW_CST_Sensitivity(K,R,D,la,mu,C,c); double W,dW[3][3],H[3][3][3][3]; dfm2::WdWddW_CST(W,dW,H,C,c,la,mu); for(int i=0;i<3;i++) for(int p=0;p<3;p++){ sx_eq(dW[i][p],R[i][p],"same force as the energy"); sx_eq(sx_d(R[i][p],x),D[i][k/3][p][k%3],"derivative of the force with respect to the rest shape"); } for(int i=0;i<81;i++) sx_eq((&K[0][0][0][0])[i],(&H[0][0][0][0])[i],"same Hessian as the energy"); }
// bending of two triangles sharing an edge
SX_ENTRY(quad_bend){ optl(); int w=sx_choose("rest",2); double p[4][3],C[3],d[3][4][3]; all(&p[0][0],12,"p"); dfm2::CdC_QuadBend(C,d,HG[w],p); double*x=&p[0][0]; for(int i=0;i<3;i++) for(int j=0;j<12;j++) sx_eq(sx_d(C[i],x[j]),(&d[i][0][0])[j],"derivative"); }
SX_ENTRY(bend){ optl(); int w=sx_choose("rest",2); double c[4][3],W,dW[4][3],H[4][4][3][3],st=sx_real_in("stiff",0.5,2); all(&c[0][0],12,"c"); dfm2::WdWddW_Bend(W,dW,H,HG[w],c,st); for(int i=0;i<4;i++) for(int p=0;p<3;p++){ sx_eq(sx_d(W,c[i][p]),dW[i][p],"gradient"); for(int j=0;j<4;j++) for(int q=0;q<3;q++) sx_eq(sx_d(dW[i][p],c[j][q]),H[i][j][p][q],"Hessian"); } 
  double C2[3],d2[3][4][3]; dfm2::CdC_QuadBend(C2,d2,HG[w],c); double s3=std::sqrt(3.0); sx_eq(W*2*s3*s3,st*(C2[0]*C2[0]+C2[1]*C2[1]+C2[2]*C2[2]),"energy is the squared bending constraint"); }
SX_ENTRY(bend_flat){ optl(); double c[4][3],W,dW[4][3],H[4][4][3][3],R[3][3]; for(int i=0;i<9;i++) (&R[0][0])[i]=sx_real_in(NM("r",i),-2,2); double o[3]={sx_real("ox"),sx_real("oy"),sx_real("oz")}; for(int i=0;i<4;i++) for(int k=0;k<3;k++) c[i][k]=o[k]+R[k][0]*HG[0][i][0]+R[k][1]*HG[0][i][1]; dfm2::WdWddW_Bend(W,dW,H,HG[0],c,1.5); sx_eq(W,0,"flat rest shape under an affine map has no bending"); for(int i=0;i<12;i++) sx_eq((&dW[0][0])[i],0,"no force"); }
SX_ENTRY(bend_sensitivity){ optl(); sx_opt("check_ms",12000); int w=sx_choose("rest",2),k=sx_choose("k",12); double C[4][3],c[4][3],R[4][3],K[4][4][3][3],D[4][4][3][3]; for(int i=0;i<12;i++){ (&C[0][0])[i]=HG[w][i/3][i%3]; (&c[0][0])[i]=HG[1-w][i/3][i%3]*1.5+0.25*(i%5); } double x=sx_real_in("x",-0.25,0.25); (&C[0][0])[k]+=x; double st=1.25; dfm2::WdWddW_QuadraticBending_Sensitivity(K,R,D,C,c,st); double W,dW[4][3],H[4][4][3][3]; dfm2::WdWddW_Bend(W,dW,H,C,c,st); for(int i=0;i<4;i++) for(int p=0;p<3;p++){ sx_eq(dW[i][p],R[i][p],"same force as the energy"); sx_eq(sx_d(R[i][p],x),D[i][k/3][p][k%3],"derivative of the force with respect to the rest shape"); } for(int i=0;i<144;i++) sx_eq((&K[0][0][0][0])[i],(&H[0][0][0][0])[i],"same Hessian as the energy"); }
SX_ENTRY(discrete_shell){ opt(); int w=sx_choose("base",2),k=sx_choose("k",12); double c[12]; for(int i=0;i<12;i++) c[i]=HG[w][i/3][i%3]; c[2]+=0.5; double x=sx_real_in("x",-0.25,0.25),y=sx_real_in("y",-0.25,0.25); c[k]+=x; c[(k+5)%12]+=y; dfm2::CVec3d p[4],d[4]; for(int i=0;i<4;i++) p[i]=dfm2::CVec3d(c[3*i],c[3*i+1],c[3*i+2]); double C; dfm2::CdC_DiscreteShell(C,d,p[0],p[1],p[2],p[3]); sx_eq(sx_d(C,x),d[k/3][k%3],"derivative"); sx_check(C<=1e-9&&C>=-2-1e-9,"cosine range"); }
SX_ENTRY(mips){ opt(); int w=sx_choose("rest",3),d=sx_choose("deformed",2),k=sx_choose("k",9); double c[3][3]; for(int i=0;i<9;i++) (&c[0][0])[i]=DF[d][i/3][i%3]; double x=sx_real_in("x",-0.25,0.25); (&c[0][0])[k]+=x; double W,g[3][3],H[3][3][3][3]; dfm2::WdWddW_MIPS(W,g,H,c,TR3[w]); double*y=&g[0][0]; sx_eq(sx_d(W,x),y[k],"gradient"); for(int i=0;i<9;i++) sx_eq(sx_d(y[i],x),H[i/3][k/3][i%3][k%3],"Hessian"); for(int i=0;i<9;i++) for(int j=0;j<i;j++) sx_eq(H[i/3][j/3][i%3][j%3],H[j/3][i/3][j%3][i%3],"Hessian is symmetric"); }
SX_ENTRY(mips_planar){ opt(); double c[3][3]={{0,0,0},{2,0,0},{0,0,0}}; c[2][0]=sx_real_in("x",-2,2); c[2][1]=sx_real_in("y",0.5,3); double W,g[3][3],H[3][3][3][3]; dfm2::WdWddW_MIPS(W,g,H,c,TR3[0]); for(int k=0;k<2;k++){ sx_eq(sx_d(W,c[2][k]),g[2][k],"gradient"); for(int i=0;i<9;i++) sx_eq(sx_d((&g[0][0])[i],c[2][k]),H[i/3][2][i%3][k],"Hessian"); } }
SX_ENTRY(rod2){ opt(); int k=sx_choose("k",6),l=T?sx_choose("l",6):0,b=sx_choose("base",2); static const double B[2][6]={{0,0,1.5,0.5,2.5,2},{-1,0.5,0.25,-1,2,0.5}}; double p[3][2]; for(int i=0;i<6;i++) (&p[0][0])[i]=B[b][i]; double x=sx_real_in("x",-0.25,0.25); (&p[0][0])[k]+=x; if(T&&l!=k) (&p[0][0])[l]+=sx_real_in("y",-0.25,0.25); double L[2]={sx_real_in("L0",0.5,2),sx_real_in("L1",0.5,2)},s0=sx_real_in("s0",0.5,2),s1=sx_real_in("s1",0.5,2),sb=sx_real_in("sb",0.5,2); double W,g[3][2],H[3][3][2][2]; dfm2::WdWddW_Rod2(W,g,H,p,L,s0,s1,sb); sx_eq(sx_d(W,x),(&g[0][0])[k],"gradient"); 
  // the Hessian is the Gauss-Newton one: sum of w (dT)(dT)^T over the stretch and bend residuals
  double W0=sx_d(sx_d(W,L[0]),x),W1=sx_d(sx_d(W,L[1]),x); double S=sx_d(W,sb); (void)S; double a=-W0/s0,c=-W1/s1; double bb=sx_d(W,sb),db=sx_d(bb,x); for(int i=k;i<=k;i++){ double v=s0*a*a+s1*c*c; sx_eq((H[i/2][k/2][i%2][k%2]-v)*2*bb,sb*db*db,"Gauss-Newton Hessian"); } for(int i=0;i<6;i++) for(int j=0;j<i;j++) sx_eq(H[i/2][j/2][i%2][j%2],H[j/2][i/2][j%2][i%2],"Hessian is symmetric"); }
SX_ENTRY(rod2_rest){ opt(); int k=sx_choose("k",6); static const double B[6]={0,0,1.5,2,3.5,3.5}; double p[3][2]; for(int i=0;i<6;i++) (&p[0][0])[i]=B[i]; double x=sx_real_in("x",-0.25,0.25); (&p[0][0])[k]+=x; double L[2]={2.5,2.5}; double W,g[3][2],H[3][3][2][2]; dfm2::WdWddW_Rod2(W,g,H,p,L,1,1.5,0); for(int i=0;i<6;i++){ double v=sx_at(sx_d((&g[0][0])[i],x),x,0); sx_eq(v,sx_at(H[i/2][k/2][i%2][k%2],x,0),"stretch part of the Hessian is exact in the rest shape"); } }
// straight 3D rod
static const double R3[3][9]={{0,0,0,1.5,0.5,0.25,2.5,2,-0.5},{0,0,0,1,0,0,2,0.5,0},{-1,0.5,0,0.25,-1,1,2,0.5,0.75}};
SX_ENTRY(rod3_c){ opt(); int b=sx_choose("base",3),k=sx_choose("k",9); double p[3][3],C[3],d[3][3][3]; for(int i=0;i<9;i++) (&p[0][0])[i]=R3[b][i]; double x=sx_real_in("x",-0.25,0.25),y=sx_real_in("y",-0.25,0.25); (&p[0][0])[k]+=x; (&p[0][0])[(k+4)%9]+=y; dfm2::CdC_Rod3BendStraight<double>(C,d,p); for(int i=0;i<3;i++) sx_eq(sx_d(C[i],x),d[i][k/3][k%3],"derivative"); double u[3],v[3],a=0,bb=0; for(int i=0;i<3;i++){ u[i]=p[1][i]-p[0][i]; v[i]=p[2][i]-p[1][i]; a+=u[i]*u[i]; bb+=v[i]*v[i]; } double du=0,dv=0; for(int i=0;i<3;i++){ du+=C[i]*u[i]; dv+=C[i]*v[i]; } sx_eq(du,0,"bending axis is normal to the first segment"); sx_eq(dv,0,"bending axis is normal to the second segment"); }
SX_ENTRY(rod3_w){ opt(); sx_opt("check_ms",12000); int b=sx_choose("base",3),k=sx_choose("k",9); double p[9]; for(int i=0;i<9;i++) p[i]=R3[b][i]; double x=sx_real_in("x",-0.25,0.25); p[k]+=x; dfm2::CVec3d P[3],g[3]; dfm2::CMat3d H[3][3]; for(int i=0;i<3;i++) P[i]=dfm2::CVec3d(p[3*i],p[3*i+1],p[3*i+2]); double W=dfm2::WdWddW_Rod3BendStraight(g,H,P); sx_eq(sx_d(W,x),g[k/3][k%3],"gradient"); for(int i=0;i<3;i++) for(int q=0;q<3;q++) sx_eq(sx_d(g[i][q],x),H[i][k/3](q,k%3),"Hessian"); }
// springs and lengths
SX_ENTRY(spring){ opt(); double c[6]; all(c,6,"p"); dfm2::CVec3d P[2]={dfm2::CVec3d(c[0],c[1],c[2]),dfm2::CVec3d(c[3],c[4],c[5])},g[2]; dfm2::CMat3d H[2][2]; double st=sx_real_in("k",0.5,2),L=sx_real_in("L",0.5,2); sx_assume((c[0]-c[3])*(c[0]-c[3])+(c[1]-c[4])*(c[1]-c[4])+(c[2]-c[5])*(c[2]-c[5])>0.01); double W=dfm2::WdWddW_SquareLengthLineseg3D(g,H,st,P,L); for(int i=0;i<6;i++){ sx_eq(sx_d(W,c[i]),g[i/3][i%3],"gradient"); for(int j=0;j<6;j++) sx_eq(sx_d(g[i/3][i%3],c[j]),H[i/3][j/3](i%3,j%3),"Hessian"); } double p[2][3],C,d[2][3]; for(int i=0;i<6;i++) p[i/3][i%3]=c[i]; dfm2::CdC_SquareLengthLineseg3D<double>(C,d,p,L); for(int i=0;i<6;i++) sx_eq(sx_d(C,c[i]),d[i/3][i%3],"length derivative"); sx_eq(2*W,st*C*C,"energy is the squared elongation"); }
SX_ENTRY(tri_lengths){ opt(); int w=sx_choose("rest",3); double p[3][3],C[3],d[3][9]; all(&p[0][0],9,"p"); far(&p[0][0],3); dfm2::CdC_LengthTriEdges23(C,d,TR2[w],p); double*x=&p[0][0]; for(int e=0;e<3;e++){ int a=(e+1)%3,b=(e+2)%3; for(int j=0;j<9;j++) sx_eq(sx_d(C[e],x[j]),d[e][j],"derivative"); double s=0,S=0; for(int k=0;k<3;k++) s+=(p[a][k]-p[b][k])*(p[a][k]-p[b][k]); for(int k=0;k<2;k++) S+=(TR2[w][a][k]-TR2[w][b][k])*(TR2[w][a][k]-TR2[w][b][k]); sx_eq(C[e],std::sqrt(s)-std::sqrt(S),"length minus rest length"); } }
SX_ENTRY(tet_lengths){ opt(); int w=sx_choose("rest",2); double p[4][3],C[6],d[6][12]; all(&p[0][0],12,"p"); far(&p[0][0],4); dfm2::CdC_LengthTetEdges(C,d,HG[w],p); double*x=&p[0][0]; static const int E[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}; for(int e=0;e<6;e++){ int a=E[e][0],b=E[e][1]; for(int j=0;j<12;j++) sx_eq(sx_d(C[e],x[j]),d[e][j],"derivative"); double s=0,S=0; for(int k=0;k<3;k++){ s+=(p[a][k]-p[b][k])*(p[a][k]-p[b][k]); S+=(HG[w][a][k]-HG[w][b][k])*(HG[w][a][k]-HG[w][b][k]); } sx_eq(C[e],std::sqrt(s)-std::sqrt(S),"length minus rest length"); } }
// linear beam: force is stiffness times displacement, rigid motions are free
SX_ENTRY(beam2){ optl(); double x[2][2],u[2][3],g[2][3],H[2][2][3][3],EI=sx_real_in("EI",0.5,2),AE=sx_real_in("AE",0.5,2); all(&x[0][0],4,"x"); all(&u[0][0],6,"u"); sx_assume((x[0][0]-x[1][0])*(x[0][0]-x[1][0])+(x[0][1]-x[1][1])*(x[0][1]-x[1][1])>0.01); dfm2::dWddW_Beam2<double>(g,H,EI,AE,x,u); for(int i=0;i<6;i++) for(int j=0;j<6;j++){ sx_eq(sx_d((&g[0][0])[i],(&u[0][0])[j]),H[i/3][j/3][i%3][j%3],"Hessian"); sx_eq(H[i/3][j/3][i%3][j%3],H[j/3][i/3][j%3][i%3],"Hessian is symmetric"); } double dx=x[1][0]-x[0][0],dy=x[1][1]-x[0][1]; for(int i=0;i<6;i++){ for(int k=0;k<2;k++) sx_eq(H[i/3][0][i%3][k]+H[i/3][1][i%3][k],0,"translation is free"); sx_eq(-dy*H[i/3][1][i%3][0]+dx*H[i/3][1][i%3][1]+H[i/3][0][i%3][2]+H[i/3][1][i%3][2],0,"rotation is free"); } 
  // axial stretch and pure bending energies
  double l2=dx*dx+dy*dy,l=std::sqrt(l2); double ax=0,bd=0; double a[2]={dx/l,dy/l}; for(int i=0;i<2;i++) for(int j=0;j<2;j++) ax+=a[i]*H[1][1][i][j]*a[j]; sx_eq(ax*l,AE,"axial stiffness"); bd=H[0][0][2][2]-H[0][1][2][2]-H[1][0][2][2]+H[1][1][2][2]; sx_eq(bd*l,4*EI,"bending stiffness"); }
// Mindlin plate
static void mitc(const double C[3][2],const double u[3][3],double&W,double g[3][3],double H[3][3][3][3],double th,double la,double mu){ W=0; for(int i=0;i<9;i++) (&g[0][0])[i]=0; for(int i=0;i<81;i++) (&H[0][0][0][0])[i]=0; dfm2::WdWddW_PlateBendingMITC3(W,g,H,C,u,th,la,mu); }
SX_ENTRY(mitc3){ optl(); int w=sx_choose("rest",3); double u[3][3],W,g[3][3],H[3][3][3][3]; all(&u[0][0],9,"u"); double th=0.25,la=sx_real_in("lambda",0.5,2),mu=sx_real_in("mu",0.5,2); mitc(TR2[w],u,W,g,H,th,la,mu); for(int i=0;i<9;i++){ sx_eq(sx_d(W,(&u[0][0])[i]),(&g[0][0])[i],"gradient"); for(int j=0;j<9;j++) sx_eq(sx_d((&g[0][0])[i],(&u[0][0])[j]),H[i/3][j/3][i%3][j%3],"Hessian"); } }
SX_ENTRY(mitc3_rigid){ optl(); int w=sx_choose("rest",3); double z=sx_real("z"),rx=sx_real("rx"),ry=sx_real("ry"),u[3][3],W,g[3][3],H[3][3][3][3]; for(int i=0;i<3;i++){ u[i][0]=z+rx*TR2[w][i][1]-ry*TR2[w][i][0]; u[i][1]=rx; u[i][2]=ry; } mitc(TR2[w],u,W,g,H,0.25,1,2); sx_eq(W,0,"rigid motion stores no energy"); for(int i=0;i<9;i++) sx_eq((&g[0][0])[i],0,"rigid motion needs no force"); }
SX_ENTRY(mitc3_cycle){ optl(); int w=sx_choose("rest",3); double u[3][3],v[3][3],C[3][2],W,W2,g[3][3],H[3][3][3][3]; all(&u[0][0],9,"u"); for(int i=0;i<3;i++){ int j=(i+1)%3; for(int k=0;k<3;k++) v[i][k]=u[j][k]; for(int k=0;k<2;k++) C[i][k]=TR2[w][j][k]; } double la=sx_real_in("lambda",0.5,2),mu=sx_real_in("mu",0.5,2); mitc(TR2[w],u,W,g,H,0.25,la,mu); mitc(C,v,W2,g,H,0.25,la,mu); sx_eq(W,W2,"energy does not depend on which vertex comes first"); }
SX_ENTRY(mitc3_mass){ optl(); double xy[8]={0,0,2,0,0.5,1.5,-1,1}; int k=sx_choose("k",8); xy[k]+=sx_real_in("d",-0.25,0.25); unsigned t[6]={0,1,2,0,2,3}; double m[12],rho=sx_real_in("rho",0.5,2),th=sx_real_in("th",0.5,2); dfm2::MassLumped_ShellPlateBendingMITC3(m,rho,th,xy,4,t,2); double A=0; for(int e=0;e<2;e++){ unsigned*q=t+3*e; A+=0.5*((xy[q[1]*2]-xy[q[0]*2])*(xy[q[2]*2+1]-xy[q[0]*2+1])-(xy[q[1]*2+1]-xy[q[0]*2+1])*(xy[q[2]*2]-xy[q[0]*2])); } double s=0; for(int i=0;i<4;i++) s+=m[3*i]; sx_eq(s,rho*th*A,"total mass"); for(int i=0;i<4;i++){ sx_eq(m[3*i+1],m[3*i]*th*th/12,"rotary inertia"); sx_eq(m[3*i+2],m[3*i]*th*th/12,"rotary inertia"); sx_lt(0,m[3*i],"positive mass"); } }
