// C20: shape functions, their gradients, element utilities and quadrature tables
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <vector>
#include "delfem2/femutil.h"
#include "delfem2/quadrature.h"
namespace dfm2=delfem2; namespace fu=delfem2::femutil; static const int T=SX_TIER;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
static double det3(const double m[3][3]){ return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
static double area(const double c[3][2]){ return 0.5*((c[1][0]-c[0][0])*(c[2][1]-c[0][1])-(c[1][1]-c[0][1])*(c[2][0]-c[0][0])); }
// ---- triangle: every vertex free; the affine functions L_i(x)=a_i+g_i.x are the barycentric coordinates
SX_ENTRY(tri){ optl(); double c[3][2],p[2]; all(&c[0][0],6,"c"); all(p,2,"p"); double A=area(c); sx_assume((A>0.01)|(A<-0.01));
  double g[3][2],a[3]; dfm2::TriDlDx(g,a,c[0],c[1],c[2]);
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) sx_eq(a[i]+g[i][0]*c[j][0]+g[i][1]*c[j][1],i==j?1.:0.,"shape functions interpolate the nodes");
  double s0=0,s1=0,s2=0; for(int i=0;i<3;i++){ s0+=a[i]; s1+=g[i][0]; s2+=g[i][1]; } sx_eq(s0,1,"constants sum to one"); sx_eq(s1,0,"gradients sum to zero"); sx_eq(s2,0,"gradients sum to zero");
  double l[3],q[2]={0,0}; fu::TriAreaCoord(l,c[0],c[1],c[2],p); for(int i=0;i<3;i++){ sx_eq(l[i],a[i]+g[i][0]*p[0]+g[i][1]*p[1],"area coordinate is the shape function"); q[0]+=l[i]*c[i][0]; q[1]+=l[i]*c[i][1]; }
  sx_eq(q[0],p[0],"area coordinates reproduce the point"); sx_eq(q[1],p[1],"area coordinates reproduce the point");
  sx_eq(fu::TriArea2D(c[0],c[1],c[2]),A,"signed area"); }
SX_ENTRY(tet){ optl(); double c[4][3]; static const double B[4][3]={{0,0,0},{2,0.5,0},{0.25,1.5,-0.5},{0.5,0.25,2}}; for(int i=0;i<12;i++) c[i/3][i%3]=B[i/3][i%3]; int k=sx_choose("free",4); for(int i=0;i<4;i++) if(i==k||(T&&i==(k+1)%4)) all(c[i],3,i==k?"c":"d");
  double e[3][3]; for(int i=0;i<9;i++) e[i/3][i%3]=c[i/3+1][i%3]-c[0][i%3]; double V=det3(e)/6; sx_assume((V>0.01)|(V<-0.01));
  double g[4][3],a[4]; dfm2::TetDlDx(g,a,c[0],c[1],c[2],c[3]);
  for(int i=0;i<4;i++) for(int j=0;j<4;j++) sx_eq(a[i]+g[i][0]*c[j][0]+g[i][1]*c[j][1]+g[i][2]*c[j][2],i==j?1.:0.,"shape functions interpolate the nodes");
  double v=fu::TetVolume3D(c[0],c[1],c[2],c[3]); sx_check((v-V<1e-9)&(V-v<1e-9),"signed volume"); }
SX_ENTRY(tri3d){ optl(); double c[3][3]; all(&c[0][0],9,"c",-2,2); double u[3],v[3],n[3]; for(int i=0;i<3;i++){ u[i]=c[1][i]-c[0][i]; v[i]=c[2][i]-c[0][i]; } n[0]=u[1]*v[2]-u[2]*v[1]; n[1]=u[2]*v[0]-u[0]*v[2]; n[2]=u[0]*v[1]-u[1]*v[0]; double q=n[0]*n[0]+n[1]*n[1]+n[2]*n[2]; sx_assume(q>0.01);
  double A=fu::TriArea3D(c[0],c[1],c[2]); sx_eq(4*A*A,q,"area"); sx_check(A>=0,"area sign"); double m[3],B; fu::UnitNormalAreaTri3D(m,B,c[0],c[1],c[2]); sx_eq(A,B,"areas agree"); for(int i=0;i<3;i++) sx_eq(m[i]*2*B,n[i],"normal times twice the area is the cross product");
  double w[3]; fu::Cross3D(w,u,v); for(int i=0;i<3;i++) sx_eq(w[i],n[i],"cross product"); sx_eq(fu::Dot3D(u,v),u[0]*v[0]+u[1]*v[1]+u[2]*v[2],"dot"); double d=fu::Distance3D(c[0],c[1]); sx_eq(d*d,u[0]*u[0]+u[1]*u[1]+u[2]*u[2],"distance"); sx_check(d>=0,"distance sign"); }
SX_ENTRY(matvec){ optl(); double A[9],B[9],x[3],y[3],C[9]; all(A,9,"a"); all(B,9,"b"); all(x,3,"x"); fu::MatVec3(y,A,x); for(int i=0;i<3;i++){ double s=0; for(int j=0;j<3;j++) s+=A[3*i+j]*x[j]; sx_eq(y[i],s,"matvec"); }
  fu::MatMat3(C,A,B); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=A[3*i+k]*B[3*k+j]; sx_eq(C[3*i+j],s,"matmat"); } fu::MatMatTrans3(C,A,B); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=A[3*i+k]*B[3*j+k]; sx_eq(C[3*i+j],s,"mat mat transposed"); } }
// ---- hexahedra and voxels: reference is the trilinear function at corner signs
static const int SG[2][8][3]={{{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}},{{-1,-1,-1},{1,-1,-1},{-1,1,-1},{1,1,-1},{-1,-1,1},{1,-1,1},{-1,1,1},{1,1,1}}};
static void call(int kind,double r0,double r1,double r2,const double c[8][3],double&dj,double g[8][3],double n[8]){ if(kind) dfm2::ShapeFunc_Vox8(r0,r1,r2,c,dj,g,n); else dfm2::ShapeFunc_Hex8(r0,r1,r2,c,dj,g,n); }
static void hexbase(double c[8][3],int kind,int b){ for(int i=0;i<8;i++) for(int k=0;k<3;k++){ c[i][k]=SG[kind][i][k]*(k==0?1.:k==1?0.75:1.25); if(b) c[i][k]+=0.25*SG[kind][i][(k+1)%3]+(b==2&&i==6?0.5:0)+0.125*k; } }
SX_ENTRY(hex_shape){ optl(); int kind=sx_choose("voxel",2); double r[3]; all(r,3,"r",-1,1); double c[8][3],dj,g[8][3],n[8]; hexbase(c,kind,0); call(kind,r[0],r[1],r[2],c,dj,g,n); double s=0; for(int i=0;i<8;i++){ double w=0.125; for(int k=0;k<3;k++) w=w*(1+SG[kind][i][k]*r[k]); sx_eq(n[i],w,"trilinear shape function"); s+=n[i]; } sx_eq(s,1,"partition of unity"); }
// gradients: chain rule dN_i/dr_k = sum_j dN_i/dx_j dx_j/dr_k, det = det(dx/dr)
static void hexgrad(int kind,const double c[8][3],const double r[3]){ double dj,g[8][3],n[8]; call(kind,r[0],r[1],r[2],c,dj,g,n); double dn[8][3],J[3][3]; for(int i=0;i<8;i++) for(int k=0;k<3;k++){ double w=0.125*SG[kind][i][k]; for(int l=0;l<3;l++) if(l!=k) w=w*(1+SG[kind][i][l]*r[l]); dn[i][k]=w; } for(int j=0;j<3;j++) for(int k=0;k<3;k++){ J[j][k]=0; for(int i=0;i<8;i++) J[j][k]+=c[i][j]*dn[i][k]; } sx_eq(dj,det3(J),"determinant of the map");
  for(int i=0;i<8;i++) for(int k=0;k<3;k++){ double s=0; for(int j=0;j<3;j++) s+=g[i][j]*J[j][k]; sx_eq(s,dn[i][k],"gradient satisfies the chain rule"); } for(int j=0;j<3;j++){ double s=0; for(int i=0;i<8;i++) s+=g[i][j]; sx_eq(s,0,"gradients sum to zero"); for(int k=0;k<3;k++){ double t=0; for(int i=0;i<8;i++) t+=g[i][j]*c[i][k]; sx_eq(t,j==k?1.:0.,"linear functions are reproduced"); } } }
SX_ENTRY(hex_grad_r){ optl(); int kind=sx_choose("voxel",2),b=sx_choose("base",3),f=sx_choose("axis",3); double c[8][3],r[3]={0.25,-0.5,0.375}; hexbase(c,kind,b); r[f]=sx_real_in("r",-1,1); hexgrad(kind,c,r); }
SX_ENTRY(hex_grad_x){ optl(); int kind=sx_choose("voxel",2),b=sx_choose("base",3),v=sx_choose("vtx",8); double c[8][3],r[3]={0.25,-0.5,0.375}; hexbase(c,kind,b); for(int k=0;k<3;k++) c[v][k]+=sx_real_in(NM("d",k),-0.25,0.25); hexgrad(kind,c,r); }
SX_ENTRY(hex_quad_point){ optl(); int ig=sx_choose("rule",T?6:4),tot=(ig+1)*(ig+1)*(ig+1); int q=sx_choose("point",tot); int i=q%(ig+1),j=q/(ig+1)%(ig+1),k=q/(ig+1)/(ig+1); static const int off[8]={0,1,3,6,10,15,21,28}; double c[8][3]; hexbase(c,0,1); double d=sx_real_in("d",-0.25,0.25); c[6][0]+=d; double g[8][3],w=dfm2::DiffShapeFuncAtQuadraturePoint_Hex(g,ig,i,j,k,c); const double(*P)[2]=dfm2::kPositionWeight_GaussianQuadrature<double>; int o=off[ig]; double dj,h[8][3],n[8]; dfm2::ShapeFunc_Hex8(P[o+i][0],P[o+j][0],P[o+k][0],c,dj,h,n); sx_eq(w,dj*(P[o+i][1]*P[o+j][1]*P[o+k][1]),"weight times determinant at the rule's point"); for(int a=0;a<8;a++) for(int b=0;b<3;b++) sx_eq(g[a][b],h[a][b],"gradient at the rule's point"); }
// ---- quadrature: every polynomial of the exact degree with coefficients in [-1,1]
static void quad1(const double(*P)[2],int n,int deg,double tol){ double c[32],q=0,e=0; for(int d=0;d<=deg;d++){ c[d]=sx_real_in(NM("k",d),-1,1); double w=0; for(int i=0;i<n;i++){ double x=1; for(int j=0;j<d;j++) x*=P[i][0]; w+=P[i][1]*x; } q+=c[d]*w; if(d%2==0) e+=c[d]*(2./(d+1)); } sx_check((q-e<tol)&(e-q<tol),"rule is exact to its degree"); double s=0; for(int i=0;i<n;i++){ s+=P[i][1]; sx_check((P[i][1]>0)&(P[i][0]>-1)&(P[i][0]<1),"points inside, weights positive"); } sx_check((s<2+1e-12)&(s>2-1e-12),"weights sum to the length"); }
SX_ENTRY(gauss_line){ optl(); int n=sx_choose("points",7)+1; sx_check((int)dfm2::kNumIntegrationPoint_GaussianQuadrature[n]-(int)dfm2::kNumIntegrationPoint_GaussianQuadrature[n-1]==n,"number of points"); quad1(dfm2::kPositionWeight_GaussianQuadrature<double>+dfm2::kNumIntegrationPoint_GaussianQuadrature[n-1],n,2*n-1,1e-12); }
SX_ENTRY(gauss_kronrod){ optl(); quad1(dfm2::kPositionWeight_GaussKronrodQuadrature<double>,15,23,1e-12); const double(*P)[2]=dfm2::kPositionWeight_GaussKronrodQuadrature<double>; for(int i=0;i<7;i++) sx_check(P[i][0]==dfm2::kPositionWeight_GaussianQuadrature<double>[21+i][0],"shares the Gauss points"); }
static double fac(int n){ double r=1; for(int i=2;i<=n;i++) r*=i; return r; }
SX_ENTRY(gauss_tri){ optl(); int k=sx_choose("rule",3); static const int dg[3]={1,2,5}; int n=dfm2::NIntTriGauss[k],m=0; double q=0,e=0; for(int a=0;a<=dg[k];a++) for(int b=0;a+b<=dg[k];b++){ double c=sx_real_in(NM("k",m++),-1,1),w=0; for(int i=0;i<n;i++){ const double*P=dfm2::TriGauss<double>[k][i]; double x=P[2]; for(int j=0;j<a;j++) x*=P[0]; for(int j=0;j<b;j++) x*=P[1]; w+=x; } q+=c*w; e+=c*(2*fac(a)*fac(b)/fac(a+b+2)); } sx_check((q-e<2e-9)&(e-q<2e-9),"rule is exact to its degree"); for(int i=0;i<n;i++){ const double*P=dfm2::TriGauss<double>[k][i]; sx_check((P[0]>0)&(P[1]>0)&(P[0]+P[1]<1)&(P[2]>0),"points inside, weights positive"); } }
SX_ENTRY(gauss_tet){ optl(); int k=sx_choose("rule",4); static const int dg[4]={1,2,3,4}; int n=dfm2::NIntTetGauss[k],m=0; double q=0,e=0; for(int a=0;a<=dg[k];a++) for(int b=0;a+b<=dg[k];b++) for(int d=0;a+b+d<=dg[k];d++){ double c=sx_real_in(NM("k",m++),-1,1),w=0; for(int i=0;i<n;i++){ const double*P=dfm2::TetGauss<double>[k][i]; double x=P[3]; for(int j=0;j<a;j++) x*=P[0]; for(int j=0;j<b;j++) x*=P[1]; for(int j=0;j<d;j++) x*=P[2]; w+=x; } q+=c*w; e+=c*(6*fac(a)*fac(b)*fac(d)/fac(a+b+d+3)); } sx_check((q-e<1e-10)&(e-q<1e-10),"rule is exact to its degree"); for(int i=0;i<n;i++){ const double*P=dfm2::TetGauss<double>[k][i]; sx_check((P[0]>0)&(P[1]>0)&(P[2]>0)&(P[0]+P[1]+P[2]<1),"points inside"); } }
// ---- element-matrix helpers
SX_ENTRY(green){ optl(); double D2[2][2],C2[2][2]; all(&D2[0][0],4,"d"); dfm2::RightCauchyGreen_DispGrad<2>(C2,D2); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ double s=0; for(int k=0;k<2;k++) s+=((k==i)+D2[k][i])*((k==j)+D2[k][j]); sx_eq(C2[i][j],s,"C = F^T F"); } double D[3][3],C[3][3]; all(&D[0][0],9,"e"); dfm2::RightCauchyGreen_DispGrad<3>(C,D); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=((k==i)+D[k][i])*((k==j)+D[k][j]); sx_eq(C[i][j],s,"C = F^T F"); } }
SX_ENTRY(detinv){ optl(); double C[3][3],I[3][3]; all(&C[0][0],9,"c"); double d=det3(C); sx_assume((d>0.01)|(d<-0.01)); double e=dfm2::DetInv_Mat3<double>(I,C); sx_eq(d,e,"determinant"); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=C[i][k]*I[k][j]; sx_eq(s,i==j?1.:0.,"inverse"); } }
SX_ENTRY(dispgrad){ optl(); double g[4][3],u[4][3],d[3][3]; all(&g[0][0],12,"g"); all(&u[0][0],12,"u"); dfm2::DispGrad_GradshapeDisp<3,4,double>(d,g,u); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int n=0;n<4;n++) s+=u[n][i]*g[n][j]; sx_eq(d[i][j],s,"displacement gradient"); } }
SX_ENTRY(fetch){ optl(); double v[20]; all(v,20,"v"); unsigned ip[3]; for(int i=0;i<3;i++) ip[i]=sx_choose(NM("i",i),4); double o[3][3],q[3][2]; dfm2::FetchData<3,3,double>(o,ip,v,5); for(int i=0;i<3;i++) for(int k=0;k<3;k++) sx_eq(o[i][k],v[ip[i]*5+k],"strided"); dfm2::FetchData<3,2,double>(q,ip,v); for(int i=0;i<3;i++) for(int k=0;k<2;k++) sx_eq(q[i][k],v[ip[i]*2+k],"default stride"); }
SX_ENTRY(mass){ optl(); double w=sx_real_in("w",0.1,4); int add=sx_choose("add",2);
  double M[4][4][3][3],I[4][4][3][3]; for(int i=0;i<144;i++) (&M[0][0][0][0])[i]=(&I[0][0][0][0])[i]=add?0.5*(i%7):0; if(add) dfm2::AddEmatConsistentMassTet<3>(M,w); else dfm2::SetEmatConsistentMassTet(M,w); for(int i=0;i<4;i++) for(int j=0;j<4;j++) for(int a=0;a<3;a++) for(int b=0;b<3;b++){ double e=M[i][j][a][b]-I[i][j][a][b]-(a==b?w*(i==j?2:1)/20.:0); sx_check((e<1e-9)&(e>-1e-9),"consistent mass of a tetrahedron"); }
  double N[3][3][2][2],J[3][3][2][2]; for(int i=0;i<36;i++) (&N[0][0][0][0])[i]=(&J[0][0][0][0])[i]=0.5*(i%7); dfm2::EmatConsistentMassTri2<2>(N,w,add==1); for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int a=0;a<2;a++) for(int b=0;b<2;b++){ double e=N[i][j][a][b]-(add?J[i][j][a][b]:0)-(a==b?w*(i==j?2:1)/12.:0); sx_check((e<1e-9)&(e>-1e-9),"consistent mass of a triangle"); } }
SX_ENTRY(laplace){ optl(); double w=sx_real_in("w",0.1,4),g[4][3],C[4][4],D[4][4][3][3]; all(&g[0][0],12,"g"); dfm2::SetEMatLaplaceTet(C,w,g); dfm2::SetEMatLaplaceTet(D,w,g); for(int i=0;i<4;i++) for(int j=0;j<4;j++){ double s=w*(g[i][0]*g[j][0]+g[i][1]*g[j][1]+g[i][2]*g[j][2]); sx_eq(C[i][j],s,"scalar Laplacian"); for(int a=0;a<3;a++) for(int b=0;b<3;b++) sx_eq(D[i][j][a][b],a==b?s:0.,"vector Laplacian"); } double M[4][4][3][3],v[4][3],R[4][3],Q[4][3],k=sx_real("k"); for(int i=0;i<144;i++) (&M[0][0][0][0])[i]=(i*5%11)-4; all(&v[0][0],12,"v"); all(&R[0][0],12,"r"); for(int i=0;i<12;i++) Q[i/3][i%3]=R[i/3][i%3]; dfm2::AddEmatEvecScale3<4>(R,M,v,k); for(int i=0;i<4;i++) for(int a=0;a<3;a++){ double s=0; for(int j=0;j<4;j++) for(int b=0;b<3;b++) s+=M[i][j][a][b]*v[j][b]; sx_eq(R[i][a],Q[i][a]+k*s,"scaled block product"); } }
