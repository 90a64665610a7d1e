// C19: linear FEM element matrices are the exact Hessian of the quadratic energy they discretise
#include "sx.h"
#include <vector>
#include <cmath>
#include <cassert>
#include <climits>
#include <complex>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_helmholtz.h"
#include "delfem2/fem_stokes.h"
#include "delfem2/femutil.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef std::complex<double> Z;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
// triangles: one vertex anywhere on the positive side; all three when full
static const double TR[3][3][2]={{{0,0},{2,0},{0.5,1.5}},{{1,-1},{3,0.5},{-0.5,2}},{{-1,0.25},{0.5,-2},{1.5,1}}};
static const double TE[2][4][3]={{{0,0,0},{2,0.5,0},{0.25,1.5,-0.5},{0.5,0.25,2}},{{1,-1,0.5},{-1,0.5,1},{0.5,1,3},{2,2,0}}};
static double area(const double c[3][2]){ return 0.5*((c[1][0]-c[0][0])*(c[2][1]-c[0][1])-(c[1][1]-c[0][1])*(c[2][0]-c[0][0])); }
static double tri(double c[3][2],bool full=false){ int w=sx_choose("base",3); for(int i=0;i<6;i++) (&c[0][0])[i]=TR[w][i/2][i%2]; if(full) all(&c[0][0],6,"c"); else { int k=sx_choose("vtx",3); c[k][0]=sx_real_in("cx",-4,4); c[k][1]=sx_real_in("cy",-4,4); } double a=area(c); sx_assume(a>0.01); return a; }
static double vol(const double c[4][3]){ double a[3],b[3],d[3]; for(int k=0;k<3;k++){ a[k]=c[1][k]-c[0][k]; b[k]=c[2][k]-c[0][k]; d[k]=c[3][k]-c[0][k]; } return (a[0]*(b[1]*d[2]-b[2]*d[1])+a[1]*(b[2]*d[0]-b[0]*d[2])+a[2]*(b[0]*d[1]-b[1]*d[0]))/6; }
static double tet(double c[4][3]){ int w=sx_choose("base",2),k=sx_choose("vtx",4); for(int i=0;i<12;i++) (&c[0][0])[i]=TE[w][i/3][i%3]; c[k][0]=sx_real_in("cx",-4,4); c[k][1]=sx_real_in("cy",-4,4); c[k][2]=sx_real_in("cz",-4,4); double v=vol(c); sx_assume(v>0.01); return v; }
// gradient of the affine interpolant of nodal values (stride s) by Cramer's rule
static void grad2(double g[2],const double c[3][2],const double*v,int s){ double e0[2]={c[1][0]-c[0][0],c[1][1]-c[0][1]},e1[2]={c[2][0]-c[0][0],c[2][1]-c[0][1]},a=v[s]-v[0],b=v[2*s]-v[0]; double det=e0[0]*e1[1]-e0[1]*e1[0]; g[0]=(a*e1[1]-b*e0[1])/det; g[1]=(e0[0]*b-e1[0]*a)/det; }
static void grad3(double g[3],const double c[4][3],const double*v,int s){ double e[3][3],r[3]; for(int i=0;i<3;i++){ r[i]=v[(i+1)*s]-v[0]; for(int k=0;k<3;k++) e[i][k]=c[i+1][k]-c[0][k]; } double det=6*vol(c); for(int k=0;k<3;k++){ double m[3][3]; for(int i=0;i<9;i++) m[i/3][i%3]=i%3==k?r[i/3]:e[i/3][i%3]; g[k]=(m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]))/det; } }
// integral of the product of two linear interpolants over a simplex with n nodes
static double mass(const double*u,const double*v,int n,int s){ double a=0,b=0,c=0; for(int i=0;i<n;i++){ a+=u[i*s]; b+=v[i*s]; c+=u[i*s]*v[i*s]; } return (a*b+c)/(n*(n+1)); }
// residual = -dE/dx, matrix = d2E/dx2
static void hess(double E,const double*x,int n,const double*res,const double*mat,const char*what="matrix is the Hessian of the energy"){ double*d=new double[n]; for(int i=0;i<n;i++){ d[i]=sx_d(E,x[i]); if(res) sx_eq(res[i],-d[i],"residual is minus the energy gradient"); } for(int i=0;i<n;i++) for(int j=0;j<n;j++) sx_eq(mat[i*n+j],sx_d(d[i],x[j]),what); delete[] d; }
template<int N,int D> static void flat(double*o,const double m[N][N][D][D]){ for(int i=0;i<N;i++) for(int j=0;j<N;j++) for(int a=0;a<D;a++) for(int b=0;b<D;b++) o[(i*D+a)*N*D+j*D+b]=m[i][j][a][b]; }
// ---- Poisson and diffusion
SX_ENTRY(poisson_tri){ optl(); double c[3][2],v[3],r[3],m[3][3]; double A=tri(c,T); all(v,3,"v"); double al=sx_real("alpha"),s=sx_real("source"); dfm2::EMat_Poisson_Tri2D(r,m,al,s,c,v); double g[2]; grad2(g,c,v,1); double E=0.5*al*A*(g[0]*g[0]+g[1]*g[1])-s*A*(v[0]+v[1]+v[2])/3; hess(E,v,3,r,&m[0][0]); for(int i=0;i<3;i++) sx_eq(m[i][0]+m[i][1]+m[i][2],0,"constants are in the kernel"); }
SX_ENTRY(poisson_tet){ optl(); double c[4][3],v[4],r[4],m[4][4]; double A=tet(c); all(v,4,"v"); double al=sx_real("alpha"),s=sx_real("source"); dfm2::EMat_Poisson_Tet3D(r,m,al,s,c,v); double g[3]; grad3(g,c,v,1); double E=0.5*al*A*(g[0]*g[0]+g[1]*g[1]+g[2]*g[2])-s*A*(v[0]+v[1]+v[2]+v[3])/4; hess(E,v,4,r,&m[0][0]); for(int i=0;i<4;i++) sx_eq(m[i][0]+m[i][1]+m[i][2]+m[i][3],0,"constants are in the kernel"); }
static void diffu(int n){ double c2[3][2],c3[4][3],v[4],w[4],r[4],m[16],A; if(n==3) A=tri(c2); else A=tet(c3); all(v,n,"v"); all(w,n,"w"); double al=sx_real("alpha"),s=sx_real("source"),dt=sx_real_in("dt",0,1),ga=sx_real_in("gamma",0,1),rho=sx_real("rho"); if(n==3) dfm2::EMat_Diffusion_Tri2D(r,(double(*)[3])m,al,s,dt,ga,rho,c2,v,w); else dfm2::EMat_Diffusion_Newmark_Tet3D(r,(double(*)[4])m,al,s,dt,ga,rho,c3,v,w); double p[4],q[4]; all(p,n,"p"); for(int i=0;i<n;i++) q[i]=v[i]+dt*w[i]; double gp[3]={0,0,0},gq[3]={0,0,0},sp=0; if(n==3){ grad2(gp,c2,p,1); grad2(gq,c2,q,1); } else { grad3(gp,c3,p,1); grad3(gq,c3,q,1); } for(int i=0;i<n;i++) sp+=p[i]; double dot=gp[0]*gq[0]+gp[1]*gq[1]+gp[2]*gq[2],self=gp[0]*gp[0]+gp[1]*gp[1]+gp[2]*gp[2]; double R=0,Q=0; for(int i=0;i<n;i++){ R+=r[i]*p[i]; for(int j=0;j<n;j++) Q+=p[i]*m[i*n+j]*p[j]; } sx_eq(R,s*A*sp/n-al*A*dot-rho*A*mass(p,w,n,1),"weak residual at the predicted value"); sx_eq(Q,rho*A*mass(p,p,n,1)+ga*dt*al*A*self,"mass plus scaled conduction matrix"); for(int i=0;i<n;i++) for(int j=0;j<i;j++) sx_eq(m[i*n+j],m[j*n+i],"symmetric"); }
SX_ENTRY(diffusion_tri){ optl(); diffu(3); } SX_ENTRY(diffusion_tet){ optl(); diffu(4); }
// bilinear rectangle: exact integral by Simpson's rule
static const double SIM[3]={1./6,4./6,1./6};
static void gq(double g[2],const double*u,int s,double x,double y,double lx,double ly){ g[0]=((u[s]-u[0])*(1-y)+(u[2*s]-u[3*s])*y)/lx; g[1]=((u[3*s]-u[0])*(1-x)+(u[2*s]-u[s])*x)/ly; }
SX_ENTRY(poisson_rect){ optl(); double u[4],m[4][4],lx=sx_real_in("lx",0.1,4),ly=sx_real_in("ly",0.1,4); all(u,4,"u"); double E=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double g[2]; gq(g,u,1,i*0.5,j*0.5,lx,ly); E+=0.5*SIM[i]*SIM[j]*lx*ly*(g[0]*g[0]+g[1]*g[1]); } dfm2::EMat_Poission2_QuadOrth(m,lx,ly); hess(E,u,4,nullptr,&m[0][0]); }
SX_ENTRY(poisson_rect_gauss){ optl(); double m[4][4],k[4][4]; static const double L[3][2]={{1,1},{2,0.5},{0.75,1.5}}; int w=sx_choose("size",3),g=1+sx_choose("gauss",5); dfm2::EMat_Poission2_QuadOrth(k,L[w][0],L[w][1]); dfm2::EMat_Poisson2_QuadOrth_GaussInt(m,L[w][0],L[w][1],g); double v[4]; all(v,4,"v",-1,1); for(int i=0;i<4;i++){ double a=0,s=0; for(int j=0;j<4;j++){ a+=(m[i][j]-k[i][j])*v[j]; s+=m[i][j]; } sx_check((a<1e-6)&(a>-1e-6),"numerical integration agrees with the exact matrix"); sx_eq(s,0,"constants are in the kernel"); } }
SX_ENTRY(solid_rect_gauss){ optl(); double m[4][4][2][2],M[64]; static const double L[3][2]={{1,1},{2,0.5},{0.75,1.5}}; int w=sx_choose("size",3),gs=1+sx_choose("gauss",3); double mu=sx_real_in("mu",0,2),la=sx_real_in("lambda",0,2),lx=L[w][0],ly=L[w][1]; dfm2::EMat_SolidLinear2_QuadOrth_GaussInt(m,lx,ly,mu,la,gs); flat<4,2>(M,m); static const double X[4][2]={{0,0},{1,0},{1,1},{0,1}}; for(int i=0;i<8;i++){ double tx=0,ty=0,ro=0; for(int j=0;j<4;j++){ tx+=M[i*8+2*j]; ty+=M[i*8+2*j+1]; ro+=-M[i*8+2*j]*X[j][1]*ly+M[i*8+2*j+1]*X[j][0]*lx; } sx_check(fabs(tx)<1e-9&&fabs(ty)<1e-9,"translations are free"); sx_check(fabs(ro)<1e-9,"rotation is free"); for(int j=0;j<i;j++) sx_eq(M[i*8+j],M[j*8+i],"symmetric"); } double u[8]; for(int i=0;i<8;i++) u[i]=((i*7+3)%5-2)*0.5+(i==w?0.25:0); double Q=0,E=0; for(int i=0;i<8;i++) for(int j=0;j<8;j++) Q+=u[i]*M[i*8+j]*u[j]; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double a[2],b[2]; gq(a,u,2,i*0.5,j*0.5,lx,ly); gq(b,u+1,2,i*0.5,j*0.5,lx,ly); double tr=a[0]+b[1],s=0.5*(a[1]+b[0]); E+=SIM[i]*SIM[j]*lx*ly*(la*tr*tr+2*mu*(a[0]*a[0]+b[1]*b[1]+2*s*s)); } sx_check(fabs(Q-E)<1e-6,"twice the elastic energy of a bilinear displacement"); }
// ---- linear elasticity
static double dens(const double G[3][3],int n,double la,double mu){ double tr=0,s=0; for(int i=0;i<n;i++){ tr+=G[i][i]; for(int j=0;j<n;j++){ double e=0.5*(G[i][j]+G[j][i]); s+=e*e; } } return 0.5*la*tr*tr+mu*s; }
SX_ENTRY(solid_tri){ optl(); double c[3][2],u[3][2],r[3][2],m[3][3][2][2],M[36]; double A=tri(c); all(&u[0][0],6,"u"); double mu=sx_real("mu"),la=sx_real("lambda"),rho=sx_real("rho"),gx=sx_real("gx"),gy=sx_real("gy"); dfm2::EMat_SolidStaticLinear_Tri2D(r,m,mu,la,rho,gx,gy,u,c); double G[3][3]; grad2(G[0],c,&u[0][0],2); grad2(G[1],c,&u[0][1],2); double E=A*dens(G,2,la,mu)-rho*A*(gx*(u[0][0]+u[1][0]+u[2][0])+gy*(u[0][1]+u[1][1]+u[2][1]))/3; flat<3,2>(M,m); hess(E,&u[0][0],6,&r[0][0],M); for(int i=0;i<6;i++){ double ro=0; for(int j=0;j<3;j++) ro+=-M[i*6+2*j]*c[j][1]+M[i*6+2*j+1]*c[j][0]; sx_eq(ro,0,"infinitesimal rotation is free"); } }
SX_ENTRY(solid_tri_dynamic){ optl(); double c[3][2],u[3][2],v[3][2],a[3][2],r[3][2],m[3][3][2][2]; double A=tri(c); all(&u[0][0],6,"u"); all(&v[0][0],6,"v"); all(&a[0][0],6,"a"); double mu=sx_real("mu"),la=sx_real("lambda"),rho=sx_real("rho"),gx=sx_real("gx"),gy=sx_real("gy"),dt=sx_real_in("dt",0,1),ga=0.5,be=sx_real_in("beta",0,1); bool ini=sx_choose("initial",2); dfm2::EMat_SolidDynamicLinear_Tri2D(r,m,mu,la,rho,gx,gy,dt,ga,be,u,v,a,c,ini); double k[3][3][2][2],rs[3][2],up[3][2]; for(int i=0;i<6;i++) (&up[0][0])[i]=(&u[0][0])[i]+(ini?dt*(&v[0][0])[i]+0.5*dt*dt*(&a[0][0])[i]:0); dfm2::EMat_SolidStaticLinear_Tri2D(rs,k,mu,la,rho,gx,gy,up,c); for(int i=0;i<3;i++) for(int d=0;d<2;d++){ double s=rs[i][d]; for(int j=0;j<3;j++) s-=rho*A*(i==j?2:1)/12*a[j][d]; sx_eq(r[i][d],s,"residual at the predicted displacement minus inertia"); for(int j=0;j<3;j++) for(int e=0;e<2;e++) sx_eq(m[i][j][d][e],(d==e?rho*A*(i==j?2:1)/12:0)+be*dt*dt*k[i][j][d][e],"Newmark matrix"); } }
SX_ENTRY(solid_tet){ optl(); double c[4][3],u[4][3],r[4][3],m[4][4][3][3],M[144]; double A=tet(c); all(&u[0][0],12,"u"); double mu=sx_real("mu"),la=sx_real("lambda"),f[4][3]; bool add=sx_choose("add",2); for(int i=0;i<12;i++) (&f[0][0])[i]=(&r[0][0])[i]=add?sx_real(NM("f",i)):0; for(int i=0;i<144;i++) (&m[0][0][0][0])[i]=0; dfm2::EMat_SolidLinear_Static_Tet(m,r,mu,la,c,u,add); double G[3][3]; for(int d=0;d<3;d++) grad3(G[d],c,&u[0][d],3); double E=A*dens(G,3,la,mu); if(add) for(int i=0;i<12;i++) E-=(&f[0][0])[i]*(&u[0][0])[i]; flat<4,3>(M,m); hess(E,&u[0][0],12,&r[0][0],M); }
SX_ENTRY(solid_tet_rigid){ optl(); double c[4][3],u[4][3],r[4][3],m[4][4][3][3]; tet(c); double w[3]={sx_real("wx"),sx_real("wy"),sx_real("wz")},o[3]={sx_real("ox"),sx_real("oy"),sx_real("oz")}; for(int i=0;i<4;i++) for(int d=0;d<3;d++) u[i][d]=o[d]+w[(d+1)%3]*c[i][(d+2)%3]-w[(d+2)%3]*c[i][(d+1)%3]; dfm2::EMat_SolidLinear_Static_Tet(m,r,1.5,0.75,c,u,false); for(int i=0;i<12;i++) sx_eq((&r[0][0])[i],0,"rigid motion needs no force"); }
SX_ENTRY(solid_tet_dynamic){ optl(); double c[4][3],u[4][3],v[4][3],a[4][3],r[4][3],m[4][4][3][3]; double A=tet(c); all(&u[0][0],12,"u"); all(&v[0][0],12,"v"); all(&a[0][0],12,"a"); double mu=1.25,la=0.5,rho=sx_real("rho"),g[3]={sx_real("gx"),sx_real("gy"),sx_real("gz")},dt=sx_real_in("dt",0,1),be=sx_real_in("beta",0,1); bool ini=sx_choose("initial",2); dfm2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(r,m,mu,la,rho,g[0],g[1],g[2],dt,0.5,be,u,v,a,c,ini); double k[4][4][3][3],rs[4][3],up[4][3]; for(int i=0;i<12;i++) (&up[0][0])[i]=(&u[0][0])[i]+(ini?dt*(&v[0][0])[i]+0.5*dt*dt*(&a[0][0])[i]:0); dfm2::EMat_SolidLinear_Static_Tet(k,rs,mu,la,c,up,false); for(int i=0;i<4;i++) for(int d=0;d<3;d++){ double s=rs[i][d]+rho*A*g[d]/4; for(int j=0;j<4;j++) s-=rho*A*(i==j?2:1)/20*a[j][d]; sx_eq(r[i][d],s,"residual at the predicted displacement minus inertia"); for(int j=0;j<4;j++) for(int e=0;e<3;e++) sx_eq(m[i][j][d][e],(d==e?rho*A*(i==j?2:1)/20:0)+be*dt*dt*k[i][j][d][e],"Newmark matrix"); } }
// quadratic tetrahedron: values at the mid-edges integrate quadratics exactly
static const int ED[6][2]={{0,1},{1,2},{0,2},{0,3},{1,3},{2,3}};
static void dN(double d[10][3],const double l[4],const double dl[4][3]){ for(int k=0;k<3;k++){ for(int i=0;i<4;i++) d[i][k]=(4*l[i]-1)*dl[i][k]; for(int e=0;e<6;e++){ int a=ED[e][0],b=ED[e][1]; d[4+e][k]=4*(l[a]*dl[b][k]+l[b]*dl[a][k]); } } }
static void dlc(double dl[4][3],const double c[4][3]){ for(int i=0;i<4;i++){ double v[4]={0,0,0,0}; v[i]=1; grad3(dl[i],c,v,1); } }
SX_ENTRY(solid_tet2){ optl(); int w=sx_choose("base",2); double c[4][3]; for(int i=0;i<12;i++) (&c[0][0])[i]=TE[w][i/3][i%3]; double A=vol(c),dl[4][3]; dlc(dl,c); static double m[10][10][3][3]; double r[10][3],u[10][3]; all(&u[0][0],30,"u",-1,1); double mu=1.5,la=0.75,rho=sx_real_in("rho",0,2),g[3]; all(g,3,"g",-1,1); dfm2::matRes_LinearSolid_TetP2(m,r,A,la,mu,g[0],g[1],g[2],rho,dl,u); double f[10][3]; for(int i=0;i<10;i++) for(int k=0;k<3;k++) f[i][k]=rho*g[k]*A*(i<4?-0.05:0.2); for(int q=0;q<10;q++){ double l[4]={0,0,0,0},wq; if(q<4){ l[q]=1; wq=-0.05*A; } else { l[ED[q-4][0]]=l[ED[q-4][1]]=0.5; wq=0.2*A; } double s[3][3],d[10][3]; dfm2::stress_LinearSolid_TetP2(s,l[0],l[1],l[2],l[3],A,la,mu,0,0,0,dl,u); dN(d,l,dl); double G[3][3]={{0,0,0},{0,0,0},{0,0,0}}; for(int i=0;i<10;i++) for(int a=0;a<3;a++) for(int b=0;b<3;b++) G[a][b]+=u[i][a]*d[i][b]; double tr=G[0][0]+G[1][1]+G[2][2]; for(int a=0;a<3;a++) for(int b=0;b<3;b++) sx_eq(s[a][b],mu*(G[a][b]+G[b][a])+(a==b?la*tr:0),"stress of the quadratic displacement"); for(int i=0;i<10;i++) for(int a=0;a<3;a++) for(int b=0;b<3;b++) f[i][a]-=wq*s[a][b]*d[i][b]; } for(int i=0;i<10;i++) for(int a=0;a<3;a++){ double e=r[i][a]-f[i][a]; sx_check((e<1e-6)&(e>-1e-6),"residual is the load minus the integrated stress"); double kk=0; for(int j=0;j<10;j++) for(int b=0;b<3;b++){ sx_eq(m[i][j][a][b],m[j][i][b][a],"symmetric"); kk+=m[i][j][a][b]*u[j][b]; } sx_check((r[i][a]+kk-rho*g[a]*A*(i<4?-0.05:0.2)<1e-6)&(r[i][a]+kk-rho*g[a]*A*(i<4?-0.05:0.2)>-1e-6),"residual is load minus matrix times displacement"); } }
static const double HX[2][8][3]={{{0,0,0},{2,0,0},{2,1,0},{0,1,0},{0,0,1.5},{2,0,1.5},{2,1,1.5},{0,1,1.5}},{{0,0,0},{2,0.25,0},{2.25,1.5,0.25},{-0.25,1,0},{0.25,0,1.5},{1.75,-0.25,1.25},{2,1,1.75},{0,1.25,1.5}}};
SX_ENTRY(solid_hex){ optl(); int w=sx_choose("base",2); static double m[8][8][3][3]; double c[8][3],u[8][3],r[8][3],g[3],mu=1.5,la=0.75,rho=sx_real_in("rho",0,2); for(int i=0;i<24;i++) (&c[0][0])[i]=HX[w][i/3][i%3]; all(g,3,"g",-1,1); double H[3][3],o[3]; all(&H[0][0],9,"H",-1,1); all(o,3,"o",-1,1); for(int i=0;i<8;i++) for(int k=0;k<3;k++) u[i][k]=o[k]+H[k][0]*c[i][0]+H[k][1]*c[i][1]+H[k][2]*c[i][2]; dfm2::elemMatRes_LinearSolidGravity3_Static_Q1(mu,la,rho,g,c,u,m,r); double S[3][3],tr=H[0][0]+H[1][1]+H[2][2]; for(int a=0;a<3;a++) for(int b=0;b<3;b++) S[a][b]=mu*(H[a][b]+H[b][a])+(a==b?la*tr:0); double V=0,sum[3]={0,0,0},vir[3][3]; for(int i=0;i<9;i++) vir[i/3][i%3]=0; static const int TT[6][4]={{0,1,2,6},{0,2,3,6},{0,3,7,6},{0,7,4,6},{0,4,5,6},{0,5,1,6}}; (void)TT; for(int i=0;i<8;i++) for(int a=0;a<3;a++){ double f=0; for(int j=0;j<8;j++) for(int b=0;b<3;b++) f+=m[i][j][a][b]*u[j][b]; sum[a]+=f; for(int b=0;b<3;b++) vir[a][b]+=f*c[i][b]; for(int j=0;j<=i;j++) for(int b=0;b<3;b++) sx_eq(m[i][j][a][b],m[j][i][b][a],"symmetric"); } 
  // volume of the trilinear cell by the tensor Simpson rule
  static const double SG[8][3]={{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}}; for(int a=0;a<3;a++) for(int b=0;b<3;b++) for(int e=0;e<3;e++){ double q[3]={a-1.,b-1.,e-1.},J[3][3]={{0,0,0},{0,0,0},{0,0,0}}; for(int i=0;i<8;i++) for(int d=0;d<3;d++) for(int k=0;k<3;k++) J[k][d]+=0.125*SG[i][d]*(1+SG[i][(d+1)%3]*q[(d+1)%3])*(1+SG[i][(d+2)%3]*q[(d+2)%3])*c[i][k]; V+=8*SIM[a]*SIM[b]*SIM[e]*(J[0][0]*(J[1][1]*J[2][2]-J[1][2]*J[2][1])-J[0][1]*(J[1][0]*J[2][2]-J[1][2]*J[2][0])+J[0][2]*(J[1][0]*J[2][1]-J[1][1]*J[2][0])); }
  double tot[3]={0,0,0}; for(int i=0;i<8;i++) for(int a=0;a<3;a++) tot[a]+=r[i][a]; for(int a=0;a<3;a++){ sx_check((sum[a]<1e-6)&(sum[a]>-1e-6),"internal forces balance"); double e=tot[a]-rho*g[a]*V; sx_check((e<1e-5)&(e>-1e-5),"load is density times gravity times volume"); for(int b=0;b<3;b++){ double d=vir[a][b]-S[a][b]*V; sx_check((d<1e-5)&(d>-1e-5),"affine displacement gives the constant stress"); } } }
SX_ENTRY(solid_hex_rigid){ optl(); int w=sx_choose("base",2); static double m[8][8][3][3]; double c[8][3],u[8][3],r[8][3],g[3]={0,0,0}; for(int i=0;i<24;i++) (&c[0][0])[i]=HX[w][i/3][i%3]; double om[3],o[3]; all(om,3,"w",-1,1); all(o,3,"o",-1,1); for(int i=0;i<8;i++) for(int d=0;d<3;d++) u[i][d]=o[d]+om[(d+1)%3]*c[i][(d+2)%3]-om[(d+2)%3]*c[i][(d+1)%3]; dfm2::elemMatRes_LinearSolidGravity3_Static_Q1(1.5,0.75,1,g,c,u,m,r); for(int i=0;i<24;i++){ double x=(&r[0][0])[i]; sx_check((x<1e-7)&(x>-1e-7),"rigid motion needs no force"); } }
// ---- Helmholtz
SX_ENTRY(helmholtz){ optl(); double c[3][2]; int w=sx_choose("base",3); for(int i=0;i<6;i++) (&c[0][0])[i]=TR[w][i/2][i%2]; c[w][0]+=sx_real_in("dx",-0.25,0.25); double A=area(c),wl=sx_real_in("wave",0.5,4); Z r[3],m[3][3],v[3]; for(int i=0;i<3;i++) v[i]=Z(sx_real(NM("a",i)),sx_real(NM("b",i))); dfm2::EMat_Helmholtz_Tri2D(r,m,wl,c,v); double p[3]; all(p,3,"p"); double g[2],Q=0; grad2(g,c,p,1); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ Q+=p[i]*m[i][j].real()*p[j]; sx_eq(m[i][j].imag(),0,"real matrix"); } double k0=2*3.1416; sx_eq(Q*wl*wl,wl*wl*A*(g[0]*g[0]+g[1]*g[1])-k0*k0*A*mass(p,p,3,1),"stiffness minus squared wave number times mass"); for(int i=0;i<3;i++){ double a=0,b=0; for(int j=0;j<3;j++){ a-=m[i][j].real()*v[j].real(); b-=m[i][j].real()*v[j].imag(); } sx_eq(r[i].real(),a,"residual"); sx_eq(r[i].imag(),b,"residual"); } for(int i=0;i<3;i++) for(int j=0;j<i;j++) sx_eq(m[i][j].real(),m[j][i].real(),"symmetric"); }
SX_ENTRY(radiation){ optl(); static const double D[4][3]={{3,4,5},{0,2,2},{-1.5,2,2.5},{0.5,-1.2,1.3}}; int w=sx_choose("dir",4); double ox=sx_real("ox"),oy=sx_real("oy"),P[2][2]={{ox,oy},{ox+D[w][0],oy+D[w][1]}},l=D[w][2],wl=sx_real_in("wave",0.5,4); Z r[2],m[2][2],v[2]; for(int i=0;i<2;i++) v[i]=Z(sx_real(NM("a",i)),sx_real(NM("b",i))); dfm2::EMat_SommerfeltRadiationBC_Line2D(r,m,wl,P,v); double k=2*3.1416/wl; for(int i=0;i<2;i++){ double a=0,b=0; for(int j=0;j<2;j++){ sx_eq(m[i][j].real(),0,"imaginary matrix"); sx_eq(m[i][j].imag()*k,k*k*l*(i==j?2:1)/6-(i==j?1:-1)/(2*l),"boundary mass and tangential terms"); a+=m[i][j].imag()*v[j].imag(); b-=m[i][j].imag()*v[j].real(); } sx_eq(r[i].real(),a,"residual"); sx_eq(r[i].imag(),b,"residual"); } }
// ---- Stokes: saddle-point functional with pressure stabilisation
SX_ENTRY(stokes_tri){ optl(); double c[3][2]; int w=sx_choose("base",3),k=sx_choose("vtx",3); for(int i=0;i<6;i++) (&c[0][0])[i]=TR[w][i/2][i%2]; c[k][0]+=sx_real_in("dx",-0.25,0.25); c[k][1]+=sx_real_in("dy",-0.25,0.25); double A=area(c),x[3][3],m[3][3][3][3],r[3][3],al=sx_real_in("alpha",0.1,4),gx=sx_real("gx"),gy=sx_real("gy"),M[81]; all(&x[0][0],9,"x"); dfm2::EMat_Stokes2D_Static_P1(al,gx,gy,c,x,m,r); double G[3][2]; for(int d=0;d<3;d++) grad2(G[d],c,&x[0][d],3); double e0[3]={1,0,0},g0[2]; grad2(g0,c,e0,1); double tau=m[0][0][2][2]/(A*(g0[0]*g0[0]+g0[1]*g0[1])); double pm=(x[0][2]+x[1][2]+x[2][2])/3,q=0; for(int d=0;d<2;d++) q+=G[d][0]*G[d][0]+G[d][1]*G[d][1]; double E=A*(0.5*al*q+pm*(G[0][0]+G[1][1])+0.5*tau*(G[2][0]*G[2][0]+G[2][1]*G[2][1])-gx*(x[0][0]+x[1][0]+x[2][0])/3-gy*(x[0][1]+x[1][1]+x[2][1])/3); flat<3,3>(M,m); double ta=0.1*4*A/3.14; sx_eq(tau*al,-ta,"stabilisation scales with element size over viscosity"); 
  // residual and matrix from the functional
  for(int i=0;i<9;i++){ double d=sx_d(E,(&x[0][0])[i]); sx_eq((&r[0][0])[i],-d,"residual is minus the derivative of the saddle-point functional"); for(int j=0;j<9;j++) sx_eq(M[i*9+j],sx_d(d,(&x[0][0])[j]),"matrix is its Hessian"); } }
SX_ENTRY(stokes_tri_dynamic){ optl(); double c[3][2]; int w=sx_choose("base",3),k=sx_choose("vtx",3); for(int i=0;i<6;i++) (&c[0][0])[i]=TR[w][i/2][i%2]; c[k][0]+=sx_real_in("dx",-0.25,0.25); double A=area(c),x[3][3],a[3][3],y[3][3],m[3][3][3][3],s[3][3][3][3],r[3][3],q[3][3],al=sx_real_in("alpha",0.1,4),rho=sx_real("rho"),gx=sx_real("gx"),gy=sx_real("gy"),dt=sx_real_in("dt",0,1),ga=sx_real_in("gamma",0,1); all(&x[0][0],9,"x"); all(&a[0][0],9,"a"); for(int i=0;i<9;i++) (&y[0][0])[i]=(&x[0][0])[i]+dt*(&a[0][0])[i]; dfm2::EMat_Stokes2D_Dynamic_P1(al,rho,gx,gy,dt,ga,c,x,a,m,r); dfm2::EMat_Stokes2D_Static_P1(al,gx,gy,c,y,s,q); for(int i=0;i<3;i++) for(int d=0;d<3;d++){ double f=q[i][d]; for(int j=0;j<3;j++){ double ms=d<2?rho*A*(i==j?2:1)/12:0; f-=ms*a[j][d]; for(int e=0;e<3;e++) sx_eq(m[i][j][d][e],(d==e?ms:0)+ga*dt*s[i][j][d][e],"mass plus scaled static matrix"); } sx_eq(r[i][d],f,"static residual at the predicted state minus inertia"); } }
SX_ENTRY(stokes_tet){ optl(); int w=sx_choose("base",2); double c[4][3]; for(int i=0;i<12;i++) (&c[0][0])[i]=TE[w][i/3][i%3]; double A=vol(c),x[4][4],r[4][4],al=1.25,g[3],M[256]; static double m[4][4][4][4]; all(&x[0][0],16,"x"); all(g,3,"g"); dfm2::MakeMat_Stokes3D_Static_P1(al,g[0],g[1],g[2],c,x,m,r); double G[4][3]; for(int d=0;d<4;d++) grad3(G[d],c,&x[0][d],4); double e0[4]={1,0,0,0},g0[3]; grad3(g0,c,e0,1); double tau=m[0][0][3][3]/(A*(g0[0]*g0[0]+g0[1]*g0[1]+g0[2]*g0[2])); sx_check(tau<0,"stabilisation has the sign of the pressure block"); double pm=(x[0][3]+x[1][3]+x[2][3]+x[3][3])/4,q=0,ld=0; for(int d=0;d<3;d++){ for(int e=0;e<3;e++) q+=G[d][e]*G[d][e]; ld+=g[d]*(x[0][d]+x[1][d]+x[2][d]+x[3][d])/4; } double E=A*(0.5*al*q+pm*(G[0][0]+G[1][1]+G[2][2])+0.5*tau*(G[3][0]*G[3][0]+G[3][1]*G[3][1]+G[3][2]*G[3][2])-ld); flat<4,4>(M,m); for(int i=0;i<16;i++){ double d=sx_d(E,(&x[0][0])[i]); double e=(&r[0][0])[i]+d; sx_check((e<1e-7)&(e>-1e-7),"residual is minus the derivative of the saddle-point functional"); for(int j=0;j<16;j++) sx_check(fabs(M[i*16+j]-sx_d(d,(&x[0][0])[j]))<1e-9,"matrix is its Hessian"); } }
SX_ENTRY(stokes_tet_dynamic){ optl(); int w=sx_choose("base",2); double c[4][3]; for(int i=0;i<12;i++) (&c[0][0])[i]=TE[w][i/3][i%3]; double A=vol(c),x[4][4],a[4][4],y[4][4],r[4][4],q[4][4],al=1.25,g[3],rho=sx_real_in("rho",0,2),dt=0.5,ga=0.75; static double m[4][4][4][4],s[4][4][4][4]; all(&x[0][0],16,"x"); all(&a[0][0],16,"a"); all(g,3,"g"); for(int i=0;i<16;i++) (&y[0][0])[i]=(&x[0][0])[i]+dt*(&a[0][0])[i]; bool split=sx_choose("split",2); if(!split) dfm2::MakeMat_Stokes3D_Dynamic_P1(al,rho,g[0],g[1],g[2],dt,ga,c,x,a,m,r); else { double v[4][3],p[4],av[4][3],ap[4],uu[4][4][3][3],up[4][4][3],pu[4][4][3],pp[4][4],ru[4][3],rp[4]; for(int i=0;i<4;i++){ for(int d=0;d<3;d++){ v[i][d]=x[i][d]; av[i][d]=a[i][d]; } p[i]=x[i][3]; ap[i]=a[i][3]; } dfm2::MakeMat_Stokes3D_Dynamic_Newmark_P1P1(al,rho,g[0],g[1],g[2],dt,ga,c,v,p,av,ap,uu,up,pu,pp,ru,rp); for(int i=0;i<4;i++){ for(int d=0;d<3;d++) r[i][d]=ru[i][d]; r[i][3]=rp[i]; for(int j=0;j<4;j++){ for(int d=0;d<3;d++){ for(int e=0;e<3;e++) m[i][j][d][e]=uu[i][j][d][e]; m[i][j][d][3]=up[i][j][d]; m[i][j][3][d]=pu[i][j][d]; } m[i][j][3][3]=pp[i][j]; } } } dfm2::MakeMat_Stokes3D_Static_P1(al,g[0],g[1],g[2],c,y,s,q); for(int i=0;i<4;i++) for(int d=0;d<4;d++){ double f=q[i][d]; for(int j=0;j<4;j++){ double ms=d<3?rho*A*(i==j?2:1)/20:0; f-=ms*a[j][d]; for(int e=0;e<4;e++){ double z=m[i][j][d][e]-((d==e?ms:0)+ga*dt*s[i][j][d][e]); sx_check((z<1e-5)&(z>-1e-5),"mass plus scaled static matrix"); } } double z=r[i][d]-f; sx_check((z<1e-4)&(z>-1e-4),"static residual at the predicted state minus inertia"); } }
// ---- assembly over a mesh
template<class S> static void full(dfm2::CMatrixSparse<S>&m,int nb,int l){ m.Initialize(nb,l,true); std::vector<unsigned> ci(1,0),rp; for(int i=0;i<nb;i++){ for(int j=0;j<nb;j++) if(j!=i) rp.push_back(j); ci.push_back((unsigned)rp.size()); } m.SetPattern(ci.data(),ci.size(),rp.data(),rp.size()); m.setZero(); }
template<class S> static S at(const dfm2::CMatrixSparse<S>&m,int r,int c){ int l=m.nrowdim_,i=r/l,j=c/l; if(i==j) return m.val_dia_[i*l*l+(r%l)*l+c%l]; for(unsigned p=m.col_ind_[i];p<m.col_ind_[i+1];p++) if((int)m.row_ptr_[p]==j) return m.val_crs_[p*l*l+(r%l)*l+c%l]; return S(0); }
static const unsigned T2[6]={0,1,2,2,3,0}; static const unsigned T3[8]={0,1,2,3,1,4,2,3};
static const double X2[8]={0,0,2,0.25,2.25,1.5,-0.25,1}; static const double X3[15]={0,0,0,2,0.25,0,0.5,1.5,0,0.25,0.5,1.75,2,2,1.5};
template<int N,int L> static void asmb(const dfm2::CMatrixSparse<double>&A,const double*b,int np,const unsigned*el,int ne,void(*em)(int e,const unsigned*ip,double*r,double*m)){ int n=np*L; std::vector<double> D(n*n,0),R(n,0); for(int e=0;e<ne;e++){ double r[N*L],m[N*L*N*L]; em(e,el+e*N,r,m); for(int i=0;i<N*L;i++){ int a=el[e*N+i/L]*L+i%L; R[a]+=r[i]; for(int j=0;j<N*L;j++) D[a*n+el[e*N+j/L]*L+j%L]+=m[((i/L)*N+j/L)*L*L+(i%L)*L+j%L]; } } for(int i=0;i<n;i++){ sx_eq(b[i],R[i],"assembled residual"); for(int j=0;j<n;j++) sx_eq(at(A,i,j),D[i*n+j],"assembled matrix"); } }
static double gv[20],gw[20],ga_[20],xx2[8],xx3[15];
SX_ENTRY(assemble_tri){ optl(); int k=sx_choose("k",4),w=sx_choose("kind",6); for(int i=0;i<8;i++) xx2[i]=X2[i]; xx2[2*k]+=sx_real_in("dx",-0.25,0.25); static const int LL[6]={1,1,2,2,3,3}; int l=LL[w]; all(gv,4*l,"v"); all(gw,4*l,"w"); all(ga_,4*l,"a"); dfm2::CMatrixSparse<double> A; full(A,4,l); double b[12]; for(int i=0;i<12;i++) b[i]=0; 
  if(w==0){ dfm2::MergeLinSys_Poission_MeshTri2D(A,b,1.5,0.75,xx2,4,T2,2,gv); asmb<3,1>(A,b,4,T2,2,[](int,const unsigned*ip,double*r,double*m){ double c[3][2],v[3]; for(int i=0;i<3;i++){ c[i][0]=xx2[2*ip[i]]; c[i][1]=xx2[2*ip[i]+1]; v[i]=gv[ip[i]]; } dfm2::EMat_Poisson_Tri2D(r,(double(*)[3])m,1.5,0.75,c,v); }); }
  if(w==1){ dfm2::MergeLinSys_Diffusion_MeshTri2D(A,b,1.5,2,0.75,0.5,0.625,xx2,4,T2,2,gv,gw); asmb<3,1>(A,b,4,T2,2,[](int,const unsigned*ip,double*r,double*m){ double c[3][2],v[3],u[3]; for(int i=0;i<3;i++){ c[i][0]=xx2[2*ip[i]]; c[i][1]=xx2[2*ip[i]+1]; v[i]=gv[ip[i]]; u[i]=gw[ip[i]]; } dfm2::EMat_Diffusion_Tri2D(r,(double(*)[3])m,1.5,0.75,0.5,0.625,2,c,v,u); }); }
  if(w==2){ dfm2::MergeLinSys_SolidLinear_Static_MeshTri2D(A,b,1.5,0.75,2,0.5,-1,xx2,4,T2,2,gv); asmb<3,2>(A,b,4,T2,2,[](int,const unsigned*ip,double*r,double*m){ double c[3][2],v[3][2]; for(int i=0;i<3;i++) for(int d=0;d<2;d++){ c[i][d]=xx2[2*ip[i]+d]; v[i][d]=gv[2*ip[i]+d]; } dfm2::EMat_SolidStaticLinear_Tri2D((double(*)[2])r,(double(*)[3][2][2])m,1.5,0.75,2,0.5,-1,v,c); }); }
  if(w==3){ dfm2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(A,b,1.5,0.75,2,0.5,-1,0.25,0.5,0.375,xx2,4,T2,2,gv,gw,ga_); asmb<3,2>(A,b,4,T2,2,[](int,const unsigned*ip,double*r,double*m){ double c[3][2],v[3][2],u[3][2],a[3][2]; for(int i=0;i<3;i++) for(int d=0;d<2;d++){ c[i][d]=xx2[2*ip[i]+d]; v[i][d]=gv[2*ip[i]+d]; u[i][d]=gw[2*ip[i]+d]; a[i][d]=ga_[2*ip[i]+d]; } dfm2::EMat_SolidDynamicLinear_Tri2D((double(*)[2])r,(double(*)[3][2][2])m,1.5,0.75,2,0.5,-1,0.25,0.5,0.375,v,u,a,c,true); }); }
  if(w==4){ dfm2::MergeLinSys_StokesStatic2D(A,b,1.5,0.5,-1,xx2,4,T2,2,gv); asmb<3,3>(A,b,4,T2,2,[](int,const unsigned*ip,double*r,double*m){ double c[3][2],v[3][3]; for(int i=0;i<3;i++){ for(int d=0;d<2;d++) c[i][d]=xx2[2*ip[i]+d]; for(int d=0;d<3;d++) v[i][d]=gv[3*ip[i]+d]; } dfm2::EMat_Stokes2D_Static_P1(1.5,0.5,-1,c,v,(double(*)[3][3][3])m,(double(*)[3])r); }); }
  if(w==5){ dfm2::MergeLinSys_StokesDynamic2D(A,b,1.5,2,0.5,-1,0.25,0.625,xx2,4,T2,2,gv,gw); asmb<3,3>(A,b,4,T2,2,[](int,const unsigned*ip,double*r,double*m){ double c[3][2],v[3][3],u[3][3]; for(int i=0;i<3;i++){ for(int d=0;d<2;d++) c[i][d]=xx2[2*ip[i]+d]; for(int d=0;d<3;d++){ v[i][d]=gv[3*ip[i]+d]; u[i][d]=gw[3*ip[i]+d]; } } dfm2::EMat_Stokes2D_Dynamic_P1(1.5,2,0.5,-1,0.25,0.625,c,v,u,(double(*)[3][3][3])m,(double(*)[3])r); }); } }
SX_ENTRY(assemble_tet){ optl(); int k=sx_choose("k",5),w=sx_choose("kind",5); for(int i=0;i<15;i++) xx3[i]=X3[i]; xx3[3*k+1]+=sx_real_in("dx",-0.25,0.25); int l=w<2?1:3; all(gv,5*l,"v"); all(gw,5*l,"w"); all(ga_,5*l,"a"); dfm2::CMatrixSparse<double> A; full(A,5,l); double b[15]; for(int i=0;i<15;i++) b[i]=0; static const double g[3]={0.5,-1,0.25};
  if(w==0){ dfm2::MergeLinSys_Poission_MeshTet3D(A,b,1.5,0.75,xx3,5,T3,2,gv); asmb<4,1>(A,b,5,T3,2,[](int,const unsigned*ip,double*r,double*m){ double c[4][3],v[4]; for(int i=0;i<4;i++){ for(int d=0;d<3;d++) c[i][d]=xx3[3*ip[i]+d]; v[i]=gv[ip[i]]; } dfm2::EMat_Poisson_Tet3D(r,(double(*)[4])m,1.5,0.75,c,v); }); }
  if(w==1){ dfm2::MergeLinSys_Diffusion_MeshTet3D(A,b,1.5,2,0.75,0.5,0.625,xx3,5,T3,2,gv,gw); asmb<4,1>(A,b,5,T3,2,[](int,const unsigned*ip,double*r,double*m){ double c[4][3],v[4],u[4]; for(int i=0;i<4;i++){ for(int d=0;d<3;d++) c[i][d]=xx3[3*ip[i]+d]; v[i]=gv[ip[i]]; u[i]=gw[ip[i]]; } dfm2::EMat_Diffusion_Newmark_Tet3D(r,(double(*)[4])m,1.5,0.75,0.5,0.625,2,c,v,u); }); }
  if(w==2){ dfm2::MergeLinSys_SolidLinear_Static_MeshTet3D(A,b,1.5,0.75,2,g,xx3,5,T3,2,gv); asmb<4,3>(A,b,5,T3,2,[](int,const unsigned*ip,double*r,double*m){ double c[4][3],v[4][3]; for(int i=0;i<12;i++){ c[i/3][i%3]=xx3[3*ip[i/3]+i%3]; v[i/3][i%3]=gv[3*ip[i/3]+i%3]; } dfm2::EMat_SolidLinear_Static_Tet((double(*)[4][3][3])m,(double(*)[3])r,1.5,0.75,c,v,false); double V=vol(c); for(int i=0;i<12;i++) r[i]+=2*V*g[i%3]/4; }); }
  if(w==3){ dfm2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(A,b,1.5,0.75,2,g,0.25,0.5,0.375,xx3,5,T3,2,gv,gw,ga_); asmb<4,3>(A,b,5,T3,2,[](int,const unsigned*ip,double*r,double*m){ double c[4][3],v[4][3],u[4][3],a[4][3]; for(int i=0;i<12;i++){ int q=3*ip[i/3]+i%3; c[i/3][i%3]=xx3[q]; v[i/3][i%3]=gv[q]; u[i/3][i%3]=gw[q]; a[i/3][i%3]=ga_[q]; } dfm2::EMat_SolidLinear_NewmarkBeta_MeshTet3D((double(*)[3])r,(double(*)[4][3][3])m,1.5,0.75,2,0.5,-1,0.25,0.25,0.5,0.375,v,u,a,c,true); }); }
  if(w==4){ dfm2::MergeLinSys_SolidLinear_BEuler_MeshTet3D(A,b,1.5,0.75,2,g,0.5,xx3,5,T3,2,gv,gw); asmb<4,3>(A,b,5,T3,2,[](int,const unsigned*ip,double*r,double*m){ double c[4][3],v[4][3]; for(int i=0;i<12;i++){ int q=3*ip[i/3]+i%3; c[i/3][i%3]=xx3[q]; v[i/3][i%3]=gv[q]+0.5*gw[q]; } dfm2::EMat_SolidLinear_Static_Tet((double(*)[4][3][3])m,(double(*)[3])r,1.5,0.75,c,v,false); double V=vol(c); for(int i=0;i<12;i++){ r[i]=(r[i]+2*V*g[i%3]/4)/0.5; m[(i/3*4+i/3)*9+(i%3)*4]+=2*V*0.25/0.25; } }); } }
// stiffness warping: a rotated rest shape is force free, and an unrotated one is the linear solid
static const double RT[3][9]={{0.6,-0.8,0,0.8,0.6,0,0,0,1},{0.36,0.48,-0.8,-0.8,0.6,0,0.48,0.64,0.6},{0,0,1,1,0,0,0,1,0}};
SX_ENTRY(stiffwarp){ optl(); int q=sx_choose("rot",4); double x[15],d[15],v[15],o[3]={sx_real("ox"),sx_real("oy"),sx_real("oz")}; for(int i=0;i<15;i++) x[i]=X3[i]; int k=sx_choose("k",5); x[3*k]+=sx_real_in("dx",-0.25,0.25); std::vector<double> R(45); double g[3]={0,0,0}; if(q<3){ for(int i=0;i<5;i++) for(int a=0;a<9;a++) R[9*i+a]=RT[q][a]; for(int i=0;i<5;i++) for(int a=0;a<3;a++){ d[3*i+a]=o[a]-x[3*i+a]; for(int b=0;b<3;b++) d[3*i+a]+=RT[q][3*a+b]*x[3*i+b]; v[3*i+a]=0; } } else { for(int i=0;i<45;i++) R[i]=(i%9)%4==0; all(d,15,"d"); all(v,15,"v"); all(g,3,"g"); } dfm2::CMatrixSparse<double> A,B; full(A,5,3); full(B,5,3); double b[15],c[15]; for(int i=0;i<15;i++) b[i]=c[i]=0; dfm2::MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(A,b,1.5,0.75,2,g,0.5,x,5,T3,2,d,v,R); if(q<3) for(int i=0;i<15;i++) sx_eq(b[i],0,"rigidly rotated body is force free"); dfm2::MergeLinSys_SolidLinear_BEuler_MeshTet3D(B,c,1.5,0.75,2,g,0.5,x,5,T3,2,d,v); if(q==3) for(int i=0;i<15;i++){ sx_eq(b[i],c[i],"no rotation: same as the linear solid"); for(int j=0;j<15;j++) sx_eq(at(A,i,j),at(B,i,j),"no rotation: same matrix"); } else { for(int i=0;i<5;i++) for(int j=0;j<5;j++) for(int a=0;a<3;a++) for(int e=0;e<3;e++){ double s=0; for(int p=0;p<3;p++) for(int t=0;t<3;t++) s+=RT[q][3*a+p]*at(B,3*i+p,3*j+t)*RT[q][3*e+t]; sx_eq(at(A,3*i+a,3*j+e),s,"matrix is rotated on both sides"); } } }
SX_ENTRY(assemble_helmholtz){ optl(); double wl=sx_real_in("wave",0.5,4); dfm2::CMatrixSparse<Z> A; full(A,4,1); Z b[4],v[4]; for(int i=0;i<4;i++){ b[i]=0; v[i]=Z(sx_real(NM("a",i)),sx_real(NM("b",i))); } double x[8]; static const double XP[8]={3,0, 0,0, 3,4, 0,8}; int k=sx_choose("kind",2); for(int i=0;i<8;i++) x[i]=k?XP[i]:X2[i]; static const unsigned pl[4]={2,0,1,3}; Z D[16],R[4]; for(int i=0;i<16;i++) D[i]=0; for(int i=0;i<4;i++) R[i]=0; if(k==0){ dfm2::MergeLinSys_Helmholtz_MeshTri2D(A,b,wl,x,4,T2,2,v); for(int e=0;e<2;e++){ Z r[3],m[3][3],q[3]; double c[3][2]; for(int i=0;i<3;i++){ unsigned p=T2[3*e+i]; c[i][0]=x[2*p]; c[i][1]=x[2*p+1]; q[i]=v[p]; } dfm2::EMat_Helmholtz_Tri2D(r,m,wl,c,q); for(int i=0;i<3;i++){ R[T2[3*e+i]]+=r[i]; for(int j=0;j<3;j++) D[T2[3*e+i]*4+T2[3*e+j]]+=m[i][j]; } } } else { dfm2::MergeLinSys_SommerfeltRadiationBC_Polyline2D(A,b,wl,x,4,pl,4,v); for(int e=0;e<3;e++){ Z r[2],m[2][2],q[2]; double c[2][2]; for(int i=0;i<2;i++){ unsigned p=pl[e+i]; c[i][0]=x[2*p]; c[i][1]=x[2*p+1]; q[i]=v[p]; } dfm2::EMat_SommerfeltRadiationBC_Line2D(r,m,wl,c,q); for(int i=0;i<2;i++){ R[pl[e+i]]+=r[i]; for(int j=0;j<2;j++) D[pl[e+i]*4+pl[e+j]]+=m[i][j]; } } } for(int i=0;i<4;i++){ sx_eq(b[i].real(),R[i].real(),"assembled residual"); sx_eq(b[i].imag(),R[i].imag(),"assembled residual"); for(int j=0;j<4;j++){ Z a=at(A,i,j); sx_eq(a.real(),D[4*i+j].real(),"assembled matrix"); sx_eq(a.imag(),D[4*i+j].imag(),"assembled matrix"); } } }
