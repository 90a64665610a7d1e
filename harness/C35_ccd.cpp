// C35: continuous collision detection and the cloth self-collision response
#include "sx.h"
#include <cmath>
#include <cassert>
#include <set>
#include <vector>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_ccd.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_edge.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/cloth_selfcollision.cpp"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef dfm2::CVec3d V;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",6); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("float_sqrt",1); sx_opt("check_ms",8000); }
// the time of a root: one of many windows, the place inside the window is free
static double window(const char*n,const double*B,int nb,double w){ int k=sx_choose(NM(n,0),nb); return B[k]+sx_real_in(NM(n,1),0,w); }
// ------------------------------------------------------------------ coplanarity time
struct Mv{ V s[4],e[4]; };
// x1 = (1+a t)e1 (+twist), x2=(1+b t)e2, x3 = (.3,.2,d(t-rho)) seen from a moving p0, in a rotated frame
static Mv motion(double a,double b,double tw,double d,double rho,int fr){ Mv m; for(int k=0;k<2;k++){ double t=k; V q0=k?V(0.5,-0.25,0.75):V(0,0,0); V x1(1+a*t,tw*t,0), x2(-tw*t,1+b*t,0), x3(0.3+0.1*t,0.2,d*(t-rho)); V X[4]={q0,q0+x1,q0+x2,q0+x3}; V*o=k?m.e:m.s; for(int i=0;i<4;i++){ V v=X[i]; o[i]=fr==0?v:fr==1?V(v.y,v.z,v.x):V((2*v.x-2*v.y+v.z)/3,(v.x+2*v.y+2*v.z)/3,(-2*v.x-v.y+2*v.z)/3); } } return m; }
// conc: the time inside the window is fixed and the run follows floating point (two roots in the step need the extreme values)
static void coplanar(double a,double b,double tw,double d,int fr,bool wide,int conc=0){
  static const double B[9]={0.0625,0.1875,0.40625,0.625,0.78125,0.9375,-0.5,1.25,1.75}; double rho=conc?B[sx_choose("rho0",9)]+sx_choose("rho1",T?16:4)/(T?256.:64.):wide?(sx_choose("side",2)?sx_real_in("rho",1.0625,4):sx_real_in("rho",-4,-0.0625)):window("rho",B,T?9:8,T?1./512:1./4096);
  double R[3]; int n=0; R[n++]=rho; if(tw==0){ if(a!=0) R[n++]=-1/a; if(b!=0) R[n++]=-1/b; }
  bool any=false; int ni=0; for(int i=1;i<n;i++) ni+=(R[i]>0)&(R[i]<1); if(!wide&&!conc&&!T){ int in=ni+(rho>0&&rho<1); if(in%2==0) return; } for(int i=0;i<n;i++) any=any|((R[i]>0)&(R[i]<1));
  for(int i=0;i<n;i++){ sx_assume(((R[i]>1./64)|(R[i]<-1./64))&((R[i]>65./64)|(R[i]<63./64))); for(int j=0;j<i;j++) sx_assume((R[i]-R[j]>1./32)|(R[j]-R[i]>1./32)); }
  Mv m=motion(a,b,tw,d,rho,fr); double r=-7; bool res=dfm2::FindCoplanerInterp(r,m.s[0],m.s[1],m.s[2],m.s[3],m.e[0],m.e[1],m.e[2],m.e[3]);
  sx_check(res==any,"a time is reported exactly when the points become coplanar in the step"); if(res){ sx_check((r>=0)&(r<=1),"the time lies in the step"); bool near=false; for(int i=0;i<n;i++) near=near|((r-R[i]<1./16384)&(R[i]-r<1./16384)); sx_check(near,"the points are coplanar at the reported time"); } }
SX_ENTRY(coplanar_cubic){ opt(); static const double A[6]={0,-0.5,-2,-4,1,-1.6}; int ia=sx_choose("a",6), ib=sx_choose("b",T?6:3); int id=sx_choose("d",2); coplanar(A[ia],A[ib],0,id?-1:2,T?sx_choose("frame",3):(ia+ib)%3,false); }
SX_ENTRY(coplanar_even){ opt(); sx_opt("ieee",1); static const double A[6]={0,-0.5,-2,-4,1,-1.6}; int ia=sx_choose("a",6), ib=sx_choose("b",6); int id=sx_choose("d",2); coplanar(A[ia],A[ib],0,id?-1:2,sx_choose("frame",3),false,1); }
SX_ENTRY(coplanar_twist){ opt(); static const double A[3]={1,-2,0.5}; int ia=sx_choose("tw",3); coplanar(0,0,A[ia],sx_choose("d",2)?-1:2,T?sx_choose("frame",3):ia,false); }
SX_ENTRY(coplanar_none){ opt(); static const double A[3]={0,-0.5,1}; int ia=sx_choose("a",3), ib=sx_choose("b",3), t=sx_choose("tw",2); int fr=T?sx_choose("frame",3):(ia+2*ib)%3; coplanar(t?0:A[ia],t?0:A[ib],t?1:0,sx_choose("d",2)?-1:2,fr,true); }
// the vertex moves along a quadratic relative path that touches the plane, exactly representable
SX_ENTRY(coplanar_touch){ opt(); double h=sx_grid("h",1,8); int k=sx_choose("kind",2); // f=(1-2t)^2*h or the same with a growing edge
  V s[4],e[4]; for(int q=0;q<2;q++){ double t=q; V*o=q?e:s; double l=1-2*t; o[0]=V(0,0,0); o[1]=V(l,0,0); o[2]=V(0,k?1+t:1,0); o[3]=V(0.25,0.25,h*l); } double r=-7; bool res=dfm2::FindCoplanerInterp(r,s[0],s[1],s[2],s[3],e[0],e[1],e[2],e[3]); sx_check(res,"a touching contact is found"); if(res){ sx_lt(r,0.5001,"touching time"); sx_lt(0.4999,r,"touching time"); } }
// ------------------------------------------------------------------ vertex against face
static const double TAU[5]={0.09375,0.3125,0.53125,0.71875,0.90625};
static V frame(const V&v,int fr){ return fr==0?v:fr==1?V(v.y,v.z,v.x):V((2*v.x-2*v.y+v.z)/3,(v.x+2*v.y+2*v.z)/3,(-2*v.x-v.y+2*v.z)/3); }
// face of size 1 (right triangle) which moves with velocity u, vertex hits its plane at time tau at (bx,by) in face coordinates
static void fvmove(Mv&m,double bx,double by,double tau,const V&rel,const V&u,int fr){ for(int k=0;k<2;k++){ double t=k; V o=u*t; V f[4]={o,o+V(1,0,0),o+V(0,1,0),o+V(bx,by,0)+rel*(t-tau)}; for(int i=0;i<4;i++) (k?m.e:m.s)[i]=frame(f[i],fr); } }
static void fvcase(Mv&m,bool&in,bool&out,int fr){ static const V REL[4]={V(0,0,1),V(0.25,0.5,-2),V(-1,0,0.5),V(3,-2,1)}; static const V U[2]={V(0,0,0),V(0.5,-1,0.25)}; int ir=sx_choose("rel",4), iu=sx_choose("u",2), il=sx_choose("line",3); double w=sx_real_in("w",-1,2); double bx=il==0?w:il==1?0.25:w,by=il==0?0.25:il==1?w:1-w+0.0625*0; if(il==2){ bx=w*0.5; by=w*0.5; }
  double tau=window("tau",TAU,T?5:3,T?1./1024:1./8192); fvmove(m,bx,by,tau,REL[ir],U[iu],fr); double b2=1-bx-by; const double g=1./1024; in=(bx>g)&(by>g)&(b2>g); out=(bx<-g)|(by<-g)|(b2<-g); sx_assume(in|out); }
SX_ENTRY(fv_contact){ opt(); Mv m; bool in,out; int fr=sx_choose("frame",T?3:2); fvcase(m,in,out,fr?2:0); bool res=dfm2::IsContact_FV_CCD2(0,1,2,3,m.s[0],m.s[1],m.s[2],m.s[3],m.e[0],m.e[1],m.e[2],m.e[3]); if(sx_fork(in)) sx_check(res,"a vertex that goes through the face is reported"); else sx_check(!res,"a vertex that passes beside the face is not reported"); }
SX_ENTRY(fv_none){ opt(); int ir=sx_choose("rel",3), iu=sx_choose("u",2); static const V REL[3]={V(0,0,1),V(0.25,0.5,-2),V(-1,0,0.5)}; static const V U[2]={V(0,0,0),V(0.5,-1,0.25)}; double tau=sx_choose("side",2)?sx_real_in("tau",1.001,6):sx_real_in("tau",-5,-0.001); Mv m; fvmove(m,0.25,0.25,tau,REL[ir],U[iu],0); bool res=dfm2::IsContact_FV_CCD2(0,1,2,3,m.s[0],m.s[1],m.s[2],m.s[3],m.e[0],m.e[1],m.e[2],m.e[3]); sx_check(!res,"no contact when the plane is not reached in the step"); }
// the plane is crossed twice: contact at one of the crossings only
SX_ENTRY(fv_second_root){ opt(); int second=sx_choose("which",2); double w=sx_real_in("w",0.1875,0.3125); V s[4],e[4]; // plane z=(1-4t)(x-1/2), vertex on z=0: coplanar at t=1/4 and when x=1/2 (t=3/4)
  for(int k=0;k<2;k++){ double t=k,a=1-4*t; V*o=k?e:s; o[0]=V(0,0,-0.5*a); o[1]=V(1,0,0.5*a); o[2]=V(0,1,-0.5*a); o[3]=second?V(0.5+2*(t-0.75),w,0):V(0.5+0.5*(t-0.75),w-3*(t-0.25),0); }
  bool res=dfm2::IsContact_FV_CCD2(0,1,2,3,s[0],s[1],s[2],s[3],e[0],e[1],e[2],e[3]); if(second) sx_check(res,"contact at the second of two coplanar times"); else sx_check(res,"contact at the first of two coplanar times"); }
// every corner of the face moves by its own amount across the face, and the vertex meets the sheared face at time tau
static const double TAUS[5]={0.3125,0.71875,0.09375,0.53125,0.90625}; static const double HZ[5][4]={{0,0,2,1},{0,-3,0,-1},{1.5,0,0,0},{-1,2,0,3},{2,1,-3,0}};
SX_ENTRY(fv_shear){ opt(); int ih=sx_choose("h",5); const double*h=HZ[ih]; static const double RZ[4]={1,-4,4,-0.25}; double r=RZ[sx_choose("rel",T?4:2)]; int il=sx_choose("line",2); double w=sx_real_in("w",-1,2),bx=il?w:0.125,by=il?0.25:w,b2=1-bx-by; double tau=window("tau",TAUS,T?5:2,T?1./1024:1./8192); const double g=1./1024; bool in=(bx>g)&(by>g)&(b2>g),out=(bx<-g)|(by<-g)|(b2<-g); sx_assume(in|out); int fr=(T?sx_choose("frame",2):ih%2)?2:0; Mv m;
  for(int k=0;k<2;k++){ double t=k; V f[4]={V(0,0,h[0]*t),V(1,0,h[1]*t),V(0,1,h[2]*t),V(bx,by,(b2*h[0]+bx*h[1]+by*h[2])*t+r*(t-tau))}; for(int i=0;i<4;i++) (k?m.e:m.s)[i]=frame(f[i],fr); }
  bool res=dfm2::IsContact_FV_CCD2(0,1,2,3,m.s[0],m.s[1],m.s[2],m.s[3],m.e[0],m.e[1],m.e[2],m.e[3]); if(sx_fork(in)) sx_check(res,"a vertex that goes through the moving face is reported"); else sx_check(!res,"a vertex that passes beside the moving face is not reported"); }
SX_ENTRY(ee_shear){ opt(); int ih=sx_choose("h",5); const double*h=HZ[ih]; static const double RZ[4]={1,-4,4,-0.25}; double r=RZ[sx_choose("rel",T?4:2)]; int il=sx_choose("line",2); double w=sx_real_in("w",-1,2),a=il?0.25:w,b=il?w:0.375; double tau=window("tau",TAUS,T?5:2,T?1./1024:1./8192); const double g=1./1024; bool in=(w>g)&(w<1-g),out=(w<-g)|(w>1+g); sx_assume(in|out); V D(0.5,1,0),s[4],e[4];
  for(int k=0;k<2;k++){ double t=k,z=((1-a)*h[0]+a*h[1]-(1-b)*h[2]-b*h[3])*t+r*(t-tau); V f[4]={V(0,0,h[0]*t),V(1,0,h[1]*t),V(a,0,z+h[2]*t)-D*b,V(a,0,z+h[3]*t)+D*(1-b)}; for(int i=0;i<4;i++) (k?e:s)[i]=f[i]; }
  bool res=dfm2::IsContact_EE_CCD<dfm2::CBV3d_AABB>(0,1,2,3,s[0],s[1],s[2],s[3],e[0],e[1],e[2],e[3]); if(sx_fork(in)) sx_check(res,"moving edges that cross are reported"); else sx_check(!res,"moving edges that pass are not reported"); }
// ------------------------------------------------------------------ edge against edge
SX_ENTRY(ee_contact){ opt(); static const V REL[4]={V(0,0,1),V(0.25,0.5,-2),V(-1,0,0.5),V(0.5,-1.5,1)}; int ir=sx_choose("rel",4), id=sx_choose("dir",2), il=sx_choose("line",2); double w=sx_real_in("w",-1,2); double a=il?0.25:w, b=il?w:0.375; double tau=window("tau",TAU,T?5:3,T?1./1024:1./8192); V D=id?V(0,1,0):V(0.5,1,0); int fr=sx_choose("frame",T?3:2)?2:0;
  V s[4],e[4]; for(int k=0;k<2;k++){ double t=k; V c=V(a,0,0)+REL[ir]*(t-tau), o=V(0.25,-0.5,0.5)*t; V f[4]={o,o+V(1,0,0),o+c-D*b,o+c+D*(1-b)}; for(int i=0;i<4;i++) (k?e:s)[i]=frame(f[i],fr); }
  const double g=1./1024; bool in=(w>g)&(w<1-g), out=(w<-g)|(w>1+g); sx_assume(in|out); bool res=dfm2::IsContact_EE_CCD<dfm2::CBV3d_AABB>(0,1,2,3,s[0],s[1],s[2],s[3],e[0],e[1],e[2],e[3]); if(sx_fork(in)) sx_check(res,"edges that cross are reported"); else sx_check(!res,"edges that pass are not reported");
  sx_check(!dfm2::IsContact_EE_CCD<dfm2::CBV3d_AABB>(0,1,1,3,s[0],s[1],s[2],s[3],e[0],e[1],e[2],e[3]),"edges that share a point are not in contact"); }
SX_ENTRY(ee_newton){ optl(); int k=sx_choose("case",T?4:2); static const double P[4][3]={{0.5,0.25,0.5},{0.25,0.75,0.25},{0.75,0.5,0.625},{0.375,0.5,0.75}}; static const double C[8][3]={{0,0,0},{0.25,0,0.5},{1,0.25,0},{1,0.5,0.25},{0.25,-1,1},{0.5,-1,-1},{0.5,1,1.25},{0.25,1.5,-0.75}}; V q[8]; for(int i=0;i<8;i++) q[i]=V(C[i][0],C[i][1],C[i][2]); static const int S[4][2]={{0,0},{3,2},{5,1},{6,2}}; double x=sx_real_in("x",-0.25,0.25); q[S[k][0]].p[S[k][1]]+=x;
  double p[3]; for(int i=0;i<3;i++) p[i]=P[k][i]; double W; double v[3]; double s0=sx_real_in("s0",0,1),s1=sx_real_in("s1",0,1),s2=sx_real_in("s2",0,1); W=0; for(int i=0;i<3;i++){ double A=((1-s0)*(1-s2))*q[0].p[i]+((1-s0)*s2)*q[1].p[i]+(s0*(1-s2))*q[2].p[i]+(s0*s2)*q[3].p[i]-((1-s1)*(1-s2))*q[4].p[i]-((1-s1)*s2)*q[5].p[i]-(s1*(1-s2))*q[6].p[i]-(s1*s2)*q[7].p[i]; v[i]=A; W+=A*A*0.5; }
  double S3[3]={s0,s1,s2}, G[3],H[9]; for(int i=0;i<3;i++) G[i]=sx_d(W,S3[i]); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double h=sx_d(G[i],S3[j]); h=sx_at(h,s0,P[k][0]); h=sx_at(h,s1,P[k][1]); h=sx_at(h,s2,P[k][2]); H[3*i+j]=h; }
  for(int i=0;i<3;i++){ G[i]=sx_at(G[i],s0,P[k][0]); G[i]=sx_at(G[i],s1,P[k][1]); G[i]=sx_at(G[i],s2,P[k][2]); }
  double d=dfm2::Nearest_LineSeg_LineSeg_CCD_Iteration(p,q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],1); (void)d; for(int i=0;i<3;i++) sx_assume((p[i]>0)&(p[i]<1)); double eps=(H[0]+H[4]+H[8])*1.0e-10+1.0e-20; for(int i=0;i<3;i++){ double r=0; for(int j=0;j<3;j++) r+=(H[3*i+j]+(i==j?eps:0))*(P[k][j]-p[j]); sx_eq(r,G[i],"one step is the Newton step of the squared distance"); } }
// ------------------------------------------------------------------ proximity
static dfm2::CBV3d_AABB boxes(const std::vector<double>&x,const std::vector<unsigned>&t,double mg){ dfm2::CBV3d_AABB b; dfm2::CLeafVolumeMaker_Mesh<dfm2::CBV3d_AABB,double> l(mg,x.data(),x.size()/3,t.data(),t.size()/3,3); l.SetVolume(b,0); return b; }
SX_ENTRY(fv_proximity){ opt(); double h=sx_real_in("h",-1,1); int il=sx_choose("place",4); static const double P[4][2]={{0.25,0.25},{0.5,0.125},{0.75,0.75},{-0.125,0.25}}; int fr=sx_choose("frame",2); V f[4]={V(0,0,0),V(1,0,0),V(0,1,0),V(P[il][0],P[il][1],h)}; std::vector<double> x; for(int i=0;i<4;i++){ f[i]=frame(f[i],fr); for(int k=0;k<3;k++) x.push_back(f[i].p[k]); } std::vector<unsigned> t={0,1,2}; double delta=0.5; sx_assume((h<0.499)|(h>0.501)); sx_assume((h>-0.499)|(h<-0.501)); dfm2::CBV3d_AABB b=boxes(x,t,delta*0.5); bool res=dfm2::IsContact_FV_Proximity(0,1,2,3,f[0],f[1],f[2],f[3],b,delta); bool want=(il<2)&(h<0.5)&(h>-0.5); sx_check(res==want,"vertices nearer than the clearance are in contact"); }
// ------------------------------------------------------------------ response
struct Resp{ std::vector<double> x,u,u0; std::vector<unsigned> t; std::vector<dfm2::CContactElement> c; };
static void conserved(const Resp&r){ for(int i=0;i<3;i++){ double d=0; for(size_t k=0;k<r.u.size()/3;k++) d+=r.u[3*k+i]-r.u0[3*k+i]; sx_eq(d,0,"impulses conserve momentum"); }
  for(int i=0;i<3;i++){ int a=(i+1)%3,b=(i+2)%3; double d=0; for(size_t k=0;k<r.u.size()/3;k++) d+=r.x[3*k+a]*(r.u[3*k+b]-r.u0[3*k+b])-r.x[3*k+b]*(r.u[3*k+a]-r.u0[3*k+a]); sx_eq(d,0,"impulses conserve angular momentum"); } }
static void relvel(const Resp&r,const double*w,int sgn3,double target,double scale,bool fires){ (void)sgn3; // w: weights of the four points in the relative position along z
  double a=0,b=0,q=0; for(int k=0;k<4;k++){ a+=w[k]*r.u0[3*k+2]; b+=w[k]*r.u[3*k+2]; q+=w[k]*w[k]; } (void)q; (void)scale; if(fires){ sx_le(a,b,"an impulse never makes the points approach faster"); sx_le(b,target,"an impulse never overshoots the target velocity"); } else for(size_t k=0;k<r.u.size();k++) sx_eq(r.u[k],r.u0[k],"separating points get no impulse"); }
static void resp(Resp&r,bool fv,double h,double va,double vb){ double w0=0.25,w1=0.5; V p[4]; if(fv){ p[0]=V(0,0,0); p[1]=V(1,0,0); p[2]=V(0,2,0); p[3]=p[0]*w0+p[1]*w1+p[2]*(1-w0-w1)+V(0,0,h); } else { p[0]=V(0,0,0); p[1]=V(2,0,0); p[2]=V(0.5,-1,h); p[3]=V(0.5,3,h); }
  static const double U[4][3]={{0.25,0,0},{0,0.5,0},{-0.25,0.25,0},{0,0,0}}; for(int i=0;i<4;i++) for(int k=0;k<3;k++){ r.x.push_back(p[i].p[k]); r.u.push_back(0*U[i][k]+(k==2?(i==3?va:i==0?vb:0.125):U[i][k])); } r.u0=r.u; r.t={0,1,2,0,1,3}; r.c.push_back(dfm2::CContactElement(fv,0,1,2,3)); }
SX_ENTRY(impulse_proximity){ opt(); bool fv=sx_choose("fv",2); int up=sx_choose("up",2); double h=sx_real_in("h",0.0625,0.75); if(up) h=-h; double va=sx_real_in("va",-4,4),vb=sx_real_in("vb",-4,4); Resp r; resp(r,fv,h,va,vb); double delta=0.5,k=100,dt=0.0625,mass=2; SelfCollisionImpulse_Proximity(r.u,delta,k,dt,mass,r.x,r.t,r.c); conserved(r); double s=up?-1:1; double w[4]={-s*0.25,-s*0.5,-s*0.25,s}; if(!fv){ w[0]=-s*0.75; w[1]=-s*0.25; w[2]=s*0.75; w[3]=s*0.25; } double a=0; for(int i=0;i<4;i++) a+=w[i]*r.u0[3*i+2]; double ha=up?-h:h; double target=0.1*(delta-ha)/dt; bool fires=(ha<delta)&(a<=target); relvel(r,w,0,target,0.25,sx_fork(fires)); }
SX_ENTRY(impulse_ccd){ opt(); bool fv=sx_choose("fv",2); static const double DT[3]={0.5,1,2}; int id=sx_choose("dt",3); double dt=DT[id],h=0.5; int it=sx_choose("tau",3); double tau=TAU[it+1]; // relative velocity about -h/(tau dt) so that the gap closes at time tau*dt
  double vb=0.125,va; V z; double w[4]={-0.25,-0.5,-0.25,1}; if(!fv){ w[0]=-0.75; w[1]=-0.25; w[2]=0.75; w[3]=0.25; } double rel=-h/(tau*dt)+sx_real_in("e",0,1./4096); double base=w[0]*vb+w[1]*0.125+w[2]*0.125; va=(rel-base)/w[3]; Resp r; resp(r,fv,h,va,vb); if(fv) for(int i=0;i<3;i++) for(int k=0;k<2;k++) r.u[3*i+k]=0; else for(int i=0;i<4;i++) for(int k=0;k<2;k++) r.u[3*i+k]=0; r.u0=r.u; double delta=0.25; SelfCollisionImpulse_CCD(r.u,delta,100,dt,2,r.x,r.t,r.c); conserved(r); double a=0,b=0; for(int i=0;i<4;i++){ a+=w[i]*r.u0[3*i+2]; b+=w[i]*r.u[3*i+2]; } sx_lt(a,b,"points that hit within the step are slowed down"); sx_le(b,0.1*delta/dt,"an impulse never overshoots the target velocity"); }
// ------------------------------------------------------------------ rigid impact zones
SX_ENTRY(riz_groups){ opt(); const int N=9; std::vector<unsigned> pi(N+1,0),ps; for(int i=0;i<N;i++){ if(i>0) ps.push_back(i-1); if(i<N-1) ps.push_back(i+1); pi[i+1]=ps.size(); } // a strip: neighbours in a row
  static const int C[7][5]={{1,0,1,2,3},{1,6,7,8,0},{0,3,4,7,8},{0,0,8,2,6},{1,4,5,6,8},{0,1,2,5,6},{1,0,4,8,6}}; int n=T?3:2; int grp[N]; for(int i=0;i<N;i++) grp[i]=-1; std::vector<std::set<int>> z; std::set<int> all; int f[N]; for(int i=0;i<N;i++) f[i]=i; auto root=[&](int i){ while(f[i]!=i) i=f[i]; return i; };
  for(int q=0;q<n;q++){ int c=sx_choose(NM("c",q),7); std::vector<dfm2::CContactElement> ce; ce.push_back(dfm2::CContactElement(C[c][0]==1,C[c][1],C[c][2],C[c][3],C[c][4])); MakeRigidImpactZone(z,ce,pi,ps); for(int k=1;k<5;k++){ all.insert(C[c][k]); f[root(C[c][k])]=root(C[c][1]); } for(int i=0;i+1<N;i++) if(all.count(i)&&all.count(i+1)) f[root(i)]=root(i+1);
    for(int i=0;i<N;i++) grp[i]=-1; for(size_t k=0;k<z.size();k++){ sx_check(!z[k].empty(),"zones are not empty"); for(int i:z[k]){ sx_check(grp[i]==-1,"zones do not overlap"); grp[i]=k; } } for(int i=0;i<N;i++) sx_check((grp[i]>=0)==(all.count(i)==1),"exactly the points in contact belong to zones"); for(int i=0;i<N;i++) for(int j=0;j<i;j++) if(grp[i]>=0&&grp[j]>=0) sx_check((grp[i]==grp[j])==(root(i)==root(j)),"zones are the groups joined by contacts or edges"); } }
SX_ENTRY(riz_apply){ optl(); static const double P[6][3]={{0,0,0},{1,0,0},{0,1,0},{0.25,0.25,1},{-1,0.5,0.25},{2,2,2}}; int m=4+sx_choose("m",2); std::vector<double> x,u0,u; for(int i=0;i<6;i++) for(int k=0;k<3;k++){ x.push_back(P[i][k]); u0.push_back(sx_real_in(NM("u",3*i+k),-4,4)); } u=u0; std::vector<std::set<int>> z(1); for(int i=0;i<m;i++) z[0].insert(i); ApplyRigidImpactZone(u,z,x,u0);
  for(int k=0;k<3;k++){ double d=0; for(int i=0;i<6;i++) d+=u[3*i+k]-u0[3*i+k]; sx_eq(d,0,"momentum of a zone is kept"); int a=(k+1)%3,b=(k+2)%3; d=0; for(int i=0;i<6;i++) d+=x[3*i+a]*(u[3*i+b]-u0[3*i+b])-x[3*i+b]*(u[3*i+a]-u0[3*i+a]); sx_eq(d,0,"angular momentum of a zone is kept"); }
  for(int i=0;i<m;i++) for(int j=0;j<i;j++){ double d=0; for(int k=0;k<3;k++) d+=(u[3*i+k]-u[3*j+k])*(x[3*i+k]-x[3*j+k]); sx_eq(d,0,"points of a zone keep their distances"); } for(int i=3*m;i<18;i++) sx_eq(u[i],u0[i],"points outside keep their velocity"); }
// ------------------------------------------------------------------ the search over a mesh and the whole response
static const double X8[8][3]={{0,0,0},{1,0,0},{0,1,0},{1,1,0},{0.25,0.25,0.5},{1.25,0.25,0.625},{0.25,1.25,0.75},{1.5,1.5,0.5}};
static void mesh2(std::vector<double>&x,std::vector<unsigned>&t){ for(int i=0;i<8;i++) for(int k=0;k<3;k++) x.push_back(X8[i][k]); t={0,1,2,1,3,2,4,5,6,5,7,6}; }
static int bvh(std::vector<dfm2::CNodeBVH2>&n){ n.resize(7); auto S=[&](int i,unsigned p,unsigned a,unsigned b){ n[i].iparent=p; n[i].ichild[0]=a; n[i].ichild[1]=b; }; S(0,UINT_MAX,1,2); S(1,0,3,5); S(2,0,4,6); S(3,1,0,UINT_MAX); S(4,2,1,UINT_MAX); S(5,1,2,UINT_MAX); S(6,2,3,UINT_MAX); return 0; }
SX_ENTRY(contact_ccd){ opt(); sx_opt("ieee",1); std::vector<double> x,u(24,0); std::vector<unsigned> t; mesh2(x,t); static const double DT[2]={0.5,2}; double dt=DT[sx_choose("dt",2)]; static const double VZ[4]={-0.25,-1,-2,1}; int a=sx_choose("v",4),b=sx_choose("who",3); for(int i=4;i<8;i++){ if(b==0||(b==1&&i==4)||(b==2&&i!=5)) u[3*i+2]=VZ[a]/dt; u[3*i]=0.25/dt*(i-5); } std::vector<dfm2::CNodeBVH2> n; bvh(n); std::vector<dfm2::CBV3d_AABB> bb; dfm2::CLeafVolumeMaker_DynamicTriangle<dfm2::CBV3d_AABB,double> lv(dt,x,u,t,1.0e-10); dfm2::BVH_BuildBVHGeometry(bb,0,n,lv); std::set<dfm2::CContactElement> s; dfm2::GetContactElement_CCD(s,dt,0.01,x,u,t,0,n,bb);
  auto has=[&](bool fv,int i0,int i1,int i2,int i3){ return s.count(dfm2::CContactElement(fv,i0,i1,i2,i3))>0; }; auto PS=[&](int i){ return V(x[3*i],x[3*i+1],x[3*i+2]); }; auto PE=[&](int i){ return V(x[3*i]+dt*u[3*i],x[3*i+1]+dt*u[3*i+1],x[3*i+2]+dt*u[3*i+2]); };
  size_t cnt=0; for(int f=0;f<4;f++) for(int i=0;i<8;i++){ int q[3]={(int)t[3*f],(int)t[3*f+1],(int)t[3*f+2]}; if(i==q[0]||i==q[1]||i==q[2]) continue; bool w=dfm2::IsContact_FV_CCD2(0,1,2,3,PS(q[0]),PS(q[1]),PS(q[2]),PS(i),PE(q[0]),PE(q[1]),PE(q[2]),PE(i)); cnt+=w; sx_check(has(true,q[0],q[1],q[2],i)==w,"exactly the vertices that go through a face are found"); }
  std::set<std::pair<int,int>> ed; for(int f=0;f<4;f++) for(int k=0;k<3;k++){ int i=t[3*f+k],j=t[3*f+(k+1)%3]; ed.insert({std::min(i,j),std::max(i,j)}); } for(auto&e:ed) for(auto&g:ed){ if(!(e<g)) continue; if(e.first==g.first||e.first==g.second||e.second==g.first||e.second==g.second) continue; bool w=dfm2::IsContact_EE_CCD<dfm2::CBV3d_AABB>(e.first,e.second,g.first,g.second,PS(e.first),PS(e.second),PS(g.first),PS(g.second),PE(e.first),PE(e.second),PE(g.first),PE(g.second)); cnt+=w; sx_check(has(false,e.first,e.second,g.first,g.second)==w,"exactly the edges that cross are found"); } sx_check(cnt==s.size(),"nothing else is found"); sx_observe_i("n",cnt); }
SX_ENTRY(resolve){ opt(); sx_opt("ieee",1); std::vector<double> x,u(24,0); std::vector<unsigned> t; mesh2(x,t); static const double VZ[4]={-0.25,-3,-8,1}; double dt=0.25; int a=sx_choose("v",4),b=sx_choose("who",3); for(int i=4;i<8;i++){ if(b==0||(b==1&&i==4)||(b==2&&i!=5)) u[3*i+2]=VZ[a]; u[3*i]=0.25*(i-5); } double M0[3]={0,0,0},M1[3]={0,0,0}; for(int i=0;i<24;i++) M0[i%3]+=u[i];
  std::vector<unsigned> pi={0,2,5,8,10,12,15,18,20},ps={1,2, 0,2,3, 0,1,3, 1,2, 5,6, 4,6,7, 4,5,7, 5,6}; std::vector<dfm2::CNodeBVH2> n; bvh(n); std::vector<dfm2::CBV3d_AABB> bb; bool imp=false; GetIntermidiateVelocityContactResolved(u,imp,dt,0.0625,1.0,100.,x,t,pi,ps,0,n,bb); for(int i=0;i<24;i++) M1[i%3]+=u[i]; for(int k=0;k<3;k++) sx_check(std::fabs(M0[k]-M1[k])<1e-9,"the response conserves momentum");
  dfm2::CLeafVolumeMaker_DynamicTriangle<dfm2::CBV3d_AABB,double> lv(dt,x,u,t,1.0e-10); dfm2::BVH_BuildBVHGeometry(bb,0,n,lv); std::set<dfm2::CContactElement> s; dfm2::GetContactElement_CCD(s,dt,0.0625,x,u,t,0,n,bb); sx_check(s.empty(),"no contact is left in the step"); bool any=a==1||a==2; if(!any) sx_observe_i("imp",imp); else sx_check(imp,"an impulse is reported"); }
