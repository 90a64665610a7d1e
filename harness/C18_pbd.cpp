// C18: position-based constraint Jacobians and projections; discrete Darboux-vector rods
#include "sx.h"
#include <vector>
#include <cmath>
#include <cassert>
#include "delfem2/vec3.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_stvk.h"
#include "delfem2/pbd_bending_for_dtri.h"
#include "delfem2/fem_rod3_darboux.h"
#include "delfem2/cvcamera.h"
namespace dfm2=delfem2; static const int T=SX_TIER;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",3000); sx_opt("branch_ms",1000); sx_opt("float_sqrt",1); }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",3000); sx_opt("branch_ms",1000); }
static void optr(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
SX_ENTRY(prediction){ optl(); std::vector<double> x(6),v(6),t; std::vector<int> bc(2,0); for(int i=0;i<6;i++){ x[i]=sx_real(NM("x",i)); v[i]=sx_real(NM("v",i)); } double g[3]={sx_real("gx"),sx_real("gy"),sx_real("gz")},dt=sx_real_in("dt",0.01,1); int f=sx_choose("fixed",3); if(f<2) bc[f]=1; dfm2::PBD_Pre3D(t,dt,g,x,v,bc); sx_check(t.size()==6,"size"); for(int i=0;i<6;i++) sx_eq(t[i],i/3==f?x[i]:x[i]+dt*v[i]+dt*dt*g[i%3],"predicted position"); std::vector<double> x1=x,v1=v; dfm2::PBD_Post(x1,v1,dt,t,bc); for(int i=0;i<6;i++){ if(i/3==f){ sx_eq(x1[i],x[i],"fixed point stays"); sx_eq(v1[i],v[i],"fixed velocity stays"); } else { sx_eq(x1[i],t[i],"position is the projected one"); sx_eq(v1[i],v[i]+dt*g[i%3],"velocity gains gravity times dt"); } } }
// one constraint projection: moves mass-weighted along the gradients so that the linearised constraint is met
SX_ENTRY(update_const3){ opt(); sx_opt("check_ms",8000); int np=3+sx_choose("np",2); double d[36],C[3],m[4],x[15]; for(int c=0;c<3;c++) for(int i=0;i<np*3;i++) d[c*np*3+i]=((c*7+i*5+c*i)%11-5)*0.5+(i%3==c?2:0); int k=sx_choose("k",np); for(int i=0;i<3;i++) C[i]=sx_real(NM("C",i)); for(int i=0;i<np;i++) m[i]=i==k?sx_real_in("m",0.5,4):1+i; double r=sx_real_in("ratio",0,1); for(int i=0;i<15;i++) x[i]=sx_real(NM("x",i)); double y[15]; for(int i=0;i<15;i++) y[i]=x[i]; unsigned ip[4]={3,0,4,1}; dfm2::PBD_Update_Const3(y,np,3,m,C,d,ip,r); for(int c=0;c<3;c++){ double s=0; for(int i=0;i<np;i++) for(int j=0;j<3;j++) s+=d[c*np*3+i*3+j]*(y[ip[i]*3+j]-x[ip[i]*3+j]); sx_eq(s,-r*C[c],"linearised constraint is corrected by the ratio"); } for(int j=0;j<3;j++) sx_eq(y[6+j],x[6+j],"point outside the constraint stays"); 
  // displacement of each point times its mass is a combination of gradients: orthogonal to the null space of the Jacobian
  static const double A[3]={1,-2,0.5}; for(int j=0;j<3;j++){ (void)A; } }
static void mom(const double*a,const double*b,int n,const char*lm,const char*am){ for(int j=0;j<3;j++){ double s=0,t=0; int p=(j+1)%3,q=(j+2)%3; for(int i=0;i<n;i++){ s+=b[3*i+j]-a[3*i+j]; t+=a[3*i+p]*(b[3*i+q]-a[3*i+q])-a[3*i+q]*(b[3*i+p]-a[3*i+p]); } sx_eq(s,0,lm); sx_eq(t,0,am); } }
struct V2{ double p[2]; double operator[](int i)const{ return p[i]; } };
SX_ENTRY(tri_strain){ opt(); sx_opt("check_ms",8000); static const double R[2][3][2]={{{0,0},{2,0},{0.5,1.5}},{{1,-1},{3,0.5},{-0.5,2}}}; static const double X[2][12]={{0,0,0, 9,9,9, 2.5,0.25,0.5, 0.25,1.75,-0.5},{1,-1,1, 9,9,9, 2.5,1,0, -0.5,1.75,2}}; int w=sx_choose("rest",2),k=sx_choose("k",9); std::vector<V2> P={{{R[w][0][0],R[w][0][1]}},{{7,7}},{{R[w][1][0],R[w][1][1]}},{{R[w][2][0],R[w][2][1]}}}; struct Tri{ unsigned v[3]; unsigned operator[](int i)const{ return v[i]; } }; std::vector<Tri> t={{{0,2,3}}}; double x[12],y[12]; for(int i=0;i<12;i++) x[i]=X[w][i]; x[k<3?k:k+3]+=sx_real_in("x",-0.25,0.25); for(int i=0;i<12;i++) y[i]=x[i]; dfm2::PBD_TriStrain(y,4,t,P); mom(x,y,4,"linear momentum","angular momentum"); for(int i=3;i<6;i++) sx_eq(y[i],x[i],"other points stay"); double c0[3][3],C[3],D[3][9],p2[3][2]; for(int i=0;i<9;i++) c0[i/3][i%3]=x[i<3?i:i+3]; for(int i=0;i<6;i++) p2[i/2][i%2]=R[w][i/2][i%2]; dfm2::CdC_StVK(C,D,p2,c0); for(int c=0;c<3;c++){ double s=0; for(int i=0;i<9;i++) s+=D[c][i]*(y[i<3?i:i+3]-x[i<3?i:i+3]); sx_eq(s,-C[c],"linearised strain is removed"); } }
SX_ENTRY(tri_strain_rigid){ optl(); static const double R[3][2]={{0,0},{2,0},{0.5,1.5}}; static const double Q[3][6]={{1,0,0,0,1,0},{0.6,0,0.8,0,1,0},{0.6,0,0.8,0.64,0.6,-0.48}}; int q=sx_choose("rot",3); std::vector<V2> P={{{R[0][0],R[0][1]}},{{R[1][0],R[1][1]}},{{R[2][0],R[2][1]}}}; struct Tri{ unsigned v[3]; unsigned operator[](int i)const{ return v[i]; } }; std::vector<Tri> t={{{0,1,2}}}; double x[9],y[9]; double o[3]={sx_real("ox"),sx_real("oy"),sx_real("oz")}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) y[3*i+j]=x[3*i+j]=o[j]+Q[q][j]*R[i][0]+Q[q][3+j]*R[i][1]; dfm2::PBD_TriStrain(y,3,t,P); for(int i=0;i<9;i++) sx_eq(y[i],x[i],"undeformed triangle is not moved"); }
SX_ENTRY(bend_dtri){ opt(); sx_opt("check_ms",8000); std::vector<unsigned> tri={0,1,2,1,3,2}; std::vector<dfm2::CDynTri> et(2); std::vector<dfm2::CDynPntSur> ep; for(int e=0;e<2;e++) for(int j=0;j<3;j++){ et[e].v[j]=tri[3*e+j]; et[e].s2[j]=UINT_MAX; } et[0].s2[0]=1; et[1].s2[1]=0; std::vector<dfm2::CVec2d> P={dfm2::CVec2d(0,0),dfm2::CVec2d(2,0),dfm2::CVec2d(0.5,1.5),dfm2::CVec2d(2.5,2)}; double x[12]={0,0,0.25,2,0,-0.5,0.5,1.5,0,2.5,2,1},y[12]; int k=sx_choose("k",12); x[k]+=sx_real_in("x",-0.25,0.25); for(int i=0;i<12;i++) y[i]=x[i]; double r=sx_real_in("ratio",0,1); dfm2::PBD_Bend(y,4,et,P,r); mom(x,y,4,"linear momentum","angular momentum about the constraint"); }
SX_ENTRY(seam){ opt(); double x[9]; for(int i=0;i<9;i++) x[i]=i*0.75-(i%2); int k=sx_choose("k",6); int c=sx_choose("close",2); if(c) for(int i=0;i<3;i++) x[6+i]=x[i]+(i==k%3?0:0.00390625); x[k<3?k:k+3]+=sx_real_in("d",-1,1); double y[9]; for(int i=0;i<9;i++) y[i]=x[i]; unsigned l[2]={0,2}; dfm2::PBD_Seam(y,3,l,1); double d2=0,e2=0; for(int i=0;i<3;i++){ d2+=(x[6+i]-x[i])*(x[6+i]-x[i]); e2+=(y[6+i]-y[i])*(y[6+i]-y[i]); sx_eq(y[i]+y[6+i],x[i]+x[6+i],"midpoint stays"); sx_eq(y[3+i],x[3+i],"other points stay"); } if(d2>0.0001001){ double d=std::sqrt(d2); sx_eq(e2,(d-0.01)*(d-0.01),"gap closes by one step"); double cr=(y[7]-y[1])*(x[8]-x[2])-(y[8]-y[2])*(x[7]-x[1]); sx_eq(cr,0,"along the seam line"); } if(d2<0.0000999) sx_eq(e2,0,"close points are merged"); }
// shape matching
static const double RQ[3][2]={{0.6,0.8},{1,0},{-0.28,0.96}};
SX_ENTRY(rigid2_fixedpoint){ opt(); int q=sx_choose("rot",3); static const double S[10]={0,0,2,0,2.5,1.5,0.5,1,7,7}; double o[2]={sx_real("ox"),sx_real("oy")},st=sx_real_in("stiff",0,1),x[10]; for(int i=0;i<5;i++){ x[2*i]=o[0]+RQ[q][0]*S[2*i]-RQ[q][1]*S[2*i+1]; x[2*i+1]=o[1]+RQ[q][1]*S[2*i]+RQ[q][0]*S[2*i+1]; } double y[10]; for(int i=0;i<10;i++) y[i]=x[i]; unsigned ci[2]={0,4},cl[4]={0,1,2,3}; dfm2::PBD_ConstProj_Rigid2D(y,st,ci,2,cl,4,S,5); for(int i=0;i<10;i++) sx_check(fabs(y[i]-x[i])<1e-8,"rigidly moved cluster is not changed"); }
SX_ENTRY(rigid2_deformed){ opt(); static const double S[10]={0,0,2,0,2.5,1.5,0.5,1,7,7}; int k=sx_choose("k",8); double x[10],y[10]; for(int i=0;i<10;i++) x[i]=S[i]; x[k]+=sx_real_in("d",-0.5,0.5); for(int i=0;i<10;i++) y[i]=x[i]; unsigned ci[2]={0,4},cl[4]={0,1,2,3}; dfm2::PBD_ConstProj_Rigid2D(y,1,ci,2,cl,4,S,5); double a[2]={0,0}; for(int i=0;i<8;i++) a[i%2]+=y[i]-x[i]; sx_eq(a[0],0,"centre stays"); sx_eq(a[1],0,"centre stays"); sx_eq(y[8],x[8],"point outside the cluster stays"); sx_eq(y[9],x[9],"point outside the cluster stays"); }
SX_ENTRY(rigid3_fixedpoint){ opt(); sx_opt("ieee",1); int q=sx_choose("rot",3); static const double Q[3][9]={{1,0,0,0,1,0,0,0,1},{0,-1,0,1,0,0,0,0,1},{0,0,1,1,0,0,0,1,0}}; static const double S[15]={0,0,0,2,0,0.5,0,1,0,0,0.5,2,7,7,7}; int w=sx_choose("shift",3); double o[3]={w*1.5,w*-2.25,w==1?4:-0.5},st=sx_real_in("stiff",0,1),x[15],y[15]; for(int i=0;i<5;i++) for(int j=0;j<3;j++) x[3*i+j]=o[j]+(Q[q][3*j]*S[3*i]+Q[q][3*j+1]*S[3*i+1]+Q[q][3*j+2]*S[3*i+2]); for(int i=0;i<15;i++) y[i]=x[i]; int ci[2]={0,4},cl[4]={0,1,2,3}; dfm2::PBD_ConstProj_Rigid3D(y,st,ci,2,cl,4,S,15); for(int i=0;i<15;i++) sx_check(fabs(y[i]-x[i])<1e-6,"rigidly moved cluster is not changed"); }
SX_ENTRY(screen){ optl(); double m[16],p[3],c[2],d[2][3]; for(int i=0;i<16;i++) m[i]=sx_real(NM("m",i)); for(int i=0;i<3;i++) p[i]=sx_real(NM("p",i)); double w=m[12]*p[0]+m[13]*p[1]+m[14]*p[2]+m[15]; sx_assume(w>0.01); sx_opt("max_ite",0); sx_opt("fork_select",1); dfm2::CdC_ScreenCoordinate<dfm2::CVec3d>(c,d,m,p); for(int i=0;i<2;i++){ sx_eq(c[i]*w,m[4*i]*p[0]+m[4*i+1]*p[1]+m[4*i+2]*p[2]+m[4*i+3],"screen coordinate"); for(int j=0;j<3;j++) sx_eq(sx_d(c[i],p[j]),d[i][j],"derivative"); } }
// rods: base configurations with rational frames
static const double V0[3][3]={{3,0,0},{1.8,2.4,0},{2,2,1}}, S0[3][3]={{0,0.6,0.8},{-0.8,0.6,0},{1./3,-2./3,2./3}};
static const double V1[3][3]={{0,2,0},{1.6,0,1.2},{3,0,4}}, S1[3][3]={{0.6,0,0.8},{0,1,0},{0.48,0.8,-0.36}};
typedef dfm2::CVec3d C3; static C3 c3(const double*p){ return C3(p[0],p[1],p[2]); }
static void base(int b,C3 P[3],C3 S[2]){ P[0]=C3(0.5,-1,0.25); P[1]=P[0]+c3(V0[b]); P[2]=P[1]+c3(V1[b]); S[0]=c3(S0[b]); S[1]=c3(S1[b]); }
// k<9: move one coordinate, k=9,10: twist one segment
static double pert(int b,int k,C3 P[3],C3 S[2],const char*nm="x"){ C3 Q[3],R[2],f[3]; base(b,Q,R); double x=sx_real_in(nm,-1./65536,1./65536); for(int i=0;i<3;i++) P[i]=Q[i]; if(k<9) P[k/3].p[k%3]+=x; for(int e=0;e<2;e++){ if(k<9&&(k/3==e||k/3==e+1)) { dfm2::RodFrameTrans(f,R[e],Q[e+1]-Q[e],(P[e+1]-P[e])-(Q[e+1]-Q[e]),0); S[e]=f[0]; } else if(k==9+e){ C3 U=(Q[e+1]-Q[e]).normalized(),Tn=U.cross(R[e]); double c=cos(x),s=sin(x); S[e]=c*R[e]+s*Tn; } else S[e]=R[e]; } return x; }
SX_ENTRY(rod_frame){ optr(); int b=sx_choose("base",3),k=sx_choose("k",3); C3 Q[3],R[2],f[3]; base(b,Q,R); double x=sx_real_in("x",-1./65536,1./65536); C3 du(k==0?x:0,k==1?x:0,k==2?x:0); dfm2::RodFrameTrans(f,R[0],Q[1]-Q[0],du,0); dfm2::CMat3d dv[3]; C3 dt[3],F[3]; F[0]=R[0]; F[2]=(Q[1]-Q[0]).normalized(); F[1]=F[2].cross(F[0]); dfm2::DiffFrameRod(dv,dt,(Q[1]-Q[0]).norm(),F); for(int i=0;i<3;i++) for(int j=0;j<3;j++) sx_eq(sx_at(sx_d(f[i][j],x),x,0),dv[i](j,k),"derivative of the frame"); }
SX_ENTRY(rod_transport){ optr(); int b=sx_choose("base",3),k=sx_choose("k",3); C3 Q[3],R[2],f[3]; base(b,Q,R); double x=sx_real_in("x",-1,1); sx_assume((x>0.0625)|(x<-0.0625)); C3 V=Q[1]-Q[0]; for(int j=0;j<3;j++) if(j!=k) V.p[j]+=0; C3 du(k==0?x:0.25,k==1?x:0.5,k==2?x:-0.75); dfm2::RodFrameTrans(f,R[0],V,du,0); for(int i=0;i<3;i++) for(int j=0;j<=i;j++) sx_eq(f[i].dot(f[j]),i==j?1:0,"frame is orthonormal"); C3 v=V+du; sx_eq(f[2].dot(v)*f[2].dot(v),v.dot(v),"axis follows the segment"); C3 z=f[0].cross(f[1])-f[2]; for(int i=0;i<3;i++) sx_eq(z[i],0,"right handed"); }
SX_ENTRY(rod_frame_twist){ optr(); int b=sx_choose("base",3); C3 Q[3],R[2],f[3]; base(b,Q,R); double x=sx_real_in("x",-0.25,0.25); dfm2::RodFrameTrans(f,R[0],Q[1]-Q[0],C3(0,0,0),x); dfm2::CMat3d dv[3]; C3 dt[3],F[3]; F[0]=R[0]; F[2]=(Q[1]-Q[0]).normalized(); F[1]=F[2].cross(F[0]); dfm2::DiffFrameRod(dv,dt,(Q[1]-Q[0]).norm(),F); for(int i=0;i<3;i++) for(int j=0;j<3;j++) sx_eq(sx_at(sx_d(f[i][j],x),x,0),dt[i][j],"derivative of the frame"); }
SX_ENTRY(rod_frame2){ optr(); int b=sx_choose("base",3),k=sx_choose("k",3),ax=sx_choose("axis",3); C3 Q[3],R[2],f[3]; base(b,Q,R); double x=sx_real_in("x",-1./65536,1./65536); C3 du(k==0?x:0,k==1?x:0,k==2?x:0); C3 V=Q[1]-Q[0],W(0.5,-0.75,2); dfm2::RodFrameTrans(f,R[0],V,du,0); C3 v=V+du; dfm2::CMat3d dv[3],dd; C3 dt[3],dvt,F[3]; double dtt; dfm2::DiffFrameRod(dv,dt,v.norm(),f); F[0]=R[0]; F[2]=V.normalized(); F[1]=F[2].cross(F[0]); dfm2::DifDifFrameRod(dd,dvt,dtt,ax,V.norm(),W,F); C3 g=W*dv[ax]; for(int j=0;j<3;j++) sx_eq(sx_at(sx_d(g[j],x),x,0),dd(j,k),"second derivative of the frame"); sx_eq(sx_at(sx_d(W.dot(dt[ax]),x),x,0),dvt[k],"mixed derivative of the frame"); }
SX_ENTRY(rod_darboux){ optr(); int b=sx_choose("base",3),k=sx_choose("k",11); C3 P[3],S[2],Q[3],R[2]; base(b,Q,R); double x=pert(b,k,P,S); C3 D=dfm2::Darboux_Rod(P,S); double C[3],dt[3][2]; C3 dp[3][3]; dfm2::CdC_Rod(C,dp,dt,Q,R); for(int i=0;i<3;i++){ sx_eq(sx_at(D[i],x,0),C[i],"constraint is the Darboux vector"); sx_eq(sx_at(sx_d(D[i],x),x,0),k<9?dp[i][k/3][k%3]:dt[i][k-9],"derivative"); } }
SX_ENTRY(rod_approx){ optr(); int b=sx_choose("base",3),k=sx_choose("k",11); C3 P[3],S[2],Q[3],R[2]; base(b,Q,R); double x=pert(b,k,P,S); double st[3]={0.5,2,1.25}; C3 d0(0.25,-0.5,0.75),D=dfm2::Darboux_Rod(P,S)-d0; double W=0; for(int i=0;i<3;i++) W+=0.5*st[i]*D[i]*D[i]; C3 g[3],htp[2][3]; double gt[2],htt[2][2]; dfm2::CMat3d hpp[3][3]; double w=dfm2::WdWddW_Rod3Approx(g,gt,hpp,htp,htt,st,Q,R,d0); sx_eq(sx_at(W,x,0),w,"energy"); sx_eq(sx_at(sx_d(W,x),x,0),k<9?g[k/3][k%3]:gt[k-9],"gradient"); double C[3],dt[3][2]; C3 dp[3][3]; dfm2::CdC_Rod(C,dp,dt,Q,R); double h[3][4],H[3][3][4][4]; double w2=dfm2::WdWddW_HairApprox(h,H,st,Q,R,d0); sx_eq(w,w2,"same energy"); 
  auto J=[&](int c,int n,int d){ return d<3?dp[c][n][d]:n<2?dt[c][n]:0.0; }; for(int n=0;n<3;n++) for(int d=0;d<4;d++){ double r=d<3?g[n][d]:n<2?gt[n]:0; sx_eq(h[n][d],r,"hair gradient"); for(int m=0;m<3;m++) for(int e=0;e<4;e++){ double v=0; for(int c=0;c<3;c++) v+=st[c]*J(c,n,d)*J(c,m,e); sx_eq(H[n][m][d][e],v,"hair Hessian is Gauss-Newton"); if(d<3&&e<3) sx_eq(hpp[n][m](d,e),v,"Gauss-Newton Hessian"); if(d==3&&e<3&&n<2) sx_eq(htp[n][m][e],v,"Gauss-Newton Hessian"); if(d==3&&e==3&&n<2&&m<2) sx_eq(htt[n][m],v,"Gauss-Newton Hessian"); } } }
SX_ENTRY(rod_exact){ optr(); sx_opt("check_ms",8000); int b=sx_choose("base",3),k=sx_choose("k",11); C3 P[3],S[2],Q[3],R[2]; base(b,Q,R); double x=pert(b,k,P,S); double st[3]={0.5,2,1.25}; C3 d0(0.25,-0.5,0.75); C3 g[3],htp[2][3],g0[3]; double gt[2],htt[2][2],gt0[2]; dfm2::CMat3d hpp[3][3]; double w=dfm2::WdWddW_Rod3Exact(g0,gt0,hpp,htp,htt,st,P,S,d0); for(int i=0;i<3;i++) g[i]=g0[i]; for(int i=0;i<2;i++) gt[i]=gt0[i]; double w0=dfm2::WdWddW_Rod3Exact(g0,gt0,hpp,htp,htt,st,Q,R,d0); sx_eq(sx_at(w,x,0),w0,"energy"); sx_eq(sx_at(sx_d(w,x),x,0),k<9?g0[k/3][k%3]:gt0[k-9],"gradient"); for(int i=0;i<2;i++) sx_eq(sx_at(sx_d(gt[i],x),x,0),k<9?htp[i][k/3][k%3]:htt[i][k-9],"twist row of the Hessian"); for(int i=0;i<9;i++) if(k<9) sx_eq(sx_at(sx_d(g[i/3][i%3],x),x,0),hpp[i/3][k/3](i%3,k%3),"Hessian"); }
SX_ENTRY(rod_dot){ optr(); sx_opt("check_ms",8000); int b=sx_choose("base",3),k=sx_choose("k",11); C3 P[3],S[2],Q[3],R[2]; base(b,Q,R); double x=pert(b,k,P,S); double off[3]={0,0,0}; C3 g[3],htp[2][3],g0[3]; double gt[2],htt[2][2],gt0[2]; dfm2::CMat3d hpp[3][3]; double w=dfm2::WdWddW_DotFrame(g,gt,hpp,htp,htt,P,S,off); double w0=dfm2::WdWddW_DotFrame(g0,gt0,hpp,htp,htt,Q,R,off); sx_eq(sx_at(w,x,0),w0,"value"); sx_eq(sx_at(sx_d(w,x),x,0),k<9?g0[k/3][k%3]:gt0[k-9],"gradient"); for(int i=0;i<2;i++) sx_eq(sx_at(sx_d(gt[i],x),x,0),k<9?htp[i][k/3][k%3]:htt[i][k-9],"twist row of the Hessian"); for(int i=0;i<9;i++) if(k<9) sx_eq(sx_at(sx_d(g[i/3][i%3],x),x,0),hpp[i/3][k/3](i%3,k%3),"Hessian"); }
