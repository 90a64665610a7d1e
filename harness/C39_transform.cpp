// C39: point transformations, bounding boxes, un-indexed meshes and parametric surfaces
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstdint>
#include <vector>
#include <algorithm>
#include <random>
static int sx_nrand; // random numbers are free values of the requested range
namespace std{ struct sx_rdev{ unsigned operator()(){ return 1; } }; struct sx_mt{ sx_mt(unsigned){} }; template<class R> struct sx_urd{ R a,b; sx_urd(R x,R y):a(x),b(y){} template<class G> R operator()(G&){ char n[4]={'r',char('a'+sx_nrand/26),char('a'+sx_nrand%26),0}; sx_nrand++; return sx_real_in(n,a,b); } }; }
#define random_device sx_rdev
#define mt19937 sx_mt
#define uniform_real_distribution sx_urd
#include "delfem2/msh_affine_transformation.h"
#undef random_device
#undef mt19937
#undef uniform_real_distribution
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_unindexed.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_surface_parametric.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef dfm2::CVec3d V3; typedef std::vector<double> VD;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",7); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",4000000); sx_opt("steps_are_violation",1); }
static VD pts(const char*nm,int n,double r){ VD p(n); for(int i=0;i<n;i++) p[i]=sx_real_in(NM(nm,i),-r,r); return p; }
// ------------------------------------------------------------------ transformations
SX_ENTRY(translate){ optl(); int nd=1+sx_choose("ndim",4),n=sx_choose("n",T?6:4); VD p=pts("p",n*nd,100),q=p; VD t=pts("t",nd,100); p.push_back(3); dfm2::Translate_Points(p.data(),n,nd,t.data()); for(int i=0;i<n*nd;i++) sx_eq(p[i],q[i]+t[i%nd],"every point is moved by the translation"); sx_check(p[n*nd]==3,"nothing past the points is written"); }
SX_ENTRY(translate23){ optl(); int n=1+sx_choose("n",3); bool three=sx_choose("three",2); int nd=three?3:2; VD p=pts("p",n*nd,100),q=p,t=pts("t",3,100); if(three) dfm2::Translate_Points3(p,t[0],t[1],t[2]); else dfm2::Translate_Points2(p,t[0],t[1]); for(int i=0;i<n*nd;i++) sx_eq(p[i],q[i]+t[i%nd],"moved by the translation"); }
SX_ENTRY(scale){ optl(); int nd=1+sx_choose("ndim",4),n=sx_choose("n",T?6:4); VD p=pts("p",n*nd,100),q=p; double s=sx_real_in("s",-10,10); if(sx_choose("vec",2)) dfm2::Scale_PointsX(p,s); else { p.push_back(3); dfm2::Scale_Points(p.data(),n,nd,s); sx_check(p[n*nd]==3,"nothing past the points is written"); } for(int i=0;i<n*nd;i++) sx_eq(p[i],q[i]*s,"scaled about the origin"); }
SX_ENTRY(rotate_axes){ optl(); int ax=sx_choose("axis",3); double a=sx_real_in("a",-7,7); VD p=pts("p",6,10),q=p; double r[3]={0,0,0}; r[ax]=a; dfm2::Rotate_Points3(p,r[0],r[1],r[2]); double c=std::cos(a),s=std::sin(a); for(int i=0;i<2;i++){ int u=(ax+1)%3,v=(ax+2)%3; sx_eq(p[3*i+ax],q[3*i+ax],"the axis is kept"); sx_eq(p[3*i+u],c*q[3*i+u]-s*q[3*i+v],"right-handed rotation about the axis"); sx_eq(p[3*i+v],s*q[3*i+u]+c*q[3*i+v],"right-handed rotation about the axis"); } }
SX_ENTRY(rotate_compose){ optl(); double a=sx_real_in("a",-7,7),b=sx_real_in("b",-7,7),c=sx_real_in("c",-7,7); VD p=pts("p",3,10),q=p; dfm2::Rotate_Points3(p,a,b,c); dfm2::Rotate_Points3(q,a,0.,0.); dfm2::Rotate_Points3(q,0.,b,0.); dfm2::Rotate_Points3(q,0.,0.,c); for(int i=0;i<3;i++) sx_eq(p[i],q[i],"x, then y, then z"); }
SX_ENTRY(rotate_rigid){ optl(); double a=sx_real_in("a",-7,7),b=sx_real_in("b",-7,7),c=sx_real_in("c",-7,7); VD p={1,0,0, 0,1,0, 0,0,1}; dfm2::Rotate_Points3(p,a,b,c); for(int i=0;i<3;i++) for(int j=0;j<=i;j++){ double d=p[3*i]*p[3*j]+p[3*i+1]*p[3*j+1]+p[3*i+2]*p[3*j+2]; sx_eq(d,i==j,"lengths and angles are kept"); } double det=p[0]*(p[4]*p[8]-p[5]*p[7])-p[1]*(p[3]*p[8]-p[5]*p[6])+p[2]*(p[3]*p[7]-p[4]*p[6]); sx_eq(det,1,"orientation is kept"); }
SX_ENTRY(normalize){ opt(); int n=2+sx_choose("n",T?3:2); VD p(3*n); for(int i=0;i<3*n;i++) p[i]=(double)((i*7+3)%5)-1; int ax=sx_choose("axis",3); for(int i=0;i<2;i++) p[3*i+ax]=sx_real_in(NM("x",i),-20,20); VD q=p; double L=sx_real_in("L",0.5,3); double lo[3],hi[3]; for(int k=0;k<3;k++){ lo[k]=hi[k]=p[k]; for(int i=1;i<n;i++){ if(sx_fork(p[3*i+k]<lo[k])) lo[k]=p[3*i+k]; if(sx_fork(p[3*i+k]>hi[k])) hi[k]=p[3*i+k]; } } double w=hi[0]-lo[0]; for(int k=1;k<3;k++) if(sx_fork(hi[k]-lo[k]>w)) w=hi[k]-lo[k]; sx_assume(w>0.01); dfm2::Normalize_Points3(p,L); for(int i=0;i<3*n;i++) sx_eq(p[i]*w,(q[i]-(lo[i%3]+hi[i%3])*0.5)*L,"centred at the origin with the longest edge as asked"); }
SX_ENTRY(normalize_vec){ optl(); static const double D[6][3]={{3,4,0},{0,-5,12},{-8,0,15},{2,3,6},{-1,4,8},{4,4,-7}}; static const double L[6]={5,13,17,7,9,9}; int nd=2+sx_choose("nd",2),n=1+sx_choose("n",3); VD p(n*nd+1,2.); std::vector<int> d(n); for(int i=0;i<n;i++){ d[i]=(i==0?sx_choose("d",6):i); if(nd==2) d[i]=0; double s=sx_real_in(NM("s",i),0.01,10); for(int k=0;k<nd;k++) p[i*nd+k]=D[d[i]][k]*s; } dfm2::NormalizeVector_Points(p.data(),(U)n,(U)nd); for(int i=0;i<n;i++) for(int k=0;k<nd;k++) sx_eq(p[i*nd+k]*L[d[i]],D[d[i]][k],"unit length in the same direction"); sx_check(p[n*nd]==2,"nothing past the points is written"); }
SX_ENTRY(normalize_vec_any){ optl(); int nd=2+sx_choose("nd",2); VD p=pts("p",nd,10),q=p; double l2=0; for(int k=0;k<nd;k++) l2+=q[k]*q[k]; sx_assume(l2>0.01); dfm2::NormalizeVector_Points(p.data(),1u,(U)nd); double s=0; for(int k=0;k<nd;k++) s+=p[k]*p[k]; sx_eq(s,1,"unit length"); for(int k=0;k<nd;k++) for(int j=0;j<k;j++) sx_eq(p[k]*q[j],p[j]*q[k],"same line"); }
SX_ENTRY(random){ opt(); sx_nrand=0; int nd=1+sx_choose("nd",3),n=sx_choose("n",3); double lo[3],hi[3]; for(int k=0;k<3;k++){ lo[k]=sx_real_in(NM("lo",k),-5,5); hi[k]=lo[k]+sx_real_in(NM("w",k),0,3); } VD p(n*nd+1,7.); dfm2::Points_RandomUniform(p.data(),n,nd,lo,hi); for(int i=0;i<n*nd;i++){ sx_le(lo[i%nd],p[i],"random points are inside the box"); sx_le(p[i],hi[i%nd],"random points are inside the box"); } sx_check(p[n*nd]==7,"nothing past the points is written"); }
SX_ENTRY(tangent){ optl(); static const double N[5][3]={{1,0,0},{0,0,-1},{0.6,0.8,0},{2./7,3./7,6./7},{-1./9,4./9,8./9}}; int k=sx_choose("n",5); const double*n=N[k]; VD no={0,1,0, n[0],n[1],n[2]}; VD o={1,2,2, sx_real_in("x",-5,5),sx_real_in("y",-5,5),sx_real_in("z",-5,5)}, q=o; double d=q[3]*n[0]+q[4]*n[1]+q[5]*n[2]; double t[3]; double l2=0; for(int i=0;i<3;i++){ t[i]=q[3+i]-d*n[i]; l2+=t[i]*t[i]; } sx_assume(l2>0.01); dfm2::TangentVector_Points3(o,no); double dn=o[3]*n[0]+o[4]*n[1]+o[5]*n[2]; sx_eq(dn,0,"tangent to the surface"); double s=o[3]*o[3]+o[4]*o[4]+o[5]*o[5]; sx_eq(s,1,"unit length"); double x=o[3]*t[0]+o[4]*t[1]+o[5]*t[2]; sx_le(0,x,"same side as the given direction"); sx_eq(x*x,l2,"along the projection of the given direction"); }
// ------------------------------------------------------------------ bounding boxes
static void ext(double*lo,double*hi,const VD&p,const std::vector<U>&ids){ for(int k=0;k<3;k++){ lo[k]=hi[k]=p[3*ids[0]+k]; for(U i:ids){ if(sx_fork(p[3*i+k]<lo[k])) lo[k]=p[3*i+k]; if(sx_fork(p[3*i+k]>hi[k])) hi[k]=p[3*i+k]; } } }
static VD cloud(int n){ VD p(3*n); for(int i=0;i<3*n;i++) p[i]=(double)((i*5+2)%7)*0.5-1; int ax=sx_choose("axis",3); for(int i=0;i<n&&i<3;i++) p[3*((i*2)%n)+ax]=sx_real_in(NM("x",i),-20,20); return p; }
static std::vector<U> iota(int n){ std::vector<U> v; for(int i=0;i<n;i++) v.push_back(i); return v; }
static void chk(const double*c,const double*w,const double*lo,const double*hi){ for(int k=0;k<3;k++){ sx_eq(2*c[k],lo[k]+hi[k],"centre of the box"); sx_eq(w[k],hi[k]-lo[k],"width of the box"); } }
SX_ENTRY(box){ opt(); int n=1+sx_choose("n",T?4:3); VD p=cloud(n); double lo[3],hi[3]; ext(lo,hi,p,iota(n)); double a[3],b[3]; dfm2::BoundingBox3_Points3(a,b,p.data(),n); for(int k=0;k<3;k++){ sx_eq(a[k],lo[k],"smallest coordinate"); sx_eq(b[k],hi[k],"largest coordinate"); } }
SX_ENTRY(box_any_order){ opt(); int n=2; VD p=pts("p",3*n,20); double a[3],b[3]; dfm2::BoundingBox3_Points3(a,b,p.data(),n); for(int k=0;k<3;k++){ bool t=sx_fork(p[k]<p[3+k]); sx_eq(a[k],t?p[k]:p[3+k],"smallest coordinate"); sx_eq(b[k],t?p[3+k]:p[k],"largest coordinate"); } }
SX_ENTRY(center_width){ opt(); int n=1+sx_choose("n",T?4:3); VD p=cloud(n); double lo[3],hi[3]; ext(lo,hi,p,iota(n)); int m=sx_choose("method",3); double c[3],w[3]; if(m==0) dfm2::CenterWidth_Point3(c[0],c[1],c[2],w[0],w[1],w[2],p.data(),n); else if(m==1) dfm2::CenterWidth_Points3(c[0],c[1],c[2],w[0],w[1],w[2],p); else dfm2::CenterWidth_Points3(c,w,p); chk(c,w,lo,hi); double s=dfm2::Size_Points3D_LongestAABBEdge(p); double m3=w[0]; for(int k=1;k<3;k++) if(sx_fork(w[k]>m3)) m3=w[k]; sx_eq(s,m3,"longest edge of the box"); }
SX_ENTRY(center_width_empty){ optl(); VD p; double c[3]={5,5,5},w[3]={5,5,5}; int m=sx_choose("method",4); static const double e[3][3]={{1,0,0},{0,1,0},{0,0,1}}; if(m==0) dfm2::CenterWidth_Point3(c[0],c[1],c[2],w[0],w[1],w[2],(const double*)nullptr,0); else if(m==1) dfm2::CenterWidth_Points3(c,w,p); else if(m==2) dfm2::GetCenterWidthLocal(c[0],c[1],c[2],w[0],w[1],w[2],p,e[0],e[1],e[2]); else { VD q={1,2,3,4,5,6}; std::vector<U> el={0,1}; std::vector<int> g={4}; dfm2::GetCenterWidthGroup(c[0],c[1],c[2],w[0],w[1],w[2],q,el,2u,3,g); } for(int k=0;k<3;k++) sx_check((c[k]==0)&(w[k]==1),"nothing to bound gives the unit box at the origin"); }
SX_ENTRY(local){ opt(); static const double E[3][9]={{0,1,0,0,0,1,1,0,0},{0.6,0.8,0,-0.8,0.6,0,0,0,1},{2./7,3./7,6./7,3./7,-6./7,2./7,6./7,2./7,-3./7}}; const double*e=E[sx_choose("frame",3)]; int n=1+sx_choose("n",3); VD p=cloud(n),q(3*n); for(int i=0;i<n;i++) for(int k=0;k<3;k++) q[3*i+k]=p[3*i]*e[3*k]+p[3*i+1]*e[3*k+1]+p[3*i+2]*e[3*k+2]; double lo[3],hi[3]; ext(lo,hi,q,iota(n)); double c[3],w[3]; dfm2::GetCenterWidthLocal(c[0],c[1],c[2],w[0],w[1],w[2],p,e,e+3,e+6); chk(c,w,lo,hi); }
SX_ENTRY(group){ opt(); int nn=1+sx_choose("nnoel",T?6:4); int ne=3; int np=nn+3; VD p(3*np); for(int i=0;i<3*np;i++) p[i]=(double)((i*5+2)%7)*0.5-1; int ax=sx_choose("axis",3); for(int i=0;i<(T?3:2);i++) p[3*(i*(np-1)/2)+ax]=sx_real_in(NM("x",i),-20,20); std::vector<U> el; for(int e=0;e<ne;e++) for(int k=0;k<nn;k++) el.push_back((e*2+k)%np); std::vector<int> g(ne); int code=1+sx_choose("groups",7); std::vector<U> ids; for(int e=0;e<ne;e++){ g[e]=(code>>e&1)?2:e; if(g[e]==2) for(int k=0;k<nn;k++) ids.push_back(el[e*nn+k]); } double lo[3],hi[3]; ext(lo,hi,p,ids); double c[3],w[3]; dfm2::GetCenterWidthGroup(c[0],c[1],c[2],w[0],w[1],w[2],p,el,(U)nn,2,g); chk(c,w,lo,hi); }
SX_ENTRY(group_mixed){ opt(); int np=6; VD p(3*np); for(int i=0;i<3*np;i++) p[i]=(double)((i*5+2)%7)*0.5-1; int ax=sx_choose("axis",3); for(int i=0;i<(T?3:2);i++) p[3*(2*i+1)+ax]=sx_real_in(NM("x",i),-20,20); std::vector<U> ind={0,3,7,9,9}, el={0,1,2, 2,3,4,5, 1,4}; std::vector<int> g(4); int code=1+sx_choose("groups",7); std::vector<U> ids; for(int e=0;e<4;e++){ g[e]=e<3&&(code>>e&1)?9:e; if(g[e]==9) for(U k=ind[e];k<ind[e+1];k++) ids.push_back(el[k]); } if(sx_choose("empty",2)) g[3]=9; double lo[3],hi[3]; ext(lo,hi,p,ids); double c[3],w[3]; if(sx_choose("six",2)){ double cw[6]; dfm2::GetCenterWidth3DGroup(cw,p,ind,el,9,g); for(int k=0;k<3;k++){ c[k]=cw[k]; w[k]=cw[3+k]; } } else dfm2::GetCenterWidthGroup(c[0],c[1],c[2],w[0],w[1],w[2],p,ind,el,9,g); chk(c,w,lo,hi); }
// ------------------------------------------------------------------ un-indexed meshes
static std::vector<U> tris(int n,int np){ std::vector<U> t; for(int i=0;i<3*n;i++) t.push_back(i==0?sx_choose("v0",np):(i*i+2*i+1)%np); return t; }
SX_ENTRY(unindexed){ optl(); int nt=sx_choose("nt",T?5:4),np=5; VD p=pts("p",3*np,10); auto t=nt?tris(nt,np):std::vector<U>(); VD x={1,2}; dfm2::UnidexedVertexDataTriMesh(x,p,t); sx_check((int)x.size()==9*nt,"nine numbers per triangle"); if((int)x.size()!=9*nt) return; for(int i=0;i<3*nt;i++) for(int k=0;k<3;k++) sx_eq(x[3*i+k],p[3*t[i]+k],"corner positions"); VD e; dfm2::UnindexedEdgeMesh3_UnindexedTrimesh3(e,x); sx_check((int)e.size()==18*nt,"three edges per triangle"); if((int)e.size()!=18*nt) return; for(int i=0;i<nt;i++) for(int s=0;s<3;s++) for(int k=0;k<3;k++){ sx_eq(e[18*i+6*s+k],p[3*t[3*i+s]+k],"edge start"); sx_eq(e[18*i+6*s+3+k],p[3*t[3*i+(s+1)%3]+k],"edge end"); } }
SX_ENTRY(unindexed_color){ optl(); int nt=sx_choose("nt",4); std::vector<int> f; for(int i=0;i<nt;i++) f.push_back(sx_choose(NM("f",i),3)); double c[3][3]; for(int i=0;i<9;i++) c[i/3][i%3]=sx_real_in(NM("c",i),0,1); std::vector<U> t(3*nt,0); VD x; dfm2::UnindexedColorTriMesh3(x,c,f,t); sx_check((int)x.size()==9*nt,"nine numbers per triangle"); if((int)x.size()!=9*nt) return; for(int i=0;i<9*nt;i++) sx_eq(x[i],c[f[i/9]][i%3],"colour of the triangle's flag"); }
SX_ENTRY(unindexed_normal){ optl(); VD p=pts("p",9,5); std::vector<U> t={1,2,0}; double e1[3],e2[3],n[3]; for(int k=0;k<3;k++){ e1[k]=p[6+k]-p[3+k]; e2[k]=p[k]-p[3+k]; } n[0]=e1[1]*e2[2]-e1[2]*e2[1]; n[1]=e1[2]*e2[0]-e1[0]*e2[2]; n[2]=e1[0]*e2[1]-e1[1]*e2[0]; double l2=n[0]*n[0]+n[1]*n[1]+n[2]*n[2]; sx_assume(l2>0.01); VD x; dfm2::UnindexedNormalTriMesh3(x,p,t); sx_check(x.size()==9,"a normal per corner"); if(x.size()!=9) return; double s=x[0]*x[0]+x[1]*x[1]+x[2]*x[2]; sx_eq(s,1,"unit normal"); double l=std::sqrt(l2); for(int c=0;c<3;c++) for(int k=0;k<3;k++) sx_eq(x[3*c+k]*l,n[k],"right-hand normal of the triangle at every corner"); }
// ------------------------------------------------------------------ parametric surfaces
static V3 vec(const char*n,int i){ double a=sx_real_in(NM(n,3*i),-5,5),b=sx_real_in(NM(n,3*i+1),-5,5),c=sx_real_in(NM(n,3*i+2),-5,5); return V3(a,b,c); }
static void eqv(const V3&a,const V3&b,const char*l){ for(int k=0;k<3;k++) sx_eq(a.p[k],b.p[k],l); }
static V3 bez(double t,const V3&a,const V3&b,const V3&c,const V3&d){ double s=1-t; return (s*s*s)*a+(3*s*s*t)*b+(3*s*t*t)*c+(t*t*t)*d; }
SX_ENTRY(bezier_patch){ optl(); V3 P[16]; for(int i=0;i<16;i++) P[i]=vec("p",i); double u=sx_real_in("u",0,1),v=sx_real_in("v",0,1); V3 a=dfm2::getPointSurfaceBezierCubic(u,v,P[0],P[1],P[2],P[3],P[4],P[5],P[6],P[7],P[8],P[9],P[10],P[11],P[12],P[13],P[14],P[15]); V3 r[4]; for(int i=0;i<4;i++) r[i]=bez(v,P[4*i],P[4*i+1],P[4*i+2],P[4*i+3]); eqv(a,bez(u,r[0],r[1],r[2],r[3]),"tensor product of cubic curves"); }
SX_ENTRY(bezier_grid){ optl(); std::vector<V3> cp; for(int i=0;i<16;i++) cp.push_back(vec("p",i)); int n=1+sx_choose("n",T?4:3); std::vector<V3> a(2); dfm2::getCubicBezierSurface(n,a,cp); sx_check((int)a.size()==(n+1)*(n+1),"a grid of points"); if((int)a.size()!=(n+1)*(n+1)) return; for(int i=0;i<=n;i++) for(int j=0;j<=n;j++){ double u=(double)i/n,v=(double)j/n; V3 r[4]; for(int k=0;k<4;k++) r[k]=bez(v,cp[4*k],cp[4*k+1],cp[4*k+2],cp[4*k+3]); V3 q=bez(u,r[0],r[1],r[2],r[3]); eqv(a[i*(n+1)+j],q,"points of the patch"); } }
SX_ENTRY(coons_tri){ optl(); V3 P[9]; for(int i=0;i<9;i++) P[i]=vec("p",i); double t=sx_real_in("t",0.01,0.99); int s=sx_choose("side",3); double b[3]={0,0,0}; b[(s+1)%3]=1-t; b[(s+2)%3]=t; V3 q=dfm2::getPointCoonsTri_CubicBezierEdge(b[0],b[1],b[2],P); int o=3*((s+1)%3); eqv(q,bez(t,P[o],P[o+1],P[o+2],P[(o+3)%9]),"the border of the patch is the given curve"); }
SX_ENTRY(hermite_quad){ optl(); V3 P[12]; for(int i=0;i<12;i++) P[i]=vec("p",i); double t=sx_real_in("t",0,1); int s=sx_choose("side",4); V3 q; V3 e; if(s==0){ q=dfm2::getPointHermetianQuad(t,0.,P); e=bez(t,P[0],P[1],P[2],P[3]); } else if(s==1){ q=dfm2::getPointHermetianQuad(1.,t,P); e=bez(t,P[3],P[4],P[5],P[6]); } else if(s==2){ q=dfm2::getPointHermetianQuad(t,1.,P); e=bez(t,P[9],P[8],P[7],P[6]); } else { q=dfm2::getPointHermetianQuad(0.,t,P); e=bez(t,P[0],P[11],P[10],P[9]); } eqv(q,e,"the border of the patch is the given curve"); }
