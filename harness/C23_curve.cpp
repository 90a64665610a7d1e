// C23: Bezier and spline curves
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstring>
#include <array>
#include <vector>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_ndegree.h"
#include "delfem2/geo_polyline.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef dfm2::CVec2d V;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("sqrt_square",1); sx_opt("div0",0); }
static void pts(V*p,int n){ for(int i=0;i<n;i++){ double x=sx_real_in(NM("x",i),-8,8),y=sx_real_in(NM("y",i),-8,8); p[i]=V(x,y); } }
static void pteq(const V&a,double x,double y,const char*m){ sx_eq(a.p[0],x,m); sx_eq(a.p[1],y,m); }
// de Casteljau evaluation and derivative on n+1 control points
static V casteljau(const V*p,int n,double t){ double x[8],y[8]; for(int i=0;i<=n;i++){ x[i]=p[i].p[0]; y[i]=p[i].p[1]; } for(int r=n;r>0;r--) for(int i=0;i<r;i++){ x[i]=(1-t)*x[i]+t*x[i+1]; y[i]=(1-t)*y[i]+t*y[i+1]; } return V(x[0],y[0]); }
static V hodograph(const V*p,int n,double t){ V d[8]; for(int i=0;i<n;i++) d[i]=V(n*(p[i+1].p[0]-p[i].p[0]),n*(p[i+1].p[1]-p[i].p[1])); return casteljau(d,n-1,t); }
// exact area swept about the origin: Boole's rule is exact to degree five
static double swept(const V*p,int n){ static const double w[5]={7./90,32./90,12./90,32./90,7./90}; double s=0; for(int i=0;i<5;i++){ double t=i/4.; V a=casteljau(p,n,t),d=hodograph(p,n,t); s+=w[i]*0.5*(a.p[0]*d.p[1]-a.p[1]*d.p[0]); } return s; }
// ------------------------------------------------------------------ evaluation
SX_ENTRY(bezier2){ optl(); V p[3]; pts(p,3); double t=sx_real_in("t",0,1); V c=casteljau(p,2,t),q=dfm2::PointOnQuadraticBezierCurve(t,p[0],p[1],p[2]); pteq(q,c.p[0],c.p[1],"point"); auto s=dfm2::Split_QuadraticBezierCurve(p[0],p[1],p[2],t); double u=sx_real_in("u",0,1); V l=casteljau(&s[0],2,u),r=casteljau(&s[3],2,u),a=casteljau(p,2,t*u),b=casteljau(p,2,t+(1-t)*u); pteq(l,a.p[0],a.p[1],"first part of the split"); pteq(r,b.p[0],b.p[1],"second part of the split"); sx_eq(dfm2::Area_QuadraticBezierCurve2(p[0],p[1],p[2]),swept(p,2),"area"); for(int n=2;n<5;n++){ std::vector<V> P; dfm2::Polyline_BezierQuadratic(P,n,p[0],p[1],p[2]); sx_check((int)P.size()==n,"number of samples"); for(int i=0;i<n;i++){ V c=casteljau(p,2,(double)i/(n-1)); pteq(P[i],c.p[0],c.p[1],"even samples"); } } }
SX_ENTRY(bezier3){ optl(); V p[4]; pts(p,4); double t=sx_real_in("t",0,1); V c=casteljau(p,3,t),q=dfm2::PointOnCubicBezierCurve(t,p[0],p[1],p[2],p[3]); pteq(q,c.p[0],c.p[1],"point"); V h=hodograph(p,3,t),g=dfm2::Tangent_CubicBezierCurve(t,p[0],p[1],p[2],p[3]); pteq(g,h.p[0],h.p[1],"tangent"); for(int d=0;d<2;d++) sx_eq(g.p[d],sx_d(q.p[d],t),"tangent is the derivative"); auto s=dfm2::Split_CubicBezierCurve(p[0],p[1],p[2],p[3],t); double u=sx_real_in("u",0,1); V l=casteljau(&s[0],3,u),r=casteljau(&s[4],3,u),a=casteljau(p,3,t*u),b=casteljau(p,3,t+(1-t)*u); pteq(l,a.p[0],a.p[1],"first part of the split"); pteq(r,b.p[0],b.p[1],"second part of the split"); sx_eq(dfm2::Area_CubicBezierCurve2(p[0],p[1],p[2],p[3]),swept(p,3),"area"); for(int n=2;n<5;n++){ std::vector<V> P; dfm2::Polyline_BezierCubic(P,n,p[0],p[1],p[2],p[3]); sx_check((int)P.size()==n,"number of samples"); for(int i=0;i<n;i++){ V c=casteljau(p,3,(double)i/(n-1)); pteq(P[i],c.p[0],c.p[1],"even samples"); } } }
// ------------------------------------------------------------------ bounding boxes
static const double QB[5][2]={{0,0},{0,2},{1,-1},{-2,3},{0.5,1}};
SX_ENTRY(aabb2){ opt(); int k=sx_choose("base",5); double x=sx_real_in("x",-4,4),t=sx_real_in("t",0,1); int w=sx_choose("free",3); double p[3]={QB[k][0],QB[k][1],1}; p[w]=x; V c[3]; for(int i=0;i<3;i++) c[i]=V(p[i],p[2-i]); auto b=dfm2::AABB_QuadraticBezierCurve(c[0],c[1],c[2]); V q=casteljau(c,2,t); for(int d=0;d<2;d++){ sx_check(b[d]<=q.p[d]+1e-9,"the box contains the curve"); sx_check(b[d+2]>=q.p[d]-1e-9,"the box contains the curve"); double e0=c[0].p[d],e1=c[2].p[d],m=c[1].p[d],lo=e0<e1?e0:e1,hi=e0<e1?e1:e0; if(sx_fork((m<lo)|(m>hi))){ double ex=(e0*e1-m*m)/(e0-2*m+e1); if(m<lo) lo=ex; else hi=ex; } double f=b[d]-lo,g=b[d+2]-hi; sx_check((f<1e-9)&(f>-1e-9),"the box is tight"); sx_check((g<1e-9)&(g>-1e-9),"the box is tight"); } }
// cubic with x'(t) = k (t-u)(t-v)
SX_ENTRY(aabb3){ opt(); int z=sx_choose("case",T?6:4); static const double KV[6][2]={{6,0.25},{-3,0.5},{6,2},{-9,-1},{3,0.75},{12,1}}; double k=KV[z][0],v=KV[z][1],u=sx_real_in("u",-1,2),t=sx_real_in("t",0,1); double d1=k*u*v,d2=-k*(u+v),d3=k; // x' = d1 + d2 t + d3 t^2
  double x0=0.5,c=d1,b=d2/2,a=d3/3; double p[4]={x0,x0+c/3,x0+2*c/3+b/3,x0+c+b+a}; V q[4]; for(int i=0;i<4;i++) q[i]=V(p[i],-p[i]); auto B=dfm2::AABB_CubicBezierCurve(q[0],q[1],q[2],q[3]); V y=casteljau(q,3,t); for(int d=0;d<2;d++){ sx_check(B[d]<=y.p[d]+1e-9,"the box contains the curve"); sx_check(B[d+2]>=y.p[d]-1e-9,"the box contains the curve"); } double uc=u<0?0:u>1?1:u,vc=v<0?0:v>1?1:v; V e0=q[0],e1=q[3],eu=casteljau(q,3,uc),ev=casteljau(q,3,vc); for(int d=0;d<2;d++){ double lo=std::min(std::min(e0.p[d],e1.p[d]),std::min(eu.p[d],ev.p[d])),hi=std::max(std::max(e0.p[d],e1.p[d]),std::max(eu.p[d],ev.p[d])); double f=B[d]-lo,g=B[d+2]-hi; sx_check((f<1e-9)&(f>-1e-9),"the box is tight"); sx_check((g<1e-9)&(g>-1e-9),"the box is tight"); } }
// monotone, degree-elevated and degenerate cubics
SX_ENTRY(aabb3_low){ opt(); int z=sx_choose("case",4); double x=sx_real_in("x",-4,4),t=sx_real_in("t",0,1); double p[4]; if(z==0){ double a=0,b=x,c=1; p[0]=a; p[1]=(a+2*b)/3; p[2]=(2*b+c)/3; p[3]=c; } else if(z==1){ p[0]=x; p[1]=x+(2-x)/3; p[2]=x+2*(2-x)/3; p[3]=2; } else if(z==2){ p[0]=p[1]=p[2]=p[3]=x; } else { p[0]=0; p[1]=2; p[2]=1; p[3]=3+x*x; } V q[4]; for(int i=0;i<4;i++) q[i]=V(p[i],p[3-i]); if(z==3) sx_assume((2*1-2*2+0+0)*0+(1-2*2+0)*(1-2*2+0)-(p[3]-3+6)*0>=0); auto B=dfm2::AABB_CubicBezierCurve(q[0],q[1],q[2],q[3]); V y=casteljau(q,3,t); for(int d=0;d<2;d++){ sx_check(B[d]<=y.p[d]+1e-9,"the box contains the curve"); sx_check(B[d+2]>=y.p[d]-1e-9,"the box contains the curve"); } }
// ------------------------------------------------------------------ length
// the curve cut at s = s(u); u makes every norm rational, so the derivative of the length is a rational identity
SX_ENTRY(length2){ opt(); static const double Q[6][4]={{3,4,1,0},{0,2,4,3},{-4,3,1.5,0},{5,-12,3,4},{1,0,0,1},{-3,-4,2,0}}; int k=sx_choose("curve",6); double ax=Q[k][0],ay=Q[k][1],bx=Q[k][2],by=Q[k][3]; double n1=std::sqrt(ax*ax+ay*ay),n2=std::sqrt(bx*bx+by*by),cr=ax*by-ay*bx,dt=ax*bx+ay*by,D=(cr<0?-cr:cr)/(2*n2*n2); double u=sx_real_in("u",0.0009765625,1); double s=D*(1-u*u)/(2*u)-dt/(2*n2*n2); sx_assume((s>=0.0625)&(s<=4)); (void)n1; V p0(1,-2),p1(1+ax*s/2,-2+ay*s/2),p2(1+ax*s+bx*s*s,-2+ay*s+by*s*s); double L=dfm2::Length_QuadraticBezierCurve_Analytic(p0,p1,p2); double speed=2*n2*D*(1+u*u)/(2*u); double d1=sx_d(L,u); double d2=sx_d(s,u); sx_eq(d1,speed*d2,"length grows at the speed of the curve"); sx_eq(speed*speed,(ax+2*bx*s)*(ax+2*bx*s)+(ay+2*by*s)*(ay+2*by*s),"speed"); }
// straight curves, with and without reversal: control point at fraction s of the chord
SX_ENTRY(length2_line){ sx_opt("ieee",1); optl(); static const double D[4][2]={{3,4},{1,0},{0,-2},{1,0.3}}; static const double S[11]={0.25,0.5,0.625,0.75,0.9,1,1.125,1.5,2,3,-0.5}; int k=sx_choose("dir",4); double s=S[sx_choose("middle",11)]; int back=sx_choose("return",2); double f=back?0:1; double l=std::sqrt(D[k][0]*D[k][0]+D[k][1]*D[k][1]); V p0(1,1),p1(1+s*D[k][0],1+s*D[k][1]),p2(1+f*D[k][0],1+f*D[k][1]); double L=dfm2::Length_QuadraticBezierCurve_Analytic(p0,p1,p2); double a=2*s,b=f-2*s,t=b==0?-1:-a/(2*b),x=t>0&&t<1?a*t+b*t*t:0; double ex=(std::fabs(x)+std::fabs(f-x))*l; double e=L-ex; sx_check((e<1e-6)&(e>-1e-6),"length of a straight curve"); }
SX_ENTRY(length2_flat){ opt(); double s=sx_real_in("s",0.25,4); V p0(0,0),p1(1.5*s,2*s),p2(3*s,4*s); double L=dfm2::Length_QuadraticBezierCurve_Analytic(p0,p1,p2),e=L-5*s; sx_check((e<1e-5)&(e>-1e-5),"length of a line"); double G=dfm2::Length_QuadraticBezierCurve_Quadrature(p0,p1,p2,2)-5*s; sx_check((G<1e-5)&(G>-1e-5),"length of a line"); V c1(s,4*s/3),c2(2*s,8*s/3); for(int g=0;g<6;g++){ double C=dfm2::Length_CubicBezierCurve_Quadrature(p0,c1,c2,p2,g)-5*s; sx_check((C<1e-5)&(C>-1e-5),"length of a line"); } double A=dfm2::Length_QuadraticBezierCurve_QuadratureSubdiv(p0,p1,p2)-5*s,B=dfm2::Length_CubicBezierCurve_QuadratureSubdivision(p0,c1,c2,p2)-5*s; sx_check((A<1e-5)&(A>-1e-5),"length of a line"); sx_check((B<1e-5)&(B>-1e-5),"length of a line"); }
// speed is a polynomial (a Pythagorean hodograph): quadrature of enough order is exact
SX_ENTRY(length3_ph){ opt(); double m=sx_real_in("m",-3,3); double a=1,b=m; double u0=a,u1=2,v0=b,v1=-1; // w=(1-t)(u0+i v0)+t(u1+i v1), hodograph w^2
  double hx[3]={u0*u0-v0*v0,u0*u1-v0*v1,u1*u1-v1*v1},hy[3]={2*u0*v0,u0*v1+u1*v0,2*u1*v1}; V p[4]; p[0]=V(1,-1); for(int i=0;i<3;i++) p[i+1]=V(p[i].p[0]+hx[i]/3,p[i].p[1]+hy[i]/3); double ex=(u0*u0+v0*v0+u0*u1+v0*v1+u1*u1+v1*v1)/3; for(int g=1;g<6;g++){ double e=dfm2::Length_CubicBezierCurve_Quadrature(p[0],p[1],p[2],p[3],g)-ex; sx_check((e<1e-6)&(e>-1e-6),"length with a polynomial speed"); } double e=dfm2::Length_CubicBezierCurve_QuadratureSubdivision(p[0],p[1],p[2],p[3],1e-8,2)-ex; sx_check((e<1e-6)&(e>-1e-6),"length with a polynomial speed"); }
// ------------------------------------------------------------------ B-splines
// Cox-de Boor basis on the open uniform knot vector
static double knot(int i,int deg,int nseg){ int k=i-deg; return k<0?0:k>nseg?nseg:k; }
static double basis(int i,int d,int seg,double t,int deg,int nseg){ if(d==0) return i==seg+deg?1:0; double a=knot(i,deg,nseg),b=knot(i+d,deg,nseg),c=knot(i+1,deg,nseg),e=knot(i+d+1,deg,nseg); double r=0; if(b>a) r+=(t-a)/(b-a)*basis(i,d-1,seg,t,deg,nseg); if(e>c) r+=(e-t)/(e-c)*basis(i+1,d-1,seg,t,deg,nseg); return r; }
static V bspline(const std::vector<V>&P,int deg,int seg,double t){ int ns=(int)P.size()-deg; double x=0,y=0; for(int i=seg;i<=seg+deg;i++){ double w=basis(i,deg,seg,t,deg,ns); x+=w*P[i].p[0]; y+=w*P[i].p[1]; } return V(x,y); }
template<int D> static void spline(int mx){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); int ns=1+sx_choose("segments",mx),seg=sx_choose("seg",ns); std::vector<V> P(ns+D); pts(P.data(),ns+D); bool end=sx_choose("end",2); double s=sx_real_in("s",0,0.9990234375),t=end?seg+1:seg+s; int rs=end&&seg+1<ns?seg+1:seg; V r=bspline(P,D,rs,t); 
  V g=dfm2::Sample_BsplineCurve<V,D+1>(t,P); pteq(g,r.p[0],r.p[1],"general B-spline"); if constexpr(D==2){ V q=dfm2::Sample_QuadraticBsplineCurve<V>(t,P); pteq(q,r.p[0],r.p[1],"quadratic B-spline"); V u=dfm2::Tangent_QuadraticBsplineCurve<V>(t,P); if(!end) for(int d=0;d<2;d++) sx_eq(u.p[d],sx_d(r.p[d],s),"tangent is the derivative"); } if constexpr(D==3){ V q=dfm2::Sample_CubicBsplineCurve<V>(t,P); pteq(q,r.p[0],r.p[1],"cubic B-spline"); }
  if constexpr(D>=2){ V u=dfm2::Sample_BsplineDerivative<V,D+1>(t,P); if(!end) for(int d=0;d<2;d++) sx_eq(u.p[d],sx_d(r.p[d],s),"derivative"); }
  std::vector<double> K; for(int i=0;i<ns+2*D+1;i++) K.push_back(knot(i,D,ns)); if(!end){ sx_assume(s>=0.0009765625); V b=dfm2::DeBoorBSpline(t,D,P,K); pteq(b,r.p[0],r.p[1],"de Boor evaluation"); } }
SX_ENTRY(spline1){ spline<1>(3); }
SX_ENTRY(spline2){ spline<2>(5); }
SX_ENTRY(spline3){ spline<3>(T?7:6); }
SX_ENTRY(spline4){ spline<4>(T?6:4); }
SX_ENTRY(spline_samples){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); int ns=1+sx_choose("segments",3); std::vector<V> P(ns+3); pts(P.data(),ns+3); int n=2+sx_choose("n",4); std::vector<V> S; dfm2::Polyline_CubicBSplineCurve(S,n,P); sx_check((int)S.size()==n,"number of samples"); for(int i=0;i<n;i++){ int num=i*ns,seg=num/(n-1); if(seg>=ns) seg=ns-1; V r=bspline(P,3,seg,(double)num/(n-1)); pteq(S[i],r.p[0],r.p[1],"even samples"); } pteq(S[0],P[0].p[0],P[0].p[1],"starts at the first control point"); pteq(S[n-1],P.back().p[0],P.back().p[1],"ends at the last control point"); std::vector<int> mu; std::vector<double> kn,fl; for(int i=0;i<=ns;i++){ mu.push_back(i==0||i==ns?4:1); kn.push_back(i); } dfm2::FlatKnot(fl,mu,kn); sx_check((int)fl.size()==ns+7,"flat knot vector"); for(int i=0;i<ns+7;i++) sx_check(fl[i]==knot(i,3,ns),"flat knot vector"); std::vector<V> Q; dfm2::SampleBSpline(Q,n-1,3,fl,P); sx_check((int)Q.size()==n,"number of samples"); for(int i=0;i<n;i++) pteq(Q[i],S[i].p[0],S[i].p[1],"both samplers agree"); }
SX_ENTRY(catmull){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); int n=3+sx_choose("n",T?5:4),seg=sx_choose("seg",n-1); std::vector<V> P(n); pts(P.data(),n); double s=sx_real_in("s",0.0009765625,0.9990234375),t=seg+s; V r=dfm2::Sample_CatmullRomSplineCurve<V>(t,P); for(int d=0;d<2;d++){ double a=P[seg].p[d],b=P[seg+1].p[d],m0=seg==0?b-a:(b-P[seg-1].p[d])/2,m1=seg==n-2?b-a:(P[seg+2].p[d]-a)/2; sx_eq(sx_at(r.p[d],s,0),a,"passes through the points"); sx_eq(sx_at(r.p[d],s,1),b,"passes through the points"); double g=sx_d(r.p[d],s); sx_eq(sx_at(g,s,0),m0,"tangent at the start"); sx_eq(sx_at(g,s,1),m1,"tangent at the end"); double g4=sx_d(sx_d(sx_d(g,s),s),s); sx_eq(g4,0,"cubic segment"); } for(int i=0;i<n;i++){ V q=dfm2::Sample_CatmullRomSplineCurve<V>(i,P); pteq(q,P[i].p[0],P[i].p[1],"interpolates every point"); } int m=2+sx_choose("m",3); std::vector<V> S; dfm2::Polyline_CatmullRomSplineCurve(S,(m-1)*(n-1)+1,P); sx_check((int)S.size()==(m-1)*(n-1)+1,"number of samples"); for(int i=0;i<n;i++) pteq(S[i*(m-1)],P[i].p[0],P[i].p[1],"samples interpolate the points"); }
// ------------------------------------------------------------------ nearest point
static const double LN[3][4]={{0,0.5,1,0},{1.25,0,0,1},{0,0,1,1}};
static double dist2(const V*p,int n,double t,const V&q){ V c=casteljau(p,n,t); double a=c.p[0]-q.p[0],b=c.p[1]-q.p[1]; return a*a+b*b; }
SX_ENTRY(nearest2){ opt(); sx_opt("check_ms",8000); static const double P[3][6]={{0,0,1,2,3,1},{0,0,1,0,1,1},{-1,2,0,-1,2,2}}; int k=sx_choose("curve",T?3:2),w=sx_choose("line",T?3:2),ns=2,ni=sx_choose("newton",2); double s=sx_real_in("s",-2,3); V p[3],q(LN[w][0]+s*LN[w][2],LN[w][1]+s*LN[w][3]); for(int i=0;i<3;i++) p[i]=V(P[k][2*i],P[k][2*i+1]); double t=dfm2::Nearest_QuadraticBezierCurve(q,p[0],p[1],p[2],ns,ni); sx_check((t>=0)&(t<=1),"parameter in range"); for(int i=0;i<=ns;i++) sx_check(dist2(p,2,t,q)<=dist2(p,2,(double)i/ns,q)+1e-6,"not farther than any sample"); }
SX_ENTRY(nearest3){ opt(); sx_opt("check_ms",8000); static const double P[2][8]={{0,0,1,2,2,-1,3,1},{0,0,0,1,1,1,1,0}}; int k=sx_choose("curve",2),w=sx_choose("line",T?3:1),ns=2,ni=sx_choose("newton",T?2:1); double s=sx_real_in("s",-2,3); V p[4],q(LN[w][0]+s*LN[w][2],LN[w][1]+s*LN[w][3]); for(int i=0;i<4;i++) p[i]=V(P[k][2*i],P[k][2*i+1]); double t=dfm2::Nearest_CubicBezierCurve(q,p[0],p[1],p[2],p[3],ns,ni); sx_check((t>=0)&(t<=1),"parameter in range"); for(int i=0;i<=ns;i++) sx_check(dist2(p,3,t,q)<=dist2(p,3,(double)i/ns,q)+1e-6,"not farther than any sample"); }
// a converged Newton iteration is stationary: query points on the normal at a known parameter
SX_ENTRY(nearest_fixed){ opt(); int c=sx_choose("cubic",2),u=1+sx_choose("at",3); double t0=u/4.,h=sx_real_in("h",-0.0625,0.0625); static const double P[8]={0,0,1,2,2,2.5,4,1}; V p[4]; for(int i=0;i<4;i++) p[i]=V(P[2*i],P[2*i+1]); int n=c?3:2; V f=casteljau(p,n,t0),d=hodograph(p,n,t0),q(f.p[0]-h*d.p[1],f.p[1]+h*d.p[0]); double t=c?dfm2::Nearest_CubicBezierCurve(q,p[0],p[1],p[2],p[3],4,3):dfm2::Nearest_QuadraticBezierCurve(q,p[0],p[1],p[2],4,3); sx_eq(t,t0,"keeps the exact foot point"); }
SX_ENTRY(plane){ opt(); int k=sx_choose("curve",3); static const double H[3][3]={{0,1,2},{1,-1,0.5},{-2,0.25,1}}; double a=sx_real_in("a",-4,-0.125),b=sx_real_in("b",0.125,4); if(k==1){ double c=a; a=b; b=c; } (void)H; V p[4]={V(a,1),V(a+(b-a)/3,2),V(a+2*(b-a)/3,-1),V(b,0)}; double t=9; bool r=dfm2::getParameterCubicBezier_IntersectionWithPlane(t,V(k==2?a/2:0,5),V(2,0),p[0],p[1],p[2],p[3]); sx_check(r,"a crossing is found"); double x=a+(b-a)*t-(k==2?a/2:0); sx_check((x<=1e-4)&(x>=-1e-4),"the point lies on the plane"); V z[4]={V(a,1),V(2*a,2),V(3*a,-1),V(a*0.5,0)}; if(k!=1){ bool q=dfm2::getParameterCubicBezier_IntersectionWithPlane(t,V(0,5),V(2,0),z[0],z[1],z[2],z[3]); sx_check(!q,"ends on one side"); } }
