// C10: intersection and containment predicates
#include "sx.h"
#include <vector>
#include <array>
#include <map>
#include <climits>
#include <cassert>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_polygon2.h"
namespace dfm2=delfem2; typedef dfm2::CVec3d V; typedef dfm2::CVec2d W; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("check_ms",10000); sx_opt("float_sqrt",1); }
static V v3(const char*n){ V r; for(int k=0;k<3;k++) r.p[k]=sx_real_in(n,-50,50); return r; }
static double dot(const V&a,const V&b){ return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static V cross(const V&a,const V&b){ return V(a.p[1]*b.p[2]-a.p[2]*b.p[1],a.p[2]*b.p[0]-a.p[0]*b.p[2],a.p[0]*b.p[1]-a.p[1]*b.p[0]); }
static V sub(const V&a,const V&b){ return V(a.p[0]-b.p[0],a.p[1]-b.p[1],a.p[2]-b.p[2]); }
static V cv(const double*p){ return V(p[0],p[1],p[2]); }
static double orient(const W&a,const W&b,const W&c){ return (b.p[0]-a.p[0])*(c.p[1]-a.p[1])-(b.p[1]-a.p[1])*(c.p[0]-a.p[0]); }
static bool onseg(const W&a,const W&b,const W&p){ return (orient(a,b,p)==0)&((p.p[0]-a.p[0])*(p.p[0]-b.p[0])+(p.p[1]-a.p[1])*(p.p[1]-b.p[1])<=0); }
// textbook closed-segment intersection on integer points
SX_ENTRY(edge_edge_grid){ sx_opt("check_ms",60000); int R=T?3:2; W a(0,0),b(sx_grid("bx",-R,R),sx_grid("by",-R,R)),c(sx_grid("cx",-R,R),sx_grid("cy",-R,R)),d(sx_grid("dx",-R,R),sx_grid("dy",-R,R)); sx_assume(!((b.p[0]==0)&(b.p[1]==0))&!((c.p[0]==d.p[0])&(c.p[1]==d.p[1]))); double o1=orient(a,b,c),o2=orient(a,b,d),o3=orient(c,d,a),o4=orient(c,d,b); bool ref=(((o1>0)!=(o2>0))&(o1!=0)&(o2!=0)&((o3>0)!=(o4>0))&(o3!=0)&(o4!=0))|onseg(a,b,c)|onseg(a,b,d)|onseg(c,d,a)|onseg(c,d,b); bool got=dfm2::IsIntersect_Edge2_Edge2(a,b,c,d); sx_check(got==ref,"segments intersect exactly when they share a point"); }
static const double SG[6][4]={{0,0,4,0},{0,0,4,2},{1,3,1,-2},{-1,-1,2,3},{2,2,2.5,2.125},{-3,1,-2,1}};
static const double MV[4][2]={{1,0},{0,1},{1,1},{1,-0.5}};
SX_ENTRY(edge_edge_moving){ opt(); int i=sx_choose("a",T?6:4),j=sx_choose("b",T?6:4),m=sx_choose("move",T?4:3); double s=sx_real_in("s",-9,9); W a(SG[i][0],SG[i][1]),b(SG[i][2],SG[i][3]),c(SG[j][0]+s*MV[m][0],SG[j][1]+s*MV[m][1]+0.25),d(SG[j][2]+s*MV[m][0],SG[j][3]+s*MV[m][1]+0.25); double o1=orient(a,b,c),o2=orient(a,b,d),o3=orient(c,d,a),o4=orient(c,d,b); bool got=dfm2::IsIntersect_Edge2_Edge2(a,b,c,d); bool in=(o1*o2<0)&(o3*o4<0); bool out=(o1*o2>0)|(o3*o4>0); sx_check(got|!in,"crossing segments intersect"); sx_check(!got|!out,"separated segments do not intersect"); }
static const double BX[3][4]={{0,0,2,1},{-1,-2,0.5,2},{0.25,0.25,3,3}};
SX_ENTRY(box_edge){ opt(); int b=sx_choose("box",3),i=sx_choose("edge",T?6:4),m=sx_choose("move",T?4:3); double s=sx_real_in("s",-9,9); W lo(BX[b][0],BX[b][1]),hi(BX[b][2],BX[b][3]),p(SG[i][0]+s*MV[m][0],SG[i][1]+s*MV[m][1]+0.125),q(SG[i][2]+s*MV[m][0],SG[i][3]+s*MV[m][1]+0.125); bool got=dfm2::IsIntersect_AABB2_Edge2<W>(lo,hi,p,q); double t=sx_real_in("t",0,1),x=p.p[0]+t*(q.p[0]-p.p[0]),y=p.p[1]+t*(q.p[1]-p.p[1]); sx_check(got|(x<=lo.p[0])|(x>=hi.p[0])|(y<=lo.p[1])|(y>=hi.p[1]),"no point of an edge reported outside lies inside the box"); bool sep=((p.p[0]<lo.p[0])&(q.p[0]<lo.p[0]))|((p.p[0]>hi.p[0])&(q.p[0]>hi.p[0]))|((p.p[1]<lo.p[1])&(q.p[1]<lo.p[1]))|((p.p[1]>hi.p[1])&(q.p[1]>hi.p[1])); double o0=orient(p,q,lo),o1=orient(p,q,hi),o2=orient(p,q,W(lo.p[0],hi.p[1])),o3=orient(p,q,W(hi.p[0],lo.p[1])); sep=sep|((o0>0)&(o1>0)&(o2>0)&(o3>0))|((o0<0)&(o1<0)&(o2<0)&(o3<0)); sx_check(!got|!sep,"an edge away from the box does not intersect it"); }
struct P3{ typedef double Scalar; enum{SizeAtCompileTime=3}; double v[3]; double operator[](int i)const{ return v[i]; } };
SX_ENTRY(origin_box){ sx_opt("check_ms",20000); int n=3+sx_choose("n",4); double d=sx_real_in("d",0,5); P3 p[6]; for(int i=0;i<n;i++) for(int k=0;k<3;k++) p[i].v[k]=sx_real_in("p",-9,9); bool got=n==3?dfm2::IsContact_Orgin_AabbOfPoint3(p[0],p[1],p[2],d):n==4?dfm2::IsContact_Orgin_AabbOfPoint4(p[0],p[1],p[2],p[3],d):n==5?dfm2::IsContact_Orgin_AabbOfPoint5(p[0],p[1],p[2],p[3],p[4],d):dfm2::IsContact_Orgin_AabbOfPoint6(p[0],p[1],p[2],p[3],p[4],p[5],d); bool ref=true; for(int k=0;k<3;k++){ bool lo=false,hi=false; for(int i=0;i<n;i++){ lo=lo|(p[i].v[k]>=-d); hi=hi|(p[i].v[k]<=d); } ref=ref&lo&hi; } sx_check(got==ref,"box of the points reaches within d of the origin"); }
static const double TR[5][3][3]={{{0,0,0},{4,0,0},{1,3,0}},{{0,0,0},{2,1,2},{-1,3,1}},{{-1,-1,2},{3,0,-1},{0,4,1}},{{0,0,1},{6,1,1},{5,2,1}},{{2,2,2},{2,-1,0},{-2,1,1}}};
SX_ENTRY(ray_tri){ opt(); int t=sx_choose("tri",T?5:3); V a=cv(TR[t][0]),b=cv(TR[t][1]),c=cv(TR[t][2]),o=v3("o"),d=v3("d"); V n=cross(sub(b,a),sub(c,a)); double vt=dot(n,d); sx_assume((vt>1e-2)|(vt<-1e-2)); double r0=9,r1=9; bool got=dfm2::IntersectRay_Tri3(r0,r1,o,d,a,b,c,0.0625); V q; for(int k=0;k<3;k++) q.p[k]=r0*a.p[k]+r1*b.p[k]+(1-r0-r1)*c.p[k]; V w=cross(sub(q,o),d); for(int k=0;k<3;k++) sx_eq(w.p[k],0,"barycentric point lies on the line"); sx_check(got==((r0>=-0.0625)&(r1>=-0.0625)&(1-r0-r1>=-0.0625)),"hit exactly when inside the triangle grown by eps"); }
SX_ENTRY(plane_line_tri){ opt(); int t=sx_choose("tri",T?5:3); V a=cv(TR[t][0]),b=cv(TR[t][1]),c=cv(TR[t][2]),o=v3("o"),d=v3("d"); V n=cross(sub(b,a),sub(c,a)); double vt=dot(n,d); sx_assume((vt>1e-2)|(vt<-1e-2)); double r0,r1,r2; V p; bool got=dfm2::Intersection_Plane3_Line3(p,r0,r1,r2,0.125,o,d,a,b,c); sx_eq(r0+r1+r2,1,"weights sum to one"); V w=cross(sub(p,o),d); for(int k=0;k<3;k++){ sx_eq(w.p[k],0,"point lies on the line"); sx_eq(p.p[k],r0*a.p[k]+r1*b.p[k]+r2*c.p[k],"weights give the point"); } sx_check(got==((r0>0.125)&(r1>0.125)&(r2>0.125)),"hit exactly when all weights exceed eps"); }
SX_ENTRY(plane_line){ opt(); V o=v3("o"),n=v3("n"),s=v3("s"),d=v3("d"); double vt=dot(n,d); sx_assume((vt>1e-2)|(vt<-1e-2)); V p=dfm2::Intersection_Plane3_Line3(o,n,s,d); sx_eq(dot(sub(p,o),n),0,"point lies on the plane"); V w=cross(sub(p,s),d); for(int k=0;k<3;k++) sx_eq(w.p[k],0,"point lies on the line"); }
// proper intersection of two triangles: some edge of one crosses the interior of the other
static void crossing(const V*p,const V*q,bool&in,bool&near){ V n=cross(sub(q[1],q[0]),sub(q[2],q[0])); double N=dot(n,n); for(int e=0;e<3;e++){ V a=p[e],b=p[(e+1)%3]; double da=dot(sub(a,q[0]),n),db=dot(sub(b,q[0]),n); if(sx_fork((da>-1e-4)&(da<1e-4))){ near=true; continue; } if(sx_fork((db>-1e-4)&(db<1e-4))){ near=true; continue; } if(sx_fork((da>0)==(db>0))) continue; double f=da/(da-db); V x(a.p[0]+f*(b.p[0]-a.p[0]),a.p[1]+f*(b.p[1]-a.p[1]),a.p[2]+f*(b.p[2]-a.p[2])); double s0=dot(n,cross(sub(q[1],q[0]),sub(x,q[0])))/N,s1=dot(n,cross(sub(q[2],q[1]),sub(x,q[1])))/N,s2=dot(n,cross(sub(q[0],q[2]),sub(x,q[2])))/N; if(sx_fork((s0>1e-4)&(s1>1e-4)&(s2>1e-4))) in=true; else if(sx_fork((s0>-1e-4)&(s1>-1e-4)&(s2>-1e-4))) near=true; } }
static void onTri(const V&x,const V*q,const char*l){ V n=cross(sub(q[1],q[0]),sub(q[2],q[0])); double N=dot(n,n),h=dot(sub(x,q[0]),n); bool ok=(h<=1e-6)&(h>=-1e-6); for(int e=0;e<3;e++) ok=ok&(dot(n,cross(sub(q[(e+1)%3],q[e]),sub(x,q[e])))>=-1e-6*N); sx_check(ok,l); }
SX_ENTRY(tri_pair){ opt(); int c=sx_choose("pair",T?5:3),m=sx_choose("move",3); double s=sx_real_in("s",-7,7); static const double Q[5][3][3]={{{1,1,-2},{2,1,2},{1.5,-3,1}},{{0.5,1,-1},{0.5,2,3},{2,0,1}},{{0,0,3},{1,1,-3},{3,3,0.5}},{{2,1,0.5},{2.5,0.5,2},{4,3,1.25}},{{-1,0,1},{3,0.25,1.5},{1,2,-4}}},D[3][3]={{1,0,0},{0,0,1},{0.5,1,-0.25}}; std::vector<double> xyz; V p[3],q[3]; for(int i=0;i<3;i++){ p[i]=cv(TR[c%3][i]); for(int k=0;k<3;k++) xyz.push_back(p[i].p[k]); } for(int i=0;i<3;i++){ q[i]=cv(Q[c][i]); for(int k=0;k<3;k++){ q[i].p[k]+=s*D[m][k]+0.03125; xyz.push_back(q[i].p[k]); } } std::vector<unsigned> t={0,1,2,3,4,5}; bool in=false,near=false; crossing(p,q,in,near); crossing(q,p,in,near); V a,b; bool got=dfm2::isIntersectTriPair(a,b,0,1,t,xyz); if(near) return; sx_check(got==in,"triangles intersect exactly when an edge of one crosses the other"); if(got){ onTri(a,p,"segment start lies on the first triangle"); onTri(a,q,"segment start lies on the second triangle"); onTri(b,p,"segment end lies on the first triangle"); onTri(b,q,"segment end lies on the second triangle"); } std::vector<unsigned> t2={0,1,2,3,0,5}; sx_check(!dfm2::isIntersectTriPair(a,b,0,1,t2,xyz),"triangles sharing a point are not a pair"); }
static const double PG[4][7][2]={{{0,0},{4,0},{4,3},{0,3},{9,9},{9,9},{9,9}},{{0,0},{4,0},{4,4},{3,1},{0,4},{9,9},{9,9}},{{0,0},{3,-1},{5,2},{2,5},{-1,3},{9,9},{9,9}},{{0,0},{6,0},{6,4},{4,4},{4,2},{2,2},{2,4}}};
SX_ENTRY(polygon){ opt(); int g=sx_choose("poly",4),w=sx_choose("line",T?6:4),pre=sx_choose("pre",2); std::vector<W> P; if(pre) for(int i=0;i<3;i++) P.push_back(W(i*1.5-7,i%2?3:1)); int st=P.size(); for(int i=0;i<7&&PG[g][i][0]!=9;i++) P.push_back(W(PG[g][i][0],PG[g][i][1])); int en=P.size(); double s=sx_real_in("s",-8,8); static const double O[6][2]={{0,1.5},{1.25,0},{0,0.5},{3.5,0},{2,2.5},{5,1}},D[6][2]={{1,0},{0,1},{1,1},{0,1},{1,-1},{-1,0.5}}; double c[2]={O[w][0]+s*D[w][0],O[w][1]+s*D[w][1]}; bool got=dfm2::IsInclude_Loop<double>(c,st,en,P);
  W q(c[0],c[1]); bool near=false; int cnt=0; for(int i=st;i<en;i++){ const W&a=P[i],&b=P[i+1<en?i+1:st]; double o=orient(a,b,q); if(sx_fork((o<2e-2)&(o>-2e-2))) near=true; bool up=(a.p[1]<=q.p[1])&(b.p[1]>q.p[1])&(o>0),dn=(b.p[1]<=q.p[1])&(a.p[1]>q.p[1])&(o<0); if(sx_fork(up)) cnt++; if(sx_fork(dn)) cnt++; } if(near) return; sx_check(got==(cnt%2==1),"point is inside by the crossing number"); }
