// C09: nearest point queries return true minimisers
#include "sx.h"
#include <vector>
#include <array>
#include <climits>
#include <cassert>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_polyline.h"
namespace dfm2=delfem2; typedef dfm2::CVec3d V; typedef dfm2::CVec2d W; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("check_ms",10000); sx_opt("float_sqrt",1); }
static V v3(const char*n){ V r; for(int k=0;k<3;k++) r.p[k]=sx_real_in(n,-50,50); return r; }
static W v2(const char*n){ W r; for(int k=0;k<2;k++) r.p[k]=sx_real_in(n,-50,50); return r; }
static double dot(const V&a,const V&b){ return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static double dot(const W&a,const W&b){ return a.p[0]*b.p[0]+a.p[1]*b.p[1]; }
static V cross(const V&a,const V&b){ return V(a.p[1]*b.p[2]-a.p[2]*b.p[1],a.p[2]*b.p[0]-a.p[0]*b.p[2],a.p[0]*b.p[1]-a.p[1]*b.p[0]); }
static V sub(const V&a,const V&b){ return V(a.p[0]-b.p[0],a.p[1]-b.p[1],a.p[2]-b.p[2]); }
static W sub(const W&a,const W&b){ return W(a.p[0]-b.p[0],a.p[1]-b.p[1]); }
static V at(const V&a,const V&b,double t){ return V(a.p[0]+t*(b.p[0]-a.p[0]),a.p[1]+t*(b.p[1]-a.p[1]),a.p[2]+t*(b.p[2]-a.p[2])); }
static W at(const W&a,const W&b,double t){ return W(a.p[0]+t*(b.p[0]-a.p[0]),a.p[1]+t*(b.p[1]-a.p[1])); }
static void same(const V&a,const V&b,const char*l){ for(int k=0;k<3;k++) sx_eq(a.p[k],b.p[k],l); }
static void same(const W&a,const W&b,const char*l){ for(int k=0;k<2;k++) sx_eq(a.p[k],b.p[k],l); }
// the point at parameter t of s-e is nearest to p among the points of the edge
template<class P> static void edge_opt(const P&p,const P&s,const P&e,const P&n,double t){ sx_check((t>=0)&(t<=1),"edge parameter is in range"); same(n,at(s,e,t),"edge parameter gives the point"); double g=dot(sub(n,p),sub(e,s)); if(sx_fork(t==0)) sx_check(g>=-1e-9,"start point only when nothing beyond is nearer"); else if(sx_fork(t==1)) sx_check(g<=1e-9,"end point only when nothing before is nearer"); else sx_eq(g,0,"interior foot is perpendicular"); }
SX_ENTRY(edge3){ opt(); int w=sx_choose("who",3),u=sx_choose("dir",w==2?1:T?5:3); V p=v3("p"),s,e; static const double DR[5][3]={{1,0,0},{1,2,-1},{0,1,3},{-2,1,0.5},{0,0,1}}; if(w==2){ s=v3("s"); e=v3("e"); sx_assume(dot(sub(e,s),sub(e,s))>1e-3); } else { s=w==0?V(1,-2,3):p; double L=w==0?1.5:sx_real_in("L",0.1,10); for(int k=0;k<3;k++) e.p[k]=s.p[k]+L*DR[u][k]; } double t=7; if(w==0){ V n=dfm2::Nearest_Edge_Point(t,p,s,e); edge_opt(p,s,e,n,t); V m=dfm2::Nearest_Edge_Point(p,s,e); same(n,m,"both overloads agree"); } else if(w==1){ V n=dfm2::Nearest_Origin_Edge(t,s,e); edge_opt(V(0,0,0),s,e,n,t); } else { double r[3]; dfm2::Nearest_Edge3_Point3(r,p.p,s.p,e.p); V d=sub(e,s); V n=dfm2::Nearest_Edge_Point(t,p,s,e); for(int k=0;k<3;k++) sx_eq(r[k],n.p[k],"array version gives the same point"); (void)d; } }
SX_ENTRY(edge2){ opt(); W p=v2("p"),s=v2("s"),e=v2("e"); sx_assume(dot(sub(e,s),sub(e,s))>1e-3); double t=7; W n=dfm2::Nearest_Edge_Point(t,p,s,e); edge_opt(p,s,e,n,t); same(n,dfm2::Nearest_Edge_Point(p,s,e),"both overloads agree"); double d=dfm2::Distance_Edge_Point(p,s,e); sx_eq(d*d,dot(sub(n,p),sub(n,p)),"distance is the distance to the nearest point"); sx_check(d>=0,"distance is not negative"); }
SX_ENTRY(edge_degenerate){ opt(); V p=v3("p"),s=v3("s"); double t=7; V n=dfm2::Nearest_Edge_Point(t,p,s,s); same(n,s,"zero-length edge is its point"); double r[3]; dfm2::Nearest_Edge3_Point3(r,p.p,s.p,s.p); for(int k=0;k<3;k++) sx_eq(r[k],s.p[k],"zero-length edge is its point"); }
SX_ENTRY(line_point){ opt(); V p=v3("p"),s=v3("s"),d=v3("d"); sx_assume(dot(d,d)>1e-3); V n=dfm2::Nearest_Line3_Point3<V>(p,s,d); sx_eq(dot(sub(n,p),d),0,"foot is perpendicular"); V c=cross(sub(n,s),d); for(int k=0;k<3;k++) sx_eq(c.p[k],0,"foot is on the line"); }
SX_ENTRY(line_line){ opt(); V a=v3("a"),u=v3("u"),b=v3("b"),v=v3("v"); double D,ta,tb,D2; V pa,pb,qa,qb; dfm2::Nearest_Line3_Line3(D,pa,pb,ta,tb,a,u,b,v); for(int k=0;k<3;k++){ sx_eq(pa.p[k],D*a.p[k]+ta*u.p[k],"scaled point on the first line"); sx_eq(pb.p[k],D*b.p[k]+tb*v.p[k],"scaled point on the second line"); } V c=sub(pa,pb); sx_eq(dot(c,u),0,"connecting vector is perpendicular to the first line"); sx_eq(dot(c,v),0,"connecting vector is perpendicular to the second line"); V w=cross(u,v); sx_eq(D,dot(w,w),"scale is the squared cross product"); dfm2::Nearest_Line3_Line3(D2,qa,qb,a,u,b,v); sx_eq(D,D2,"both overloads agree"); same(pa,qa,"both overloads agree"); same(pb,qb,"both overloads agree"); }
static const double SG[5][2][3]={{{0,0,0},{2,1,0}},{{0,0,0},{0.25,0.125,0}},{{-1,2,1},{1,-1,3}},{{0,0,1},{0,3,1}},{{1,1,1},{1.5,1,0.75}}};
static V cv(const double*p){ return V(p[0],p[1],p[2]); }
// nearest pair of an edge and an infinite line: exact scalar minimisation of the squared distance to the line
SX_ENTRY(edge_line){ opt(); int e=sx_choose("edge",T?5:4),d=sx_choose("dir",T?5:3),m=sx_choose("move",3); static const double DR[5][3]={{0,0,1},{1,0,0.5},{1,1,1},{0,1,0},{-1,2,0}},OR[3][3]={{0.5,-1,2},{0,0,1},{-2,0.25,0}},MV[3][3]={{1,0,0},{0,1,0},{1,-1,0.5}}; double s=sx_real_in("s",-9,9); V a=cv(SG[e][0]),b=cv(SG[e][1]),u=cv(DR[d]),o(OR[m][0]+s*MV[m][0],OR[m][1]+s*MV[m][1],OR[m][2]+s*MV[m][2]); V x,y; dfm2::Nearest_Edge3_Line3(x,y,a,b,o,u); V c=sub(x,y); double uu=dot(u,u); sx_check((dot(c,u)<=1e-9)&(dot(c,u)>=-1e-9),"connecting vector is perpendicular to the line"); V f=cross(sub(y,o),u); sx_check((dot(f,f)<=1e-9),"second point lies on the line"); V ab=sub(b,a); double t=dot(sub(x,a),ab)/dot(ab,ab); sx_check((t>=-1e-9)&(t<=1+1e-9),"first point lies on the edge"); V h=sub(x,at(a,b,t)); sx_check(dot(h,h)<=1e-9,"first point lies on the edge");
  double dm=dot(c,c); for(int k=0;k<=8;k++){ V q=at(a,b,k/8.0),w=cross(sub(q,o),u); sx_check(dm*uu<=dot(w,w)+1e-7,"no point of the edge is nearer to the line"); }
  V w0=cross(ab,u); V r=sub(x,y); double g=dot(r,ab); if(dot(w0,w0)!=0){ if(sx_fork((t>1e-6)&(t<1-1e-6))) sx_check((g<=1e-7)&(g>=-1e-7),"interior point is stationary"); else if(sx_fork(t<=1e-6)) sx_check(g>=-1e-5,"start point only when nothing beyond is nearer"); else sx_check(g<=1e-5,"end point only when nothing before is nearer"); } }
// line distance of two edges with the parameters of the nearest points; parallel edges share a foot in the overlap
SX_ENTRY(edge_edge){ opt(); int e=sx_choose("edge",T?5:4),d=sx_choose("other",T?5:4),m=sx_choose("move",3); if(e==d||(e+d==1)) return; static const double MV[3][3]={{1,0,0},{0,1,0},{1,-1,0.5}}; double s=sx_real_in("s",-9,9); V a=cv(SG[e][0]),b=cv(SG[e][1]); V p=at(cv(SG[d][0]),cv(SG[d][0]),0),q=cv(SG[d][1]); for(int k=0;k<3;k++){ p.p[k]+=s*MV[m][k]+0.25; q.p[k]+=s*MV[m][k]+0.25; } double r0=9,r1=9; double L=dfm2::Distance_Edge3_Edge3(a,b,p,q,r0,r1); V x=at(a,b,r0),y=at(p,q,r1),c=sub(x,y); sx_check((L*L-dot(c,c)<=1e-9)&(L*L-dot(c,c)>=-1e-9)&(L>=0),"distance is between the points at the parameters"); double g0=dot(c,sub(b,a)),g1=dot(c,sub(q,p)); sx_check((g0<=1e-9)&(g0>=-1e-9)&(g1<=1e-9)&(g1>=-1e-9),"connecting vector is perpendicular to both edges"); }
static const double PE[4][4]={{0,4,1,2},{0,2,-1,5},{0,3,5,2},{1,-2,0,4}};
SX_ENTRY(edge_edge_parallel){ opt(); int c=sx_choose("case",T?4:3),rev=sx_choose("rev",2); double s=sx_real_in("s",-8,8); const double*q=PE[c]; double q0=(rev?q[3]:q[2])+s,q1=(rev?q[2]:q[3])+s; V a(q[0],0,0),b(q[1],0,0),p(q0,0.75,1),r(q1,0.75,1); double t0=9,t1=9; double L=dfm2::Distance_Edge3_Edge3(a,b,p,r,t0,t1); sx_check((L<=1.25+1e-9)&(L>=1.25-1e-9),"distance of parallel lines"); double x=q[0]+t0*(q[1]-q[0]),y=q0+t1*(q1-q0); sx_check((x-y<=1e-9)&(x-y>=-1e-9),"the feet face each other"); double al=std::min(q[0],q[1]),ah=std::max(q[0],q[1]),bl=std::min(q[2],q[3])+s,bh=std::max(q[2],q[3])+s; bool meet=(al<bh-1e-6)&(bl<ah-1e-6); sx_check(!meet|((x>=al-1e-9)&(x<=ah+1e-9)&(x>=bl-1e-9)&(x<=bh+1e-9)),"overlapping parallel edges get a foot inside both"); bool con=dfm2::IsContact_Edge3_Edge3_Proximity(0,1,2,3,a,b,p,r,1.5); sx_check(con|!meet,"parallel edges closer than the threshold are in contact"); sx_check(!con|((al<bh+1e-6)&(bl<ah+1e-6)),"edges that do not face each other are not in contact"); sx_check(!dfm2::IsContact_Edge3_Edge3_Proximity(0,1,2,0,a,b,p,r,1.5),"edges that share a point are not in contact"); }
SX_ENTRY(contact_cross){ opt(); int m=sx_choose("move",4); double s=sx_real_in("s",-6,6); static const double MV[4][3]={{1,0,0},{0,1,0},{0,0,1},{1,1,0.5}}; V a(-2,0,0),b(2,0,0),p(0.5,-1,0.75),q(0.5,1,0.75); for(int k=0;k<3;k++){ p.p[k]+=s*MV[m][k]; q.p[k]+=s*MV[m][k]; } double X=0.5+s*MV[m][0],Y=s*MV[m][1],Z=0.75+s*MV[m][2]; double az=Z<0?-Z:Z; bool in=(X>=-2)&(X<=2)&(Y>=-1)&(Y<=1)&(az<=1); bool out=(X<-2-1e-9)|(X>2+1e-9)|(Y<-1-1e-9)|(Y>1+1e-9)|(az>1+1e-9); bool got=dfm2::IsContact_Edge3_Edge3_Proximity(0,1,2,3,a,b,p,q,1.0); sx_check(got|!in|(az>1-1e-9)|(X<-2+1e-9)|(X>2-1e-9)|(Y<-1+1e-9)|(Y>1-1e-9),"facing edges within the threshold are in contact"); sx_check(!got|!out,"other edges are not in contact"); }
static const double TR[5][3][3]={{{0,0,0},{4,0,0},{1,3,0}},{{0,0,0},{2,1,2},{-1,3,1}},{{-1,-1,2},{3,0,-1},{0,4,1}},{{0,0,1},{6,1,1},{5,2,1}},{{2,2,2},{2,-1,0},{-2,1,1}}};
static void tri(V q[3],int&t){ t=sx_choose("tri",T?5:3); for(int k=0;k<3;k++) q[k]=cv(TR[t][k]); }
static V linept(double&s){ int w=sx_choose("line",T?7:5); s=sx_real_in("s",-8,8); static const double O[7][3]={{1,0.5,0},{0.5,1,1},{0,0,0},{2,-1,0},{1,1,0.25},{-3,2,0.5},{4,4,2}},D[7][3]={{1,0,0},{0,1,0},{0,0,1},{1,1,0},{0,1,1},{1,-0.5,0},{1,-1,-1}}; return V(O[w][0]+s*D[w][0],O[w][1]+s*D[w][1],O[w][2]+s*D[w][2]); }
// point x = sum r_i q_i, all r_i>=0, and moving towards any corner does not get nearer to p (sufficient and necessary for the minimiser)
static void tri_opt(const V&p,const V*q,const V&x,double r0,double r1,double tol){ double r2=1-r0-r1; sx_check((r0>=-tol)&(r1>=-tol)&(r2>=-tol),"barycentric coordinates are not negative"); bool on=true; for(int k=0;k<3;k++){ double z=r0*q[0].p[k]+r1*q[1].p[k]+r2*q[2].p[k]-x.p[k]; on=on&(z<=1e-7)&(z>=-1e-7); } sx_check(on,"barycentric coordinates give the point"); bool op=true; for(int k=0;k<3;k++) op=op&(dot(sub(x,p),sub(q[k],x))>=-1e-9-8*20*tol); sx_check(op,"no point of the triangle is nearer"); }
SX_ENTRY(tri_point){ opt(); V q[3]; int t; tri(q,t); double s; V p=linept(s); double x[3],r0=9,r1=9; dfm2::Nearest_Triangle3_Point3(x,r0,r1,p.p,q[0].p,q[1].p,q[2].p); tri_opt(p,q,V(x[0],x[1],x[2]),r0,r1,1.1e-4); }
SX_ENTRY(tri_point_inplane){ opt(); V q[3]; int t; tri(q,t); double s=sx_real_in("s",-2,3); int w=sx_choose("w",3); static const double U[3][2]={{0.25,0},{0,0.5},{0.5,-0.5}},D[3][2]={{0,1},{1,0},{0.5,1}}; double u=U[w][0]+s*D[w][0],v=U[w][1]+s*D[w][1]; V p; for(int k=0;k<3;k++) p.p[k]=q[0].p[k]+u*(q[1].p[k]-q[0].p[k])+v*(q[2].p[k]-q[0].p[k]); double x[3],r0=9,r1=9; dfm2::Nearest_Triangle3_Point3(x,r0,r1,p.p,q[0].p,q[1].p,q[2].p); tri_opt(p,q,V(x[0],x[1],x[2]),r0,r1,1.1e-4); }
SX_ENTRY(tri_origin){ opt(); V q[3]; int t; tri(q,t); double s; V p=linept(s); V o[3]={sub(q[0],p),sub(q[1],p),sub(q[2],p)}; double r0=9,r1=9; V x=dfm2::Nearest_Origin3_Tri3(r0,r1,o[0],o[1],o[2]); tri_opt(V(0,0,0),o,x,r0,r1,1e-9); V y=dfm2::Nearest_Origin3_PlaneTri3(r0,r1,o[0],o[1],o[2]); V n=cross(sub(q[1],q[0]),sub(q[2],q[0])),c=cross(y,n); bool ok=true; for(int k=0;k<3;k++) ok=ok&(c.p[k]<=1e-6)&(c.p[k]>=-1e-6); double f=dot(sub(y,o[0]),n); ok=ok&(f<=1e-6)&(f>=-1e-6); sx_check(ok,"foot on the plane of the triangle"); }
SX_ENTRY(face_vertex){ opt(); V a=v3("a"),b=v3("b"),c=v3("c"),p=v3("p"); sx_opt("div0",0); double w0=9,w1=9; V n=cross(sub(b,a),sub(c,a)); sx_assume(dot(n,n)>1e-2); double L=dfm2::DistanceFaceVertex(a,b,c,p,w0,w1); V x; for(int k=0;k<3;k++) x.p[k]=w0*a.p[k]+w1*b.p[k]+(1-w0-w1)*c.p[k]; V d=sub(x,p); sx_eq(dot(d,sub(a,c)),0,"foot is perpendicular to the face"); sx_eq(dot(d,sub(b,c)),0,"foot is perpendicular to the face"); sx_eq(L*L,dot(d,d),"distance is to the foot"); }
static const double PL[6][2]={{0,0},{2,1},{3,-1},{1,-2},{0,3},{-2,2}};
SX_ENTRY(polyline){ opt(); sx_opt("fork_select",2); int n=2+sx_choose("n",T?4:3); std::vector<W> P; for(int i=0;i<n;i++) P.push_back(W(PL[i][0],PL[i][1])); int w=sx_choose("line",3); double s=sx_real_in("s",-6,6); static const double O[3][2]={{0,0.5},{1.25,0},{0,0}},D[3][2]={{1,0},{0,1},{1,1}}; W q(O[w][0]+s*D[w][0],O[w][1]+s*D[w][1]); double t=dfm2::Nearest_Polyline(P,q); sx_check((t>=0)&(t<=n-1),"parameter is on the polyline"); int i=0; while(i<n-2&&sx_fork(t>=i+1)) i++; W x=at(P[i],P[i+1],t-i); double d=dot(sub(x,q),sub(x,q)); bool ok=true; for(int j=0;j+1<n;j++){ W e=sub(P[j+1],P[j]); double ee=dot(e,e),g=dot(sub(q,P[j]),e); double c; if(sx_fork(g<=0)) c=dot(sub(P[j],q),sub(P[j],q)); else if(sx_fork(g>=ee)) c=dot(sub(P[j+1],q),sub(P[j+1],q)); else c=dot(sub(P[j],q),sub(P[j],q))-g*g/ee; ok=ok&(d<=c+1e-6); } sx_check(ok,"no point of the polyline is nearer"); unsigned k=dfm2::FindNearestPointInPoints(P,q); sx_check(k<(unsigned)n,"nearest vertex exists"); bool b=true; for(int j=0;j<n;j++) b=b&(dot(sub(P[k],q),sub(P[k],q))<=dot(sub(P[j],q),sub(P[j],q))+1e-6); sx_check(b,"no vertex is nearer"); }
SX_ENTRY(sample){ opt(); sx_opt("fork_select",2); int n=2+sx_choose("n",3); std::vector<W> P; for(int i=0;i<n;i++) P.push_back(W(PL[i][0],PL[i][1])); double t=sx_real_in("t",-1,6); W x=dfm2::Sample_Polyline(P,t); int i=0; while(i<n-2&&sx_fork(t>=i+1)) i++; double r=t-i; if(sx_fork(r<0)) r=0; else if(sx_fork(r>1)) r=1; same(x,at(P[i],P[i+1],r),"sample interpolates the segment"); W g=dfm2::Tangent_Polyline(P,t); same(g,sub(P[i+1],P[i]),"tangent is the segment vector"); }
static const double AX[6][2]={{0,0},{3,0},{3,-2},{-1,-2},{-1,1},{0.5,1}};
SX_ENTRY(arclength){ opt(); sx_opt("fork_select",2); int n=2+sx_choose("n",T?5:4); std::vector<W> P; for(int i=0;i<n;i++) P.push_back(W(AX[i][0],AX[i][1])); int w=sx_choose("line",3); double s=sx_real_in("s",-4,4); static const double O[3][2]={{0,0.5},{1.25,0},{0,0.125}},D[3][2]={{1,0},{0,1},{1,0.5}}; W q(O[w][0]+s*D[w][0],O[w][1]+s*D[w][1]); double al=dfm2::ArcLengthPointInPolyline(P,q); double t=dfm2::Nearest_Polyline(P,q); int i=0; while(i<n-2&&sx_fork(t>=i+1)) i++; double L=0; for(int j=0;j<i;j++) L+=std::fabs(P[j+1].p[0]-P[j].p[0])+std::fabs(P[j+1].p[1]-P[j].p[1]); double l=std::fabs(P[i+1].p[0]-P[i].p[0])+std::fabs(P[i+1].p[1]-P[i].p[1]); double x=L+(t-i)*l; sx_check((al-x<=1e-7)&(al-x>=-1e-7),"arc length up to the nearest point"); sx_check(dfm2::Length_Polyline(P)>=x-1e-9,"arc length is within the total length"); }
SX_ENTRY(line_param){ opt(); W p=v2("p"),s=v2("s"),e=v2("e"); sx_assume(dot(sub(e,s),sub(e,s))>1e-3); double t=dfm2::FindNearestPointParameter_Line_Point(p,s,e); sx_eq(dot(sub(at(s,e,t),p),sub(e,s)),0,"parameter of the perpendicular foot"); }
