// C10: mesh-level line/ray intersection and point location agree with a scan of the elements
#include "sx.h"
#include <vector>
#include <array>
#include <map>
#include <climits>
#include <cassert>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_tri.h"
#include "delfem2/srch_bruteforce.h"
namespace dfm2=delfem2; typedef dfm2::CVec3d V; typedef std::vector<unsigned> VU; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("check_ms",10000); sx_opt("float_sqrt",1); }
static double dot(const V&a,const V&b){ return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static V cross(const V&a,const V&b){ return V(a.p[1]*b.p[2]-a.p[2]*b.p[1],a.p[2]*b.p[0]-a.p[0]*b.p[2],a.p[0]*b.p[1]-a.p[1]*b.p[0]); }
static V sub(const V&a,const V&b){ return V(a.p[0]-b.p[0],a.p[1]-b.p[1],a.p[2]-b.p[2]); }
static const double X[7][3]={{0,0,0},{4,0,1},{0,4,-1},{3,3,2},{1,1,4},{-2,1,3},{2,-3,2}};
static const unsigned TR[5][3]={{0,1,2},{3,2,1},{0,4,5},{4,1,3},{6,1,0}};
static std::vector<double> xyz(){ std::vector<double> r; for(auto&x:X) for(double v:x) r.push_back(v); return r; }
static V pt(const std::vector<double>&x,unsigned i){ return V(x[3*i],x[3*i+1],x[3*i+2]); }
SX_ENTRY(ray_mesh){ opt(); int n=1+sx_choose("n",T?5:4),w=sx_choose("line",T?4:3); std::vector<double> x=xyz(); VU t; for(int i=0;i<n;i++) for(int k=0;k<3;k++) t.push_back(TR[i][k]); double s=sx_real_in("s",-6,8); static const double O[4][3]={{0.25,0.75,9},{0.5,-5,0.5},{-6,0.5,1},{0,0,-3}},D[4][3]={{0,0,-2},{0,1,0.125},{1,0.25,0},{0.5,0.25,1}},M[4][3]={{1,0.5,0},{0,0,1},{0,1,0.25},{1,1,0}}; V o(O[w][0]+s*M[w][0],O[w][1]+s*M[w][1],O[w][2]+s*M[w][2]),d(D[w][0],D[w][1],D[w][2]); double eps=0.03125;
  auto hits=dfm2::IntersectionLine_MeshTri3<double>(o,d,t,x,eps); std::map<double,dfm2::PointOnSurfaceMesh<double>> dm; dfm2::IntersectionRay_MeshTri3<double>(dm,o,d,t,x,eps); std::map<double,dfm2::PointOnSurfaceMesh<double>> pm; VU part; for(int i=0;i<n;i+=2) part.push_back(i); dfm2::IntersectionRay_MeshTri3DPart<double>(pm,o,d,t,x,part,eps); size_t at=0; int ahead=0,aheadPart=0;
  for(int i=0;i<n;i++){ V a=pt(x,t[3*i]),b=pt(x,t[3*i+1]),c=pt(x,t[3*i+2]); V nn=cross(sub(b,a),sub(c,a)); double nd=dot(nn,d); if(sx_fork(nd==0)) continue; double u=dot(sub(a,o),nn)/nd; V q(o.p[0]+u*d.p[0],o.p[1]+u*d.p[1],o.p[2]+u*d.p[2]); double N=dot(nn,nn),r2=dot(nn,cross(sub(b,a),sub(q,a)))/N,r0=dot(nn,cross(sub(c,b),sub(q,b)))/N,r1=1-r0-r2; double mg=1e-5; bool in=(r0>=-eps+mg)&(r1>=-eps+mg)&(r2>=-eps+mg),out=(r0<-eps-mg)|(r1<-eps-mg)|(r2<-eps-mg); if(sx_fork(in)){ sx_check(at<hits.size()&&hits[at].itri==(unsigned)i,"every crossed triangle is reported in order"); if(!(at<hits.size()&&hits[at].itri==(unsigned)i)) return; double e0=hits[at].r0-r0,e1=hits[at].r1-r1; sx_check((e0<=1e-7)&(e0>=-1e-7)&(e1<=1e-7)&(e1>=-1e-7),"barycentric coordinates of the crossing"); auto p=hits[at].PositionOnMeshTri3(x,t); V e=sub(V(p[0],p[1],p[2]),q); sx_check(dot(e,e)<=1e-9,"position from the barycentric coordinates"); at++; if(sx_fork((u>-1e-4)&(u<1e-4))) return; if(sx_fork(u>0)){ ahead++; if(i%2==0) aheadPart++; bool f=false; for(auto&k:dm) if(k.second.itri==(unsigned)i){ f=true; double z=k.first-u*dot(d,d); sx_check((z<=1e-6)&(z>=-1e-6),"depth along the ray"); } bool g=(i%2!=0); for(auto&k:pm) if(k.second.itri==(unsigned)i){ g=true; double z=k.first-u; sx_check((z<=1e-6)&(z>=-1e-6),"depth along the ray of the partial search"); } if(!f) for(auto&k:dm){ double z=k.first-u*dot(d,d); f=f|((z<=1e-6)&(z>=-1e-6)); } if(!g) for(auto&k:pm){ double z=k.first-u; g=g|((z<=1e-6)&(z>=-1e-6)); } sx_check(f,"crossing ahead of the origin is kept"); sx_check(g,"crossing ahead of the origin is kept by the partial search"); } } else if(sx_fork(out)){ sx_check(!(at<hits.size()&&hits[at].itri==(unsigned)i),"triangles the line misses are not reported"); } else return; }
  sx_check(at==hits.size(),"nothing else is reported"); sx_check((int)dm.size()<=ahead&&(int)pm.size()<=aheadPart,"nothing behind the origin is reported"); double last=-1e9; bool mono=true; for(auto&k:dm){ mono=mono&(k.first>last); last=k.first; } sx_check(mono,"crossings are sorted by depth"); }
SX_ENTRY(tet_point){ opt(); int w=sx_choose("line",4); static const double P[6][3]={{0,0,0},{3,0,0},{0,3,0},{0,0,3},{3,3,3},{-2,-1,0}}; std::vector<double> x; for(auto&p:P) for(double v:p) x.push_back(v); std::vector<int> tet={0,1,2,3, 1,2,3,4, 0,2,5,3}; double s=sx_real_in("s",-5,5); static const double O[4][3]={{0.5,0.5,0},{0,0.75,0.5},{0,0,0.25},{1,0.5,1}},D[4][3]={{0,0,1},{1,0,0},{1,1,0.5},{-1,0.125,-0.25}}; V q(O[w][0]+s*D[w][0],O[w][1]+s*D[w][1],O[w][2]+s*D[w][2]); for(int i=0;i<3;i++){ dfm2::PointInSolidMesh<double> m; m.setPos_Tet(i,q,x,tet); V p=m.getPos_Tet(x,tet); V e=sub(p,q); sx_check((dot(e,e)<=1e-9)&(m.ielem==i),"barycentric coordinates give back the point"); } auto r=dfm2::Nearest_Point_MeshTet3D<double>(q,x,tet); for(int i=0;i<3;i++){ dfm2::PointInSolidMesh<double> m; m.setPos_Tet(i,q,x,tet); double r3=1-m.r0-m.r1-m.r2; bool in=(m.r0>-0.5e-4)&(m.r1>-0.5e-4)&(m.r2>-0.5e-4)&(r3>-0.5e-4); sx_check(!in|((r.ielem>=0)&(r.ielem<=i)),"a tetrahedron that contains the point is found"); if(r.ielem==i) sx_check((m.r0>-2e-4)&(m.r1>-2e-4)&(m.r2>-2e-4)&(r3>-2e-4),"the tetrahedron found contains the point"); } }
static double seg2(const V&q,const V&a,const V&b){ V d=sub(b,a),e=sub(q,a); double l=dot(d,d),t=dot(d,e); if(sx_fork(t<=0)) return dot(e,e); if(sx_fork(t>=l)){ V f=sub(q,b); return dot(f,f); } return dot(e,e)-t*t/l; }
static double tri2(const V&q,const V&a,const V&b,const V&c){ V n=cross(sub(b,a),sub(c,a)); double s0=dot(n,cross(sub(b,a),sub(q,a))),s1=dot(n,cross(sub(c,b),sub(q,b))),s2=dot(n,cross(sub(a,c),sub(q,c))); if(sx_fork((s0>=0)&(s1>=0)&(s2>=0))){ double h=dot(n,sub(q,a)); return h*h/dot(n,n); } double r=seg2(q,a,b),u=seg2(q,b,c),v=seg2(q,c,a); if(sx_fork(u<r)) r=u; if(sx_fork(v<r)) r=v; return r; }
SX_ENTRY(nearest_mesh){ opt(); int n=1+sx_choose("n",T?4:3),w=sx_choose("line",T?4:2); std::vector<double> x=xyz(); VU t; for(int i=0;i<n;i++) for(int k=0;k<3;k++) t.push_back(TR[i][k]); double s=sx_real_in("s",-6,6); static const double O[4][3]={{1,0.5,0},{0,2,1},{-3,1,0.5},{2,2,2}},D[4][3]={{0,0,1},{1,0,0},{1,1,0.25},{0,1,-1}}; V q(O[w][0]+s*D[w][0],O[w][1]+s*D[w][1],O[w][2]+s*D[w][2]); auto r=dfm2::Nearest_Point_MeshTri3D<double>(q,x,t); sx_check(r.itri<(unsigned)n,"a triangle is found"); if(r.itri>=(unsigned)n) return; auto p=r.PositionOnMeshTri3(x,t); V e=sub(V(p[0],p[1],p[2]),q); double d=dot(e,e); bool ok=true; std::vector<double> D2; for(int i=0;i<n;i++){ double g=tri2(q,pt(x,t[3*i]),pt(x,t[3*i+1]),pt(x,t[3*i+2])); D2.push_back(g); ok=ok&(d<=g+1e-6); } sx_check(ok,"no point of the mesh is nearer"); sx_check((r.r0>=-1e-7)&(r.r1>=-1e-7)&(r.r0+r.r1<=1+1e-7),"barycentric coordinates are in the triangle"); for(int i=0;i<n;i++){ dfm2::PointOnSurfaceMesh<double> m; double L=dfm2::DistanceToTri<double>(m,q,i,x,t); double z=L*L-D2[i]; sx_check((z<=1e-6)&(z>=-1e-6)&(m.itri==(unsigned)i),"distance to one triangle"); } }
SX_ENTRY(sphere_patch){ opt(); int w=sx_choose("line",T?4:2),st=sx_choose("start",2); std::vector<double> x=xyz(); VU t={0,1,2, 3,2,1, 3,1,4}; const unsigned N=UINT_MAX; VU adj={1,N,N, 0,2,N, N,N,1}; double s=sx_real_in("s",-3,5); static const double O[4][3]={{1,1,0.5},{0,2,0},{0,0,1},{2,0,1}},D[4][3]={{0,0,1},{1,0,0.25},{1,1,0},{0,1,0.5}}; std::array<double,3> c={O[w][0]+s*D[w][0],O[w][1]+s*D[w][1],O[w][2]+s*D[w][2]}; double rad=1.5; auto r=dfm2::IndexesOfConnectedTriangleInSphere(c,rad,st,x,t,adj); V q(c[0],c[1],c[2]); bool in[3]; for(int i=0;i<3;i++){ double g=tri2(q,pt(x,t[3*i]),pt(x,t[3*i+1]),pt(x,t[3*i+2])); if(sx_fork((g>2.25-2e-3)&(g<2.25+2e-3))) return; in[i]=sx_fork(g<2.25); } bool seen[3]={in[st],false,false}; if(st==1) { seen[0]=false; seen[1]=in[1]; seen[0]=in[1]&&in[0]; seen[2]=in[1]&&in[2]; } else { seen[0]=in[0]; seen[1]=in[0]&&in[1]; seen[2]=seen[1]&&in[2]; } for(unsigned i=0;i<3;i++){ int k=0; for(unsigned j:r) k+=(j==i); sx_check(k==(seen[i]?1:0),"exactly the connected triangles within the radius"); } }
