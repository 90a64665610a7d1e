// C38: nearest point, signed distance, first hit, random samples and positions on surface meshes
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstdint>
#include <vector>
#include <map>
#include <array>
#include <tuple>
#include <algorithm>
#include <functional>
#include <random>
static int sx_nrand; static double sx_rv[64]; // random numbers are free values in [0,1)
namespace std{ struct sx_rdev{ unsigned operator()(){ return 1; } }; struct sx_mt{ sx_mt(){} sx_mt(unsigned){} unsigned operator()(){ return 1; } void seed(unsigned){} }; template<class R> struct sx_urd{ R a=0,b=1; sx_urd(){} sx_urd(R x,R y):a(x),b(y){} template<class G> R operator()(G&&){ char n[4]={'r',char('a'+sx_nrand/26),char('a'+sx_nrand%26),0}; sx_nrand++; R v=sx_real_in(n,a,b); sx_assume(v<b); sx_rv[(sx_nrand-1)%64]=v; return v; } }; }
#define random_device sx_rdev
#define mt19937 sx_mt
#define uniform_real_distribution sx_urd
#include "delfem2/sampler_trimesh.h"
#undef random_device
#undef mt19937
#undef uniform_real_distribution
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/geo_quad.h"
#include "delfem2/srch_bruteforce.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef dfm2::CVec3d V3; typedef std::vector<double> VD; typedef std::vector<U> VU; typedef dfm2::PointOnSurfaceMesh<double> PES; typedef dfm2::CBV3_AABB<double> BB; typedef dfm2::CBV3_Sphere<double> BS;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",7); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("float_sqrt",1); sx_opt("max_steps",6000000); sx_opt("steps_are_violation",1); }

// a bounding volume with rational lower bounds of the distance: the tree code is generic in it (the real volumes are decided in C05)
struct MB{ double lo[3],hi[3]; bool act=false; void Set_Inactive(){ act=false; } bool IsActive() const { return act; } void AddPoint(const double*p,double e){ for(int k=0;k<3;k++){ double a=p[k]-e,b=p[k]+e; if(!act||a<lo[k]) lo[k]=a; if(!act||b>hi[k]) hi[k]=b; } act=true; } MB& operator+=(const MB&o){ if(!o.act) return *this; AddPoint(o.lo,0); AddPoint(o.hi,0); return *this; }
  void Range_DistToPoint(double&mn,double&mx,double x,double y,double z) const { double q[3]={x,y,z},d=0; for(int k=0;k<3;k++){ if(lo[k]-q[k]>d) d=lo[k]-q[k]; if(q[k]-hi[k]>d) d=q[k]-hi[k]; } mn=d; mx=d+1e6; }
  bool isInclude_Point(double x,double y,double z) const { double q[3]={x,y,z}; for(int k=0;k<3;k++) if(q[k]<lo[k]||q[k]>hi[k]) return false; return true; } template<class A> bool IsIntersectLine(const A*o,const A*d) const { double a=-1e9,b=1e9; for(int k=0;k<3;k++){ double u=(lo[k]-o[k])/d[k],v=(hi[k]-o[k])/d[k]; if(d[k]<0) std::swap(u,v); if(u>a) a=u; if(v<b) b=v; } return a<=b; } bool IsIntersectRay(const double*,const double*) const { return true; } };
typedef dfm2::CBVH_MeshTri3D<MB,double> TREE; typedef dfm2::CBVH_MeshTri3D<BS,double> STREE;
// meshes: 0 tetrahedron, 1 a fan of four triangles, 2 octahedron, 3 cube
struct M{ VD p; VU t; U nt() const { return t.size()/3; } };
static M mesh(int k){ M m; if(k==0){ m.p={0,0,0, 2,0,0, 0,2,0, 0,0,2}; m.t={0,2,1, 0,1,3, 0,3,2, 1,2,3}; } else if(k==1){ m.p={0,0,0, 2,0,0, 2,2,0.5, 0,2,0, 1,1,1}; m.t={0,1,4, 1,2,4, 2,3,4, 3,0,4}; }
  else if(k==2){ m.p={1,0,0,-1,0,0,0,1,0,0,-1,0,0,0,1,0,0,-1}; m.t={0,2,4, 2,1,4, 1,3,4, 3,0,4, 2,0,5, 1,2,5, 3,1,5, 0,3,5}; } else { for(int i=0;i<8;i++){ m.p.push_back(i&1); m.p.push_back(i>>1&1); m.p.push_back(i>>2); } m.t={0,2,3,0,3,1, 4,5,7,4,7,6, 0,1,5,0,5,4, 2,6,7,2,7,3, 0,4,6,0,6,2, 1,3,7,1,7,5}; } return m; }
static V3 query(int nat){ static const double B[4][2]={{0.3125,0.6875},{1.5625,0.15625},{-0.4375,0.28125},{0.8125,0.34375}}; int ax=sx_choose("axis",3),k=sx_choose("at",nat); V3 p; p.p[(ax+1)%3]=B[k][0]; p.p[(ax+2)%3]=B[k][1]; p.p[ax]=sx_real_in("x",-1.5,2.5); return p; }
static double d2(const V3&p,const std::array<double,3>&q){ double s=0; for(int k=0;k<3;k++) s+=(p.p[k]-q[k])*(p.p[k]-q[k]); return s; }
static double d2tri(const M&m,U it,const V3&p){ double r0,r1; V3 q[3]; for(int k=0;k<3;k++) q[k]=V3(m.p.data()+3*m.t[3*it+k])-p; V3 n=dfm2::Nearest_Origin3_Tri3(r0,r1,q[0],q[1],q[2]); return n.squaredNorm(); }
static V3 gridq(double h){ int a=sx_choose("gx",T?7:5),b=sx_choose("gy",T?7:5),c=sx_choose("gz",T?7:5); return V3(-0.4296875+a*h,-0.3984375+b*h,-0.3671875+c*h); }
// ------------------------------------------------------------------ nearest points through the tree
static void near_check(const M&m,const V3&p,const PES&a){ sx_check(a.itri<m.nt(),"a triangle is found"); if(a.itri>=m.nt()) return; sx_check(a.Check(m.p,m.t,1e-6),"the weights are inside the triangle"); double s=d2(p,a.PositionOnMeshTri3(m.p,m.t)); for(U i=0;i<m.nt();i++){ double q=d2tri(m,i,p); sx_le(s,q+1e-7,"no triangle is nearer"); } }
SX_ENTRY(nearest_global){ opt(); M m=mesh(sx_choose("mesh",2)); V3 p=query(T?3:1); TREE b; b.Init(m.p.data(),m.p.size()/3,m.t.data(),m.nt(),0.); PES a=b.NearestPoint_Global(p,m.p,m.t); near_check(m,p,a); }
SX_ENTRY(nearest_global_spheres){ opt(); sx_opt("ieee",1); sx_opt("native_tol_e",7); M m=mesh(sx_choose("mesh",4)); V3 p=gridq(0.625); STREE b; b.Init(m.p.data(),m.p.size()/3,m.t.data(),m.nt(),sx_choose("margin",2)*0.25); PES a=b.NearestPoint_Global(p,m.p,m.t); sx_check(a.itri<m.nt(),"a triangle is found"); if(a.itri>=m.nt()) return; double s=d2(p,a.PositionOnMeshTri3(m.p,m.t)); for(U i=0;i<m.nt();i++){ double q=d2tri(m,i,p); sx_check(s<=q+1e-9,"no triangle is nearer"); } }
SX_ENTRY(nearest_included){ opt(); M m=mesh(sx_choose("mesh",2)); V3 p=query(T?3:1); double R=0.5*sx_choose("radius",3); TREE b; double mg=0.25*sx_choose("margin",2); b.Init(m.p.data(),m.p.size()/3,m.t.data(),m.nt(),mg); PES a; double d=b.Nearest_Point_IncludedInBVH(a,p,R,m.p.data(),m.p.size()/3,m.t.data(),m.nt()); bool any=false; double db=R; for(U i=0;i<m.nt();i++){ MB v; for(int k=0;k<3;k++) v.AddPoint(&m.p[3*m.t[3*i+k]],mg); double mn,mx; v.Range_DistToPoint(mn,mx,p.p[0],p.p[1],p.p[2]); if(mn==0){ any=true; double q=d2tri(m,i,p); sx_le(d*d,q+1e-7,"no triangle whose volume holds the point is nearer"); } else if(mn<db) db=mn; }
  sx_check((a.itri!=UINT_MAX)==any,"a triangle is reported exactly when its volume holds the point"); if(!any) sx_eq(d,db,"otherwise the distance to the nearest volume, up to the radius, is returned"); else if(a.itri<m.nt()){ double s=d2(p,a.PositionOnMeshTri3(m.p,m.t)); sx_le(0,d,"distance"); sx_check((d*d-s<1e-6)&(s-d*d<1e-6),"the distance is that of the reported point"); } }
static bool inside(int k,const V3&p){ if(k==0) return sx_fork((p.p[0]>0)&(p.p[1]>0)&(p.p[2]>0)&(p.p[0]+p.p[1]+p.p[2]<2)); if(k==3) return sx_fork((p.p[0]>0)&(p.p[1]>0)&(p.p[2]>0)&(p.p[0]<1)&(p.p[1]<1)&(p.p[2]<1)); bool r=true; for(int i=0;i<8;i++){ double s=(i&1?p.p[0]:-p.p[0])+(i&2?p.p[1]:-p.p[1])+(i&4?p.p[2]:-p.p[2]); r=r&&sx_fork(s<1); } return r; }
static VD normals(const M&m){ VD n(m.p.size(),0.); for(U i=0;i<m.nt();i++){ V3 a(m.p.data()+3*m.t[3*i]),b(m.p.data()+3*m.t[3*i+1]),c(m.p.data()+3*m.t[3*i+2]); V3 x=(b-a).cross(c-a); for(int k=0;k<3;k++) for(int j=0;j<3;j++) n[3*m.t[3*i+k]+j]+=x.p[j]; } for(U i=0;i<n.size()/3;i++){ double l=std::sqrt(n[3*i]*n[3*i]+n[3*i+1]*n[3*i+1]+n[3*i+2]*n[3*i+2]); for(int j=0;j<3;j++) n[3*i+j]/=l; } return n; }
SX_ENTRY(sdf_spheres){ opt(); sx_opt("ieee",1); int k=sx_choose("mesh",3); if(k==1) k=3; M m=mesh(k); V3 p=k==3?gridq(0.4375):gridq(0.546875); STREE b; b.Init(m.p.data(),m.p.size()/3,m.t.data(),m.nt(),0.01); V3 n; double s=b.SignedDistanceFunction(n,p,m.p,m.t,normals(m)); double best=1e9; for(U i=0;i<m.nt();i++) best=std::min(best,d2tri(m,i,p)); sx_check(std::abs(s*s-best)<1e-9,"the size is the distance to the surface"); bool in=inside(k,p); sx_check((s>0)==in,"positive inside, negative outside"); double ln=n.squaredNorm(); sx_check(std::abs(ln-1)<1e-9,"unit direction"); double h=1e-3; V3 q=p+n*h; double bq=1e9; for(U i=0;i<m.nt();i++) bq=std::min(bq,d2tri(m,i,q)); double sq=std::sqrt(bq)*(in?1:-1); if(best>1e-4) sx_check(std::abs(sq-(s-h))<1e-9,"moving along the normal leaves the surface or goes out at unit rate"); }
SX_ENTRY(project_outside){ opt(); sx_opt("ieee",1); M m=mesh(3); V3 p=gridq(0.34375); STREE b; double cc=0.03125*sx_choose("cc",2); b.Init(m.p.data(),m.p.size()/3,m.t.data(),m.nt(),1.5); VD x={p.p[0],p.p[1],p.p[2]}; std::vector<dfm2::CInfoNearest<double>> inf; VD nr=normals(m); double R=4; dfm2::Project_PointsIncludedInBVH_Outside_Cache(x.data(),inf,1u,cc,b,m.p.data(),8u,m.t.data(),m.nt(),nr.data(),R); auto sdf=[&](const V3&q){ double best=1e9; for(U i=0;i<m.nt();i++) best=std::min(best,d2tri(m,i,q)); return std::sqrt(best)*(inside(3,q)?1:-1); }; double s0=sdf(p); V3 q(x.data()); double s1=sdf(q); if(s0+cc<0) sx_check((q-p).squaredNorm()==0,"points already clear are not moved"); else sx_check(std::abs(s1+cc)<1e-8,"points inside are moved out to the clearance"); sx_check(std::abs(inf[0].sdf-s0)<1e-9,"the stored value is the signed distance"); V3 st(x.data()); dfm2::Project_PointsIncludedInBVH_Outside_Cache(x.data(),inf,1u,cc,b,m.p.data(),8u,m.t.data(),m.nt(),nr.data(),R); V3 q2(x.data()); sx_check((q2-st).norm()<1e-8,"a second pass keeps the points"); x[0]=p.p[0]; x[1]=p.p[1]; x[2]=p.p[2]; V3 mv(0.25,0.125,-0.0625); for(int k=0;k<3;k++) x[k]+=mv.p[k]; double s2=sdf(V3(x.data())); dfm2::Project_PointsIncludedInBVH_Outside_Cache(x.data(),inf,1u,cc,b,m.p.data(),8u,m.t.data(),m.nt(),nr.data(),R); V3 q3(x.data()); double s3=sdf(q3); sx_check(s3<=-cc+1e-8,"the cache never keeps a point inside"); if(s2+cc<-1e-9) sx_check((q3-(p+mv)).squaredNorm()<1e-16,"points already clear are not moved"); }
// ------------------------------------------------------------------ first hit of a ray
static bool hit(double&d,const M&m,U it,const V3&o,const V3&r){ V3 a(m.p.data()+3*m.t[3*it]),b(m.p.data()+3*m.t[3*it+1]),c(m.p.data()+3*m.t[3*it+2]); V3 n=(b-a).cross(c-a); double k=n.dot(r); if(k==0) return false; d=n.dot(a-o)/k; V3 q=o+r*d; double e0=(b-a).cross(q-a).dot(n),e1=(c-b).cross(q-b).dot(n),e2=(a-c).cross(q-c).dot(n); double n2=n.squaredNorm(); sx_assume((e0>1e-3*n2)|(e0<-1e-3*n2)); sx_assume((e1>1e-3*n2)|(e1<-1e-3*n2)); sx_assume((e2>1e-3*n2)|(e2<-1e-3*n2)); return sx_fork((e0>0)&(e1>0)&(e2>0)); }
SX_ENTRY(first_hit){ opt(); M m=mesh(sx_choose("mesh",T?4:3)); int bld=sx_choose("builder",2); std::vector<dfm2::CNodeBVH2> nd; std::vector<MB> bb; if(bld) dfm2::BuildBVH_MeshTri3D_Morton(nd,bb,m.p,m.t); else dfm2::ConstructBVHTriangleMeshMortonCode(nd,bb,m.p,m.t); static const double D[3][3]={{0.25,0.125,-1},{1,0.375,0.25},{-0.5,1,0.3125}}; int k=sx_choose("dir",T?3:2); V3 r(D[k]); V3 o(0.28125,0.34375,0.21875); int ax=k==1?1:0; o=o-r*(sx_choose("from",2)?2.0:0.0); o.p[ax]=sx_real_in("x",-2,3); PES a; bool h=dfm2::Intersection_Ray3_Tri3_Bvh(a,o,r,m.p,m.t,nd,bb); bool any=false; double best=0; U bi=UINT_MAX; for(U i=0;i<m.nt();i++){ double d; if(!hit(d,m,i,o,r)) continue; sx_assume((d>1e-3)|(d<-1e-3)); if(sx_fork(d<0)) continue; if(!any||sx_fork(d<best)){ any=true; best=d; bi=i; } } sx_check(h==any,"a hit is reported exactly when the ray meets the mesh"); if(!h||!any) return; sx_check(a.itri==bi,"the first triangle along the ray is reported"); if(a.itri!=bi) return; auto q=a.PositionOnMeshTri3(m.p,m.t); for(int c=0;c<3;c++) sx_eq(q[c],o.p[c]+best*r.p[c],"the reported position is the point of the ray"); }
SX_ENTRY(image_rays){ opt(); M m=mesh(sx_choose("mesh",3)); std::vector<dfm2::CNodeBVH2> nd; std::vector<BS> bb; dfm2::ConstructBVHTriangleMeshMortonCode(nd,bb,m.p,m.t); double mvp[16]={0.25,0.0625,0,0, 0,0.25,0.03125,0, 0.03125,0,0.25,0, 0,0,0,1}; int nh=2+sx_choose("nh",2),nw=2+sx_choose("nw",3); std::vector<PES> out(1); dfm2::Intersection_ImageRay_TriMesh3(out,nh,nw,mvp,nd,bb,m.p,m.t,false); sx_check((int)out.size()==nh*nw,"one entry per pixel"); if((int)out.size()!=nh*nw) return; auto inv=dfm2::Inverse_Mat4(mvp); for(int i=0;i<nh;i++) for(int j=0;j<nw;j++){ auto ray=dfm2::RayFromInverseMvpMatrix(inv.data(),j,i,nw,nh); PES q; bool h=dfm2::Intersection_Ray3_Tri3_Bvh(q,ray.first,ray.second,m.p,m.t,nd,bb); const PES&o=out[i*nw+j]; sx_check(h?(o.itri==q.itri):(o.itri==UINT_MAX),"each pixel holds the hit of its own ray"); } }
SX_ENTRY(hightfield){ opt(); int nx=2+sx_choose("nx",2),ny=2+sx_choose("ny",2); std::vector<float> h; for(int i=0;i<nx*ny;i++) h.push_back((float)((i*5)%4)*0.5f); h[(ny-1)*nx-1]=(float)sx_real_in("h",0,2); static const double P[4][2]={{0.3125,0.21875},{1.4375,0.34375},{0.28125,1.625},{1.1875,1.8125}}; int k=sx_choose("at",4); double x=P[k][0],y=P[k][1]; bool in=x<nx-1&&y<ny-1; double src[3]={x,y,5},dir[3]={0,0,-1}; std::vector<PES> a; dfm2::IntersectionLine_Hightfield(a,src,dir,nx,ny,h); sx_check((int)a.size()==(in?1:0),"a vertical line meets the field once"); if(a.size()!=1) return; auto q=a[0].PositionOnGrid2(nx,ny,1.,h); sx_eq(q[0],x,"the hit is on the line"); sx_eq(q[1],y,"the hit is on the line"); int ix=(int)x,iy=(int)y; double u=x-ix,v=y-iy; double a00=h[iy*nx+ix],a10=h[iy*nx+ix+1],a01=h[(iy+1)*nx+ix],a11=h[(iy+1)*nx+ix+1]; double z=u>v?a00+(a10-a00)*u+(a11-a10)*v:a00+(a01-a00)*v+(a11-a01)*u; sx_eq(q[2],z,"the height of the triangle"); }
// ------------------------------------------------------------------ positions and normals
SX_ENTRY(position){ optl(); VD p(15); for(int i=0;i<15;i++) p[i]=sx_real_in(NM("p",i),-5,5); VU t={0,1,2, 4,2,3}; U it=sx_choose("tri",2); double a=sx_real_in("r0",-1,2),b=sx_real_in("r1",-1,2); PES s(it,a,b); auto q=s.PositionOnMeshTri3(p,t); auto r=s.PositionOnMeshTri3(p.data(),5,t.data(),2); for(int k=0;k<3;k++){ double e=a*p[3*t[3*it]+k]+b*p[3*t[3*it+1]+k]+(1-a-b)*p[3*t[3*it+2]+k]; sx_eq(q[k],e,"weighted corners"); sx_eq(r[k],e,"weighted corners"); } PES u(std::make_tuple(it,a,b)); sx_check((u.itri==it)&(u.r0==a)&(u.r1==b),"built from a sample"); }
SX_ENTRY(check){ opt(); VD p(9); VU t={0,1,2}; U it=sx_choose("tri",3); if(it==2) it=UINT_MAX; double a=sx_real_in("r0",-1,2),b=sx_real_in("r1",-1,2); double eps=sx_choose("e",2)*0.125; PES s(it,a,b); bool c=s.Check(p,t,eps); double d=1-a-b; bool w=it==0&&sx_fork((a>=-eps)&(b>=-eps)&(d>=-eps)&(a<=1+eps)&(b<=1+eps)&(d<=1+eps)); sx_check(c==w,"accepted exactly when inside an existing triangle"); }
SX_ENTRY(normal){ optl(); static const double N[3][3]={{0,0,1},{0.6,0,0.8},{2./7,3./7,6./7}}; VD n; for(int i=0;i<3;i++) for(int k=0;k<3;k++) n.push_back(N[i][k]); VU t={1,2,0}; double a=sx_real_in("r0",0,1),b=sx_real_in("r1",0,1); sx_assume(a+b<=1); PES s(0,a,b); auto q=s.UnitNormalOnMeshTri3(n,t); auto r=s.UnitNormalOnMeshTri3((const double*)nullptr,3u,t.data(),1u,n.data()); double e[3],l=0,dot=0; for(int k=0;k<3;k++){ e[k]=a*N[1][k]+b*N[2][k]+(1-a-b)*N[0][k]; l+=e[k]*e[k]; dot+=e[k]*q[k]; } double u=q[0]*q[0]+q[1]*q[1]+q[2]*q[2]; sx_eq(u,1,"unit length"); sx_eq(dot*dot,l,"direction of the blended normal"); sx_le(0,dot,"direction of the blended normal"); for(int k=0;k<3;k++) sx_eq(q[k],r[k],"both forms agree"); }
SX_ENTRY(tet_face){ optl(); VD p(15); for(int i=0;i<15;i++) p[i]=sx_real_in(NM("p",i),-5,5); VU t={0,1,2,3, 4,1,3,2}; U it=sx_choose("tet",2),f=sx_choose("face",4); VU tf={1-it,(f+1)%4,it,f}; double a=sx_real_in("r0",0,1),b=sx_real_in("r1",0,1); PES s(1,a,b); auto q=s.PositionOnFaceOfMeshTet(p,t,tf); static const int F[4][3]={{1,2,3},{0,3,2},{0,1,3},{0,2,1}}; for(int k=0;k<3;k++) sx_eq(q[k],a*p[3*t[4*it+F[f][0]]+k]+b*p[3*t[4*it+F[f][1]]+k]+(1-a-b)*p[3*t[4*it+F[f][2]]+k],"weighted corners of the face"); }
// ------------------------------------------------------------------ random samples
SX_ENTRY(sample){ opt(); sx_nrand=0; VD p={0,0,0, 1,0,0, 0,2,0, 3,0,0, 0,0,4}; int nt=1+sx_choose("nt",T?4:3); VU t; for(int i=0;i<nt;i++){ static const U S[5][3]={{0,1,2},{0,3,2},{0,1,3},{0,3,4},{0,1,4}}; int k=sx_choose(NM("t",i),T?5:4); for(int j=0;j<3;j++) t.push_back(S[k][j]); } VD ar; double tot=0; for(int i=0;i<nt;i++){ ar.push_back(dfm2::Area_Tri3(&p[3*t[3*i]],&p[3*t[3*i+1]],&p[3*t[3*i+2]])); tot+=ar[i]; } if(tot==0) return; int sel=sx_choose("sel",2); std::vector<int> ok(nt,1); if(sel){ ok[0]=0; tot-=ar[0]; if(tot==0) return; }
  std::tuple<U,double,double> r; if(sel){ dfm2::RandomSamplingOnMeshTri3Selective s(p,t,[&](U i){ return ok[i]==1; }); r=s.Sample(); } else { dfm2::RandomSamplingOnMeshTri3 s(p,t); r=s.Sample(); } U it=std::get<0>(r); double a=std::get<1>(r),b=std::get<2>(r); sx_check((int)it<nt,"an existing triangle"); if((int)it>=nt) return; sx_check(ok[it]==1,"only selected triangles are sampled"); sx_check(ar[it]>0,"triangles of zero area are not sampled"); sx_le(0,a,"inside the triangle"); sx_le(0,b,"inside the triangle"); sx_le(a+b,1,"inside the triangle");
  double v=sx_rv[0],w=sx_rv[1]; double c=0; for(int i=0;i<(int)it;i++) if(ok[i]) c+=ar[i]; sx_le(c,v*tot,"each triangle is drawn in proportion to its area"); sx_le(v*tot,c+ar[it],"each triangle is drawn in proportion to its area"); double r0=(v*tot-c)/ar[it]; if(sx_fork(r0+w>1)){ sx_eq(a,1-w,"folded back into the triangle without stretching"); sx_eq(b,1-r0,"folded back into the triangle without stretching"); } else { sx_eq(a,r0,"uniform in the triangle"); sx_eq(b,w,"uniform in the triangle"); } }
// ------------------------------------------------------------------ quads
static void quad(V3*q,int k){ static const double Q[4][12]={{-1,-1,0, 1,-1,0, 1,1,0, -1,1,0},{0,0,0, 2,0,1, 3,1,1, 1,1,0},{0,0,0, 0,2,0, -1,2,2, -1,0,2},{-1,0,0, 0,-1,0, 1,0,0, 0,1,0}}; for(int i=0;i<4;i++) q[i]=V3(Q[k]+3*i); }
SX_ENTRY(quad_nearest){ opt(); V3 q[4]; quad(q,sx_choose("quad",T?4:3)); V3 c=(q[1]-q[0]),d=(q[3]-q[0]),n=c.cross(d); int w=sx_choose("line",4); double x=sx_real_in("x",-1.5,2.5),h=sx_choose("h",2)?0.5:-0.25; double u=w==0?x:w==1?0.375:w==2?1.75:-0.5,v=w==0?0.625:x; if(w==0&&sx_choose("past",2)) v=1.375; V3 p=q[0]+c*u+d*v+n*h; double s0=9,s1=9; V3 r=dfm2::Nearst_Origin3_Quad3(s0,s1,q[0]-p,q[1]-p,q[2]-p,q[3]-p); V3 e=(q[0]-p)+c*s0+d*s1; for(int k=0;k<3;k++) { double z=r.p[k]-e.p[k]; sx_check((z<1e-7)&(z>-1e-7),"the point has the reported weights"); } sx_assume((x>1e-3)|(x<-1e-3)); sx_assume((x>1+1e-3)|(x<1-1e-3)); sx_le(-1e-3,s0,"inside the quad"); sx_le(s0,1.001,"inside the quad"); sx_le(-1e-3,s1,"inside the quad"); sx_le(s1,1.001,"inside the quad"); double rr=r.squaredNorm(); for(int i=0;i<=4;i++) for(int j=0;j<=4;j++){ V3 z=(q[0]-p)+c*(i*0.25)+d*(j*0.25); sx_le(rr,z.squaredNorm()+1e-9,"no other point of the quad is nearer"); } }
SX_ENTRY(quad_line){ opt(); V3 q[4]; quad(q,sx_choose("quad",T?4:3)); V3 c=(q[1]-q[0]),d=(q[3]-q[0]),n=c.cross(d); double x=sx_real_in("x",-1.5,2.5); int w=sx_choose("line",3); double u=w==0?x:w==1?0.375:1.75,v=w==0?0.625:x; sx_assume((x>1e-3)|(x<-1e-3)); sx_assume((x>1+1e-3)|(x<1-1e-3)); V3 hit=q[0]+c*u+d*v; V3 dir=n*(sx_choose("flip",2)?-1.0:1.0)+c*0.25; V3 src=hit-dir*1.5; V3 s; double a=9,b=9; bool r=dfm2::intersection_Point_Quad(s,a,b,src,dir,q[0],q[1],q[2],q[3]); bool in=sx_fork((u>0)&(u<1)&(v>0)&(v<1)); sx_check(r==in,"a hit is reported exactly when the line crosses the quad"); if(!r||!in) return; for(int k=0;k<3;k++) sx_eq(s.p[k],hit.p[k],"crossing point"); sx_eq(a,u,"weights of the crossing"); sx_eq(b,v,"weights of the crossing"); }
