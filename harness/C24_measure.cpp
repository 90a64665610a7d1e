// C24: areas, volumes, centroids, moments
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <array>
#include <vector>
#include <functional>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/geosolidelm_v3.h"
#include "delfem2/geodelaunay3_v3.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_normal.h"
#include "delfem2/mshmisc.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef dfm2::CVec3d V; typedef dfm2::CVec2d V2; typedef unsigned int U;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("sqrt_square",1); }
static void pts(V*p,int n,double r=8){ for(int i=0;i<n;i++){ double x=sx_real_in(NM("x",i),-r,r),y=sx_real_in(NM("y",i),-r,r),z=sx_real_in(NM("z",i),-r,r); p[i]=V(x,y,z); } }
static V nrm(const V&a,const V&b,const V&c){ double u[3],v[3]; for(int d=0;d<3;d++){ u[d]=b.p[d]-a.p[d]; v[d]=c.p[d]-a.p[d]; } return V(u[1]*v[2]-u[2]*v[1],u[2]*v[0]-u[0]*v[2],u[0]*v[1]-u[1]*v[0]); }
static double dt(const V&a,const V&b){ return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static V comb(const V*p,const double*w,int n){ double s[3]={0,0,0}; for(int i=0;i<n;i++) for(int d=0;d<3;d++) s[d]+=w[i]*p[i].p[d]; return V(s[0],s[1],s[2]); }
static void vec3(const V&a,const V&b,const char*m){ for(int d=0;d<3;d++) sx_eq(a.p[d],b.p[d],m); }
static double tetvol(const V&a,const V&b,const V&c,const V&d){ V n=nrm(a,b,c); return (n.p[0]*(d.p[0]-a.p[0])+n.p[1]*(d.p[1]-a.p[1])+n.p[2]*(d.p[2]-a.p[2]))/6; }
static void near_(double a,double b,const char*m,double tol=1e-9){ double e=a-b; sx_check((e<tol)&(e>-tol),m); }
// ------------------------------------------------------------------ triangles
SX_ENTRY(tri_area){ optl(); sx_opt("sqrt_square",1); V p[3]; pts(p,3); V n=nrm(p[0],p[1],p[2]); double A=dfm2::Area_Tri3(p[0],p[1],p[2]); sx_eq(4*A*A,dt(n,n),"area is half the length of the cross product"); sx_check(A>=0,"area is not negative"); sx_eq(4*dfm2::SquareTriArea(p[0],p[1],p[2]),dt(n,n),"squared area"); V m; dfm2::Normal_Tri3(m,p[0],p[1],p[2]); vec3(m,n,"normal is the cross product"); auto q=dfm2::Normal_Tri3(p[0],p[1],p[2]); vec3(V(q[0],q[1],q[2]),n,"normal is the cross product");
  std::vector<double> X; for(int i=0;i<3;i++) for(int d=0;d<3;d++) X.push_back(p[i].p[d]); std::vector<U> tv={2,0,1}; auto q1=dfm2::Normal_Tri3(0u,tv,X); vec3(V(q1[0],q1[1],q1[2]),n,"normal is invariant under rotation of the corners"); auto c=dfm2::CG_Tri3(0u,tv,X); for(int d=0;d<3;d++) sx_eq(3*c[d],p[0].p[d]+p[1].p[d]+p[2].p[d],"centroid"); auto q2=dfm2::Normal_TriInMeshTri3(0u,X.data(),tv.data()); vec3(V(q2[0],q2[1],q2[2]),n,"normal of a mesh triangle"); std::vector<V> P(p,p+3); double A2=dfm2::Area_Tri3(1,2,0,P); sx_eq(4*A2*A2,dt(n,n),"area from a point list"); std::vector<int> ti={0,1,2}; double g[3]; dfm2::CG_Tri(g[0],g[1],g[2],0,X,ti); for(int d=0;d<3;d++) near_(3*g[d],p[0].p[d]+p[1].p[d]+p[2].p[d],"centroid",1e-3); }
SX_ENTRY(tri_unit){ optl(); sx_opt("sqrt_square",1); V p[3]; pts(p,3); V n=nrm(p[0],p[1],p[2]); double q=dt(n,n); sx_assume(q>=0.0001); V a=dfm2::UnitNormal_Tri3(p[0],p[1],p[2]),b,c; double A; dfm2::UnitNormal_Tri3(b,p[0],p[1],p[2]); dfm2::UnitNormalAreaTri3(c,A,p[0],p[1],p[2]); sx_eq(4*A*A,q,"area with the unit normal"); const V*u[3]={&a,&b,&c}; for(int i=0;i<3;i++){ sx_eq(dt(*u[i],*u[i]),1,"unit length"); for(int d=0;d<3;d++) sx_eq(u[i]->p[d]*2*A,n.p[d],"unit normal times twice the area is the cross product"); } }
// point inside, on an edge or outside in the plane: signed parts add up
SX_ENTRY(tri_split){ optl(); sx_opt("sqrt_square",1); V p[3]; pts(p,3); double s=sx_real_in("s",0,1),t=sx_real_in("t",0,1); sx_assume(s+t<=1); double w[3]={1-s-t,s,t}; V q=comb(p,w,3); double A=dfm2::Area_Tri3(p[0],p[1],p[2]); for(int k=0;k<3;k++){ double a=dfm2::Area_Tri3(q,p[(k+1)%3],p[(k+2)%3]); sx_eq(a*a,w[k]*w[k]*A*A,"area of a part is its barycentric weight"); sx_check(a>=0,"area of a part is not negative"); V n,m; dfm2::Normal_Tri3(n,q,p[(k+1)%3],p[(k+2)%3]); dfm2::Normal_Tri3(m,p[0],p[1],p[2]); for(int d=0;d<3;d++) sx_eq(n.p[d],w[k]*m.p[d],"normal of a part is its barycentric weight"); } }
SX_ENTRY(tri_flux){ optl(); V p[4]; pts(p,4); V n[4]; dfm2::Normal_Tri3(n[0],p[0],p[2],p[1]); dfm2::Normal_Tri3(n[1],p[0],p[1],p[3]); dfm2::Normal_Tri3(n[2],p[1],p[2],p[3]); dfm2::Normal_Tri3(n[3],p[2],p[0],p[3]); for(int d=0;d<3;d++) sx_eq(n[0].p[d]+n[1].p[d]+n[2].p[d]+n[3].p[d],0,"normals of a closed surface cancel"); double f=0; for(int d=0;d<3;d++) f+=(p[0].p[d]*n[0].p[d]+p[0].p[d]*n[1].p[d]+p[1].p[d]*n[2].p[d]+p[2].p[d]*n[3].p[d])/6; sx_eq(dfm2::Volume_Tet(p[0],p[1],p[2],p[3]),f,"volume is the flux through the faces"); }
// ------------------------------------------------------------------ tetrahedra
SX_ENTRY(tet_volume){ optl(); V p[5]; pts(p,4); double w[4]; w[1]=sx_real_in("w1",-2,2); w[2]=sx_real_in("w2",-2,2); w[3]=sx_real_in("w3",-2,2); w[0]=1-w[1]-w[2]-w[3]; V q=comb(p,w,4); double v=dfm2::Volume_Tet(p[0],p[1],p[2],p[3]); sx_eq(v,tetvol(p[0],p[1],p[2],p[3]),"volume is a sixth of the triple product"); sx_eq(dfm2::Volume_Tet(q,p[1],p[2],p[3]),w[0]*v,"volume splits by barycentric weights"); sx_eq(dfm2::Volume_Tet(p[0],q,p[2],p[3]),w[1]*v,"volume splits by barycentric weights"); sx_eq(dfm2::Volume_Tet(p[0],p[1],q,p[3]),w[2]*v,"volume splits by barycentric weights"); sx_eq(dfm2::Volume_Tet(p[0],p[1],p[2],q),w[3]*v,"volume splits by barycentric weights"); sx_eq(dfm2::Volume_Tet(p[1],p[0],p[2],p[3]),-v,"volume changes sign when two corners swap"); V r[3]; for(int i=0;i<3;i++) r[i]=V(p[i+1].p[0]-p[0].p[0],p[i+1].p[1]-p[0].p[1],p[i+1].p[2]-p[0].p[2]); sx_eq(dfm2::Volume_OrgTet(r[0],r[1],r[2]),v,"volume against the origin"); std::vector<V> P(p,p+4); sx_eq(dfm2::Volume_Tet(0,1,2,3,P),v,"volume from a point list"); }
SX_ENTRY(tet_height){ opt(); V p[4]; static const double B[3][9]={{0,0,0,2,0,0,0,2,0},{-1,0,1,3,1,0,1,2,-1},{1,1,1,1,4,1,2,1,3}}; int k=sx_choose("base",3); for(int i=0;i<3;i++) p[i]=V(B[k][i*3],B[k][i*3+1],B[k][i*3+2]); double x=sx_real_in("x",-8,8),y=sx_real_in("y",-8,8),z=sx_real_in("z",-8,8); p[3]=V(x,y,z); V n=nrm(p[0],p[1],p[2]); double q=dt(n,n),v=tetvol(p[0],p[1],p[2],p[3]); sx_assume(q>=0.0001); double h=dfm2::Height_Tet(p[0],p[1],p[2],p[3]); sx_eq(h*h*q,36*v*v,"volume is a third of base times height"); if(!sx_fork(v>=0)) sx_check(h<=0,"height has the sign of the volume"); else sx_check(h>=0,"height has the sign of the volume"); }
SX_ENTRY(tet_bary){ optl(); V p[4]; pts(p,4); double v=tetvol(p[0],p[1],p[2],p[3]); sx_assume((v>=0.01)|(v<=-0.01)); double r[4]; bool b=dfm2::barycentricCoord_Origin_Tet(r[0],r[1],r[2],p[0],p[1],p[2],p[3]); sx_check(b,"returns true"); r[3]=1-r[0]-r[1]-r[2]; V q=comb(p,r,4); for(int d=0;d<3;d++) sx_eq(q.p[d],0,"barycentric combination is the origin"); }
SX_ENTRY(tet_grad){ optl(); V P[4]; pts(P,4); double v=tetvol(P[0],P[1],P[2],P[3]); sx_assume((v>=0.01)|(v<=-0.01)); double F[9],c[3]; for(int i=0;i<9;i++) F[i]=sx_real_in(NM("F",i),-4,4); for(int i=0;i<3;i++) c[i]=sx_real_in(NM("c",i),-4,4); V p[4]; for(int i=0;i<4;i++){ double z[3]; for(int d=0;d<3;d++) z[d]=c[d]+F[d*3]*P[i].p[0]+F[d*3+1]*P[i].p[1]+F[d*3+2]*P[i].p[2]; p[i]=V(z[0],z[1],z[2]); } auto G=dfm2::DeformationGradientOfTet(P[0],P[1],P[2],P[3],p[0],p[1],p[2],p[3]); for(int i=0;i<9;i++) sx_eq(G[i],F[i],"deformation gradient of an affine map"); }
SX_ENTRY(tet_dgrad){ optl(); V P[4]; pts(P,4); double v=tetvol(P[0],P[1],P[2],P[3]); sx_assume((v>=0.01)|(v<=-0.01)); double D[4][3]; dfm2::DiffDeformationGradientOfTet(D,P[0],P[1],P[2],P[3]); for(int d=0;d<3;d++){ sx_eq(D[0][d]+D[1][d]+D[2][d]+D[3][d],0,"shape gradients cancel"); for(int e=0;e<3;e++){ double s=0; for(int i=0;i<4;i++) s+=D[i][d]*P[i].p[e]; sx_eq(s,d==e?1:0,"shape gradients reproduce the coordinates"); } } }
static double sq(const V&a,const V&b){ double s=0; for(int d=0;d<3;d++) s+=(a.p[d]-b.p[d])*(a.p[d]-b.p[d]); return s; }
SX_ENTRY(tet_edges){ opt(); static const double B[3][12]={{0,0,0,2,0,0,0,3,0,0,0,1},{1,1,1,-1,-1,1,-1,1,-1,1,-1,-1},{0,0,0,4,1,0,1,3,2,-1,2,5}}; int k=sx_choose("base",3),w=sx_choose("corner",4); double u=sx_real_in("u",-4,4); V p[4]; for(int i=0;i<4;i++) p[i]=V(B[k][i*3],B[k][i*3+1],B[k][i*3+2]); p[w]=V(p[w].p[0]+u,p[w].p[1]-u/2,p[w].p[2]+1); double lo=dfm2::ShortestSquaredEdgeLengthOfTet(p[0],p[1],p[2],p[3]),hi=dfm2::LongestSquaredEdgeLengthOfTet(p[0],p[1],p[2],p[3]); bool el=false,eh=false; for(int i=0;i<4;i++) for(int j=0;j<i;j++){ double s=sq(p[i],p[j]); sx_check(lo<=s,"shortest edge"); sx_check(hi>=s,"longest edge"); el|=lo==s; eh|=hi==s; } sx_check(el,"shortest edge is an edge"); sx_check(eh,"longest edge is an edge"); }
// ------------------------------------------------------------------ pyramid, wedge: average over both diagonals of each quad face
static double flux(const V&a,const V&b,const V&c){ V n=nrm(a,b,c); return dt(a,n)/6; }
static double qflux(const V&a,const V&b,const V&c,const V&d){ return (flux(a,b,c)+flux(a,c,d)+flux(b,c,d)+flux(b,d,a))/2; }
SX_ENTRY(pyramid){ optl(); V p[5]; pts(p,5); double f=qflux(p[3],p[2],p[1],p[0])+flux(p[0],p[1],p[4])+flux(p[1],p[2],p[4])+flux(p[2],p[3],p[4])+flux(p[3],p[0],p[4]); sx_eq(dfm2::Volume_Pyramid(p[0],p[1],p[2],p[3],p[4]),f,"pyramid volume is the flux through its faces"); }
SX_ENTRY(wedge){ optl(); V p[6]; pts(p,6); double f=flux(p[0],p[1],p[2])+flux(p[4],p[3],p[5])+qflux(p[1],p[0],p[3],p[4])+qflux(p[2],p[1],p[4],p[5])+qflux(p[0],p[2],p[5],p[3]); sx_eq(dfm2::Volume_Wedge(p[0],p[1],p[2],p[3],p[4],p[5]),f,"wedge volume is the flux through its faces (first triangle facing out)"); }
SX_ENTRY(solid_pos){ optl(); V p[6]; pts(p,6); double r[3]; for(int i=0;i<3;i++) r[i]=sx_real_in(NM("r",i),0,1); V q=dfm2::positionBarycentricCoord_Pyramid(r[0],r[1],r[2],p[0],p[1],p[2],p[3],p[4]); double a=r[0],b=r[1],c=r[2]; double w[5]={(1-c)*(1-a)*(1-b),(1-c)*a*(1-b),(1-c)*a*b,(1-c)*(1-a)*b,c}; vec3(q,comb(p,w,5),"pyramid interpolation"); double x[6]={(1-c)*a,(1-c)*b,(1-c)*(1-a-b),c*a,c*b,c*(1-a-b)}; V s=dfm2::positionBarycentricCoord_Wedge(r[0],r[1],r[2],p[0],p[1],p[2],p[3],p[4],p[5]); vec3(s,comb(p,x,6),"wedge interpolation"); }
// ------------------------------------------------------------------ circumscribed sphere
SX_ENTRY(circum3){ opt(); static const double B[2][9]={{0,0,0,2,0,0,0,2,0},{-1,0,1,3,1,0,1,2,-1}}; int k=sx_choose("base",2); V p[4]; for(int i=0;i<3;i++) p[i]=V(B[k][i*3],B[k][i*3+1],B[k][i*3+2]); double x=sx_real_in("x",-4,4),y=sx_real_in("y",-4,4),z=sx_real_in("z",-4,4); p[3]=V(x,y,z); sx_assume(tetvol(p[0],p[1],p[2],p[3])>=0.01); V c=dfm2::CircumCenter(p[0],p[1],p[2],p[3]); double r2=sq(c,p[0]); for(int i=1;i<4;i++) sx_eq(sq(c,p[i]),r2,"circumcentre is equidistant"); sx_eq(dfm2::SquareCircumradius(p[0],p[1],p[2],p[3]),r2,"squared circumradius"); double R=dfm2::Circumradius(p[0],p[1],p[2],p[3]); sx_eq(R*R,r2,"circumradius"); }
SX_ENTRY(delaunay3){ opt(); static const double B[2][9]={{0,0,0,2,0,0,0,2,0},{-1,0,0,3,0,0,1,4,0}}; int k=sx_choose("base",2); V p[4]; for(int i=0;i<3;i++) p[i]=V(B[k][i*3],B[k][i*3+1],B[k][i*3+2]); double x=sx_real_in("x",-6,6); static const double Y[4]={0,1,-2,5}; double y=Y[sx_choose("y",4)]; p[3]=V(x,y,0); double cx=1,cy=k==0?1:1,r2=0; if(k==1){ cy=1.5; } r2=sq(V(cx,cy,0),p[0]); double g=sq(V(cx,cy,0),p[3])-r2; sx_assume((g>1e-6)|(g<-1e-6)); int d=dfm2::DetDelaunay(p[0],p[1],p[2],p[3]); sx_check((d==0)|(d==2),"inside or outside"); sx_check((d==0)==(g<0),"inside exactly when closer than the radius"); }
// ------------------------------------------------------------------ centroids of meshes
static std::vector<double> xyz(const V*p,int n){ std::vector<double> X; for(int i=0;i<n;i++) for(int d=0;d<3;d++) X.push_back(p[i].p[d]); return X; }
SX_ENTRY(cg_points){ optl(); int n=1+sx_choose("n",4); V p[4]; pts(p,n); double c[3]={7,7,7}; auto X=xyz(p,n); dfm2::CG_Point3(c,X); for(int d=0;d<3;d++){ double s=0; for(int i=0;i<n;i++) s+=p[i].p[d]; sx_eq(c[d]*n,s,"mean of the points"); } }
// the boundary of tetrahedra around an axis edge: solid centroid from the surface equals that of the tetrahedra
SX_ENTRY(cg_solid){ optl(); int two=sx_choose("two",2); V p[5]; pts(p,4); static const double Q[3]={5,7,9}; p[4]=V(Q[0],Q[1],Q[2]); std::vector<U> tri={0,2,1,0,1,3,2,0,3},tet={0,1,2,3}; if(two){ tri.insert(tri.end(),{1,2,4,2,3,4,3,1,4}); tet.insert(tet.end(),{1,2,3,4}); } else tri.insert(tri.end(),{1,2,3}); auto X=xyz(p,5); double v0=tetvol(p[0],p[1],p[2],p[3]),v1=two?tetvol(p[1],p[2],p[3],p[4]):0; double vt=v0+v1; sx_assume((vt>=0.01)|(vt<=-0.01)); double c[3],g[3],V0; dfm2::CG_MeshTri3_Solid(c,X,tri); dfm2::CG_MeshTet3(V0,g,X,tet); sx_eq(V0,vt,"total volume"); for(int d=0;d<3;d++){ double m=v0*(p[0].p[d]+p[1].p[d]+p[2].p[d]+p[3].p[d])/4; if(two) m+=v1*(p[1].p[d]+p[2].p[d]+p[3].p[d]+p[4].p[d])/4; sx_eq(c[d]*vt,m,"centroid of the enclosed solid"); sx_eq(g[d]*vt,m,"centroid of the tetrahedra"); } }
// triangles in coordinate planes or with rational normals, so that areas are rational
static void shell(std::vector<double>&X,std::vector<U>&tri,double*a){ double u=sx_real_in("u",0.125,4),w=sx_real_in("w",0.125,4),c=sx_real_in("c",-4,4); X={c,0,0, c+u,0,0, c,w,0, c+u,w,0, c,0,2*u, c-3*u,1,4*u}; tri={0,1,2, 1,3,2, 0,2,4, 1,0,4}; a[0]=a[1]=u*w/2; a[2]=w*u; a[3]=u*u; }
SX_ENTRY(cg_shell){ opt(); std::vector<double> X; std::vector<U> tri; double a[4]; shell(X,tri,a); double c[3],g[3]; std::vector<int> flg(4); for(int i=0;i<4;i++) flg[i]=sx_choose(NM("f",i),2); int f=sx_choose("flag",2); int any=0; for(int i=0;i<4;i++) any|=flg[i]==f; if(!any) return; double tot=0,m[3]={0,0,0},t2=0,m2[3]={0,0,0}; for(int t=0;t<4;t++) for(int d=0;d<3;d++){ double q=(X[tri[t*3]*3+d]+X[tri[t*3+1]*3+d]+X[tri[t*3+2]*3+d])/3*a[t]; m[d]+=q; if(!d) tot+=a[t]; if(flg[t]==f){ m2[d]+=q; if(!d) t2+=a[t]; } } dfm2::CG_MeshTri3_Shell(c,X,tri); double A=dfm2::CG_TriMsh3Flg_Shell(g,X,tri,f,flg); sx_eq(A,t2,"flagged area"); for(int d=0;d<3;d++){ sx_eq(c[d]*tot,m[d],"centroid of the surface"); sx_eq(g[d]*t2,m2[d],"centroid of the flagged part"); } double A2=dfm2::Area_MeshTri3(X,tri,[&](U t){ return flg[t]==f; }); sx_eq(A2,t2,"area of the flagged part"); double M[6]; dfm2::MassPoint_Tri3D(M,2.5,X.data(),6,tri.data(),4); for(int i=0;i<6;i++){ double s=0; for(int t=0;t<4;t++) for(int k=0;k<3;k++) if((int)tri[t*3+k]==i) s+=2.5*a[t]/3; sx_eq(M[i],s,"lumped mass"); } }
SX_ENTRY(cg_line){ opt(); double u=sx_real_in("u",0.125,4),c=sx_real_in("c",-4,4); std::vector<double> X={c,0,0, c+u,0,0, c+u,2*u,0, c+3*u,0,u}; std::vector<U> L={0,1, 1,2, 3,1, 2,3}; double l[4]={u,2*u,0,3*u}; L={0,1,1,2,2,3}; l[2]=3*u; double v,g[3]; dfm2::CG_MeshLine3(v,g,X,L); double tot=0; for(int i=0;i<3;i++) tot+=l[i]; sx_eq(v,tot,"total length"); for(int d=0;d<3;d++){ double m=0; for(int i=0;i<3;i++) m+=l[i]*(X[L[i*2]*3+d]+X[L[i*2+1]*3+d])/2; sx_eq(g[d]*tot,m,"centroid of the lines"); } }
SX_ENTRY(cents){ opt(); double u=sx_real_in("u",-3,3); int w=sx_choose("which",3); std::vector<double> X={0,0,0, 3,0,0, 0,4,0, 1,1,5}; X[w*3]+=u; X[w*3+2]-=u; std::vector<U> tri={0,1,2,3,2,1}; std::vector<double> C; double r=dfm2::CentsMaxRad_MeshTri3(C,X,tri); sx_check(C.size()==6,"one centre per triangle"); bool hit=false; for(int t=0;t<2;t++){ for(int d=0;d<3;d++) sx_eq(3*C[t*3+d],X[tri[t*3]*3+d]+X[tri[t*3+1]*3+d]+X[tri[t*3+2]*3+d],"centre of a triangle"); for(int k=0;k<3;k++){ double s=0; for(int d=0;d<3;d++){ double e=C[t*3+d]-X[tri[t*3+k]*3+d]; s+=e*e; } sx_check(s<=r*r+1e-9,"radius bounds every corner"); double e=s-r*r; hit|=(e<1e-9)&(e>-1e-9); } } sx_check(hit,"radius is attained"); }
SX_ENTRY(mass){ optl(); V p[5]; pts(p,4,4); p[4]=V(5,7,9); auto X=xyz(p,5); double rho=sx_real_in("rho",0.125,8); std::vector<U> tet={0,1,2,3,1,3,2,4}; double v[2]={tetvol(p[0],p[1],p[2],p[3]),tetvol(p[1],p[3],p[2],p[4])}; double M[5]; dfm2::MassPoint_Tet3D(M,rho,X.data(),5,tet.data(),2); for(int i=0;i<5;i++){ double s=0; for(int t=0;t<2;t++) for(int k=0;k<4;k++) if((int)tet[t*4+k]==i) s+=rho*v[t]/4; sx_eq(M[i],s,"lumped mass"); } double Y[10]; for(int i=0;i<5;i++) for(int d=0;d<2;d++) Y[i*2+d]=p[i].p[d]; std::vector<U> tri={0,1,2,2,1,3,3,1,4}; double N[5]; dfm2::MassPoint_Tri2D(N,rho,Y,5,tri.data(),3); for(int i=0;i<5;i++){ double s=0; for(int t=0;t<3;t++){ V n=nrm(V(Y[tri[t*3]*2],Y[tri[t*3]*2+1],0),V(Y[tri[t*3+1]*2],Y[tri[t*3+1]*2+1],0),V(Y[tri[t*3+2]*2],Y[tri[t*3+2]*2+1],0)); for(int k=0;k<3;k++) if((int)tri[t*3+k]==i) s+=rho*n.p[2]/6; } sx_eq(N[i],s,"lumped mass"); } }
// ------------------------------------------------------------------ mesh normals: vertex normal is the normalised sum of unit face normals
SX_ENTRY(normals){ opt(); double u=sx_real_in("u",0.125,4),w=sx_real_in("w",0.125,4),h=sx_real_in("h",0.125,4); double X[15]={0,0,0, u,0,0, 0,w,0, 0,0,h, u,w,0}; U tri[12]={0,2,1, 0,1,3, 0,3,2, 1,2,4}; double N[15]; dfm2::Normal_MeshTri3D(N,X,(size_t)5,tri,(size_t)4); double F[4][3]={{0,0,-1},{0,-1,0},{-1,0,0},{0,0,-1}}; for(int i=0;i<5;i++){ double s[3]={0,0,0}; for(int t=0;t<4;t++) for(int k=0;k<3;k++) if((int)tri[t*3+k]==i) for(int d=0;d<3;d++) s[d]+=F[t][d]; double l=0,c=0; for(int d=0;d<3;d++){ l+=N[i*3+d]*N[i*3+d]; c+=N[i*3+d]*s[d]; for(int e=0;e<d;e++) sx_eq(N[i*3+d]*s[e],N[i*3+e]*s[d],"vertex normal is parallel to the sum of face normals"); } near_(l,1,"unit length"); sx_check(c>0,"vertex normal points outwards"); } }
SX_ENTRY(normals_quad){ opt(); double u=sx_real_in("u",0.125,4),w=sx_real_in("w",0.125,4),h=sx_real_in("h",0.125,4); std::vector<double> X={0,0,0, u,0,0, u,w,0, 0,w,0, 0,0,h, u,0,h, 0,w,h},N; std::vector<U> q={0,3,2,1, 0,1,5,4, 0,4,6,3}; dfm2::Normal_MeshQuad3(N,X,q); sx_check(N.size()==X.size(),"one normal per vertex"); double F[3][3]={{0,0,-1},{0,-1,0},{-1,0,0}}; for(int i=0;i<7;i++){ double s[3]={0,0,0}; for(int t=0;t<3;t++) for(int k=0;k<4;k++) if((int)q[t*4+k]==i) for(int d=0;d<3;d++) s[d]+=F[t][d]; double l=0,c=0; for(int d=0;d<3;d++){ l+=N[i*3+d]*N[i*3+d]; c+=N[i*3+d]*s[d]; for(int e=0;e<d;e++) sx_eq(N[i*3+d]*s[e],N[i*3+e]*s[d],"vertex normal is parallel to the sum of face normals"); } near_(l,1,"unit length"); sx_check(c>0,"vertex normal points outwards"); } }
// ------------------------------------------------------------------ planar polygons
static double area2(const std::vector<V2>&P){ double s=0; int n=(int)P.size(); for(int i=0;i<n;i++){ const V2&a=P[i],&b=P[(i+1)%n]; s+=(a.p[0]*b.p[1]-a.p[1]*b.p[0])/2; } return s; }
// integral over the fan triangles from the first corner: exact for quadratics by the edge-midpoint rule
template<class F> static double integ(const std::vector<V2>&P,F f){ double s=0; int n=(int)P.size(); for(int i=1;i+1<n;i++){ const double*a=P[0].p,*b=P[i].p,*c=P[i+1].p; double A=((b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0]))/2; double m[3][2]; for(int d=0;d<2;d++){ m[0][d]=(a[d]+b[d])/2; m[1][d]=(b[d]+c[d])/2; m[2][d]=(c[d]+a[d])/2; } s+=A*(f(m[0][0],m[0][1])+f(m[1][0],m[1][1])+f(m[2][0],m[2][1]))/3; } return s; }
static std::vector<V2> poly(int n){ std::vector<V2> P; for(int i=0;i<n;i++){ double x=sx_real_in(NM("x",i),-8,8),y=sx_real_in(NM("y",i),-8,8); P.push_back(V2(x,y)); } return P; }
SX_ENTRY(polygon){ optl(); int n=3+sx_choose("n",T?4:3); auto P=poly(n); double A=area2(P); sx_assume((A>=0.01)|(A<=-0.01)); V2 cg; double a; dfm2::CgArea_Polygon(cg,a,P); sx_eq(a,A,"area"); sx_eq(cg.p[0]*A,integ(P,[](double x,double){ return x; }),"centroid"); sx_eq(cg.p[1]*A,integ(P,[](double,double y){ return y; }),"centroid"); double px=sx_real_in("px",-8,8),py=sx_real_in("py",-8,8); sx_eq(dfm2::RotationalMomentPolar_Polygon2(P,V2(px,py)),integ(P,[=](double x,double y){ return (x-px)*(x-px)+(y-py)*(y-py); }),"polar moment about a pivot"); auto Q=dfm2::Polygon_Invert(P); sx_check((int)Q.size()==n,"inverted polygon"); for(int i=0;i<n;i++) for(int d=0;d<2;d++) sx_eq(Q[i].p[d],P[n-1-i].p[d],"inverted polygon"); sx_eq(area2(Q),-A,"inverting changes the sign of the area"); auto X=dfm2::XY_Polygon(P); sx_check((int)X.size()==2*n,"flat coordinates"); for(int i=0;i<2*n;i++) sx_eq(X[i],P[i/2].p[i%2],"flat coordinates"); }
SX_ENTRY(second_moment){ opt(); int k=sx_choose("shape",4); double u=sx_real_in("u",0.25,4); std::vector<V2> P; if(k==0) P={V2(0,0),V2(u,0),V2(u,1),V2(0,1)}; if(k==1) P={V2(0,0),V2(3,u),V2(1,4)}; if(k==2) P={V2(1,0),V2(4,1),V2(u,5),V2(0,2)}; if(k==3) P={V2(0,0),V2(u,0),V2(u,1),V2(1,1),V2(1,u+1),V2(0,u+1)}; double A=area2(P); sx_assume(A>=0.01); V2 cg,a1,a2; double a,I1,I2; dfm2::SecondMomentOfArea_Polygon(cg,a,a1,I1,a2,I2,P); sx_eq(a,A,"area"); double cx=integ(P,[](double x,double){ return x; })/A,cy=integ(P,[](double,double y){ return y; })/A; sx_eq(cg.p[0],cx,"centroid"); sx_eq(cg.p[1],cy,"centroid"); double Ix=integ(P,[=](double,double y){ return (y-cy)*(y-cy); }),Iy=integ(P,[=](double x,double){ return (x-cx)*(x-cx); }),Ixy=integ(P,[=](double x,double y){ return (x-cx)*(y-cy); }); sx_eq(I1+I2,Ix+Iy,"principal moments sum to the polar moment"); if(k==0&&sx_fork(u==1)) near_(I1*I2,Ix*Iy-Ixy*Ixy,"principal moments are the eigenvalues"); else{ if(k==0) sx_assume((u<=0.9990234375)|(u>=1.0009765625)); sx_eq(I1*I2,Ix*Iy-Ixy*Ixy,"principal moments are the eigenvalues"); } sx_check(I1>=I2,"first principal moment is the larger"); }
SX_ENTRY(second_axes){ sx_opt("ieee",1); optl(); static const double S[6][12]={{0,0,3,0,3,1,0,1},{0,0,3,1,1,4},{1,0,4,1,2,5,0,2},{0,0,2,0,2,2,0,2},{0,0,1,0,1,5,0,5},{-1,-1,2,1,1,2,-2,0}}; static const int N[6]={4,3,4,4,4,4}; int k=sx_choose("shape",6),r=sx_choose("rot",8); double c=std::cos(r*0.7),s=std::sin(r*0.7); std::vector<V2> P; for(int i=0;i<N[k];i++){ double x=S[k][i*2],y=S[k][i*2+1]; P.push_back(V2(c*x-s*y,s*x+c*y)); } V2 cg,a1,a2; double a,I1=-1,I2=-1; dfm2::SecondMomentOfArea_Polygon(cg,a,a1,I1,a2,I2,P); double cx=cg.p[0],cy=cg.p[1]; near_(a1.p[0]*a1.p[0]+a1.p[1]*a1.p[1],1,"unit axis"); near_(a1.p[0]*a2.p[0]+a1.p[1]*a2.p[1],0,"axes are orthogonal"); const V2*ax[2]={&a1,&a2}; double I[2]={I1,I2}; for(int j=0;j<2;j++){ double ex=ax[j]->p[0],ey=ax[j]->p[1]; double m=integ(P,[=](double x,double y){ double q=-ey*(x-cx)+ex*(y-cy); return q*q; }); near_(m,I[j],"moment about a principal axis",1e-6); } }
SX_ENTRY(poly_length){ opt(); int n=sx_choose("n",5); double u=sx_real_in("u",0.125,4); std::vector<V2> P={V2(0,0),V2(3*u,0),V2(3*u,4*u),V2(0,4*u)}; P.resize(n<4?n:4); double L[5]={0,0,6*u,12*u,14*u}; sx_eq(dfm2::Length_Polygon(P),L[n],"perimeter"); }
SX_ENTRY(loops){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); int nl=1+sx_choose("nl",3); std::vector<std::vector<double>> A(nl); int id=0; for(int i=0;i<nl;i++){ int n=sx_choose(NM("n",i),4); for(int j=0;j<2*n;j++) A[i].push_back(sx_real_in(NM("v",id++),-8,8)); } std::vector<int> ind,loop; std::vector<V2> xy; dfm2::JArray_FromVecVec_XY(ind,loop,xy,A); sx_check((int)ind.size()==nl+1,"one range per loop"); sx_check(ind[0]==0,"starts at zero"); int k=0; for(int i=0;i<nl;i++){ sx_check(ind[i+1]-ind[i]==(int)A[i].size()/2,"size of a loop"); for(int j=0;j<(int)A[i].size()/2;j++,k++){ sx_check(loop[k]==k,"index of a point"); sx_eq(xy[k].p[0],A[i][j*2],"point"); sx_eq(xy[k].p[1],A[i][j*2+1],"point"); } } sx_check((int)xy.size()==k,"number of points"); sx_check((int)loop.size()==k,"number of points"); }
SX_ENTRY(spline_loop){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); int n=3+sx_choose("n",3); std::vector<double> C,R; for(int i=0;i<2*n;i++) C.push_back(sx_real_in(NM("v",i),-8,8)); dfm2::makeSplineLoop(C,R); int nd=(int)R.size()/2/n; sx_check(nd>=1&&nd*n*2==(int)R.size(),"even number of samples per span"); for(int i=0;i<n;i++) for(int k=0;k<nd;k++){ double t=(double)k/nd; for(int d=0;d<2;d++){ double a=C[i*2+d],b=C[(i+1)%n*2+d],c=C[(i+2)%n*2+d]; double m0=(a+b)/2,m1=(b+c)/2; sx_eq(R[(i*nd+k)*2+d],(1-t)*(1-t)*m0+2*t*(1-t)*b+t*t*m1,"quadratic B-spline through the edge midpoints"); } } }
SX_ENTRY(quality){ opt(); double u=sx_real_in("u",0.25,4); int w=sx_choose("w",3); double X[8]={0,0,3*u,0,0,4*u,6*u,4*u}; U tri[9]={0,1,2, 1,3,2, 1,3,2}; if(w==1){ U t[9]={1,3,2,0,1,2,0,1,2}; for(int i=0;i<9;i++) tri[i]=t[i]; } if(w==2) X[6]=3*u; double asp,mn; dfm2::Quality_MeshTri2D(asp,mn,X,tri,w==0?3:2); double a0=6*u*u,a1=w==2?6*u*u:12*u*u; sx_eq(mn,a0<a1?a0:a1,"smallest area"); if(w==2) near_(asp,16.0/6,"largest aspect"); else { double p1=6*u+10*u,ln=p1/3,q=ln*ln/a1; double q0=16.0/6; near_(asp,q>q0?q:q0,"largest aspect"); } }
// ------------------------------------------------------------------ solid angles
static double sang(int k,const V&a,const V&b,const V&c){ if(k==0) return dfm2::SolidAngleTri(a,b,c); return dfm2::SolidAngleTri3D(a.p,b.p,c.p); }
static const double OV[8][3]={{1,2,2},{2,-1,2},{2,2,-1},{-2,1,2},{-1,-2,-2},{3,0,0},{0,-3,0},{0,0,3}};
// moving the dividing point of a split triangle along its edge leaves the sum unchanged; so does scaling a corner
SX_ENTRY(angle_split){ optl(); int k=sx_choose("which",2),z=sx_choose("tri",4); static const int I[4][3]={{0,1,2},{5,2,7},{3,6,0},{7,3,4}}; V p[3]; for(int i=0;i<3;i++) p[i]=V(OV[I[z][i]][0],OV[I[z][i]][1],OV[I[z][i]][2]); double s=sx_real_in("s",0.0625,0.9375); V q(p[1].p[0]*(1-s)+p[2].p[0]*s,p[1].p[1]*(1-s)+p[2].p[1]*s,p[1].p[2]*(1-s)+p[2].p[2]*s); double f=sang(k,p[0],p[1],q)+sang(k,p[0],q,p[2]); sx_eq(sx_d(f,s),0,"parts of a split triangle add up"); double l=sx_real_in("l",0.125,8); V r(p[0].p[0]*l,p[0].p[1]*l,p[0].p[2]*l); sx_eq(sx_d(sang(k,r,p[1],p[2]),l),0,"solid angle depends on directions only"); }
// values: triangles of all shapes around the origin, in [0,4pi), swapping corners gives the complement; closed surfaces sum to 4 pi inside and 0 (mod 4 pi) outside
SX_ENTRY(angle_value){ sx_opt("ieee",1); optl(); int k=sx_choose("which",2); int a=sx_choose("a",8),b=sx_choose("b",8),c=sx_choose("c",8); if(a==b||b==c||a==c) return; V A(OV[a][0],OV[a][1],OV[a][2]),B(OV[b][0],OV[b][1],OV[b][2]),C(OV[c][0],OV[c][1],OV[c][2]); V n=nrm(V(0,0,0),A,B); double det=dt(n,C); if(std::fabs(det)<1e-6) return; double w=sang(k,A,B,C),x=sang(k,A,C,B); near_(w+x,4*M_PI,"reversed triangle covers the rest of the sphere"); // spherical excess by the dihedral angles
  const V*p[3]={&A,&B,&C}; double E=-M_PI; for(int i=0;i<3;i++){ V o(0,0,0); V n1=nrm(o,*p[i],*p[(i+1)%3]),n2=nrm(o,*p[i],*p[(i+2)%3]); double cs=dt(n1,n2)/std::sqrt(dt(n1,n1)*dt(n2,n2)); E+=std::acos(cs); } near_(det>0?w:x,E,"solid angle is the spherical excess",1e-6); }
SX_ENTRY(angle_closed){ sx_opt("ieee",1); optl(); int k=sx_choose("which",2),o=sx_choose("origin",6); static const double O[6][3]={{0,0,0},{0.2,0.1,-0.1},{-0.8,0,0.05},{2,1,1},{0.1,3,0},{0.05,0.05,0.85}}; double X[6][3]={{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}}; double S=0; for(int i=0;i<2;i++) for(int j=2;j<4;j++) for(int m=4;m<6;m++){ int f=(i+j+m)%2; V A(X[i][0]-O[o][0],X[i][1]-O[o][1],X[i][2]-O[o][2]),B(X[j][0]-O[o][0],X[j][1]-O[o][1],X[j][2]-O[o][2]),C(X[m][0]-O[o][0],X[m][1]-O[o][1],X[m][2]-O[o][2]); double w=f?sang(k,A,C,B):sang(k,A,B,C); if(w>2*M_PI) w-=4*M_PI; S+=w; } near_(S,o==3||o==4?0:4*M_PI,"closed surface covers the sphere once",1e-6); }
