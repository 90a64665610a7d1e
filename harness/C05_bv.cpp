// C05: bounding volumes (boxes and spheres): containment, distance and intersection predicates
#include "sx.h"
#include <vector>
#include <climits>
#include <limits>
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bv2_aabb.h"
#include "delfem2/geo_aabb.h"
namespace dfm2=delfem2; typedef dfm2::CBV3d_AABB BB; typedef dfm2::CBV3d_Sphere SP; typedef std::vector<double> VD;
static const int T=SX_TIER;
static double R(const char*n){ return sx_real_in(n,-10,10); }
static double mn(double a,double b){ return a<b?a:b; } static double mx(double a,double b){ return a>b?a:b; }
static bool activeBox(const BB&b){ return b.bbmin[0]<=b.bbmax[0]; }
SX_ENTRY(aabb_points){ int n=1+sx_choose("n",T?4:3); int how=sx_choose("how",3); BB b; if(how==2){ for(int d=0;d<3;d++){ b.bbmin[d]=5; b.bbmax[d]=9; } b.Set_Inactive(); } sx_check(!b.IsActive(),"empty box is inactive"); double lo[3],hi[3]; for(int i=0;i<n;i++){ double e=how==1?0:sx_real_in("eps",-1,3); double p[3]={R("x"),R("y"),R("z")}; if(how==1) b+=p; else b.AddPoint(p,e); if(how!=1&&e<0){ if(i==0) n=0; else n=i; break; } for(int d=0;d<3;d++){ lo[d]=i?mn(lo[d],p[d]-e):p[d]-e; hi[d]=i?mx(hi[d],p[d]+e):p[d]+e; } }
  if(n==0){ sx_check(!b.IsActive(),"a negative margin adds nothing"); return; } sx_check(b.IsActive(),"box with points is active"); for(int d=0;d<3;d++){ sx_eq(b.bbmin[d],lo[d],"lower corner is the minimum"); sx_eq(b.bbmax[d],hi[d],"upper corner is the maximum"); } }
static BB box(const char*,bool mayInactive){ BB b; if(mayInactive&&sx_choose("inactive",2)) return b; double c[3]={R("cx"),R("cy"),R("cz")}; double w[3]={sx_real_in("wx",0,8),sx_real_in("wy",0,8),sx_real_in("wz",0,8)}; b.SetCenterWidth(c[0],c[1],c[2],w[0],w[1],w[2]); double q[6]; b.GetCenterWidth(q[0],q[1],q[2],q[3],q[4],q[5]); for(int i=0;i<3;i++){ sx_eq(q[i],c[i],"centre"); sx_eq(q[3+i],w[i],"width"); } return b; }
SX_ENTRY(aabb_merge){ BB a=box("a",true),b=box("b",true),c=a; int how=sx_choose("how",3); bool aa=a.IsActive(),ba=b.IsActive(); if(how==0) c+=b; else if(how==1) c.Add_AABBVec3(b.AABBVec3()); else c.Add_MinMax(VD(b.bbmin,b.bbmin+3),VD(b.bbmax,b.bbmax+3)); sx_check(c.IsActive()==(aa||ba),"union is active when a part is"); if(aa||ba) for(int d=0;d<3;d++){ double lo=aa?(ba?mn(a.bbmin[d],b.bbmin[d]):a.bbmin[d]):b.bbmin[d],hi=aa?(ba?mx(a.bbmax[d],b.bbmax[d]):a.bbmax[d]):b.bbmax[d]; sx_eq(c.bbmin[d],lo,"union lower corner"); sx_eq(c.bbmax[d],hi,"union upper corner"); } if(aa||ba) sx_check(c.IsInclude_AABB3(a)&&c.IsInclude_AABB3(b),"union includes both boxes"); }
SX_ENTRY(aabb_predicates){ BB a=box("a",false),b=box("b",false); int d=sx_choose("dim",3); for(int k=0;k<3;k++) if(k!=d&&!T){ b.bbmin[k]=a.bbmin[k]; b.bbmax[k]=a.bbmax[k]+1; } bool ov=true,in=true; for(int k=0;k<3;k++){ ov=ov&(mx(a.bbmin[k],b.bbmin[k])<=mn(a.bbmax[k],b.bbmax[k])); in=in&(b.bbmin[k]<=a.bbmin[k])&(a.bbmax[k]<=b.bbmax[k]); } sx_check(a.IsIntersect(b)==ov,"boxes intersect when every interval does"); sx_check(b.IsIntersect(a)==ov,"intersection is symmetric"); sx_check(b.IsInclude_AABB3(a)==in,"inclusion"); BB e; sx_check(!a.IsIntersect(e)&&!e.IsIntersect(a)&&a.IsInclude_AABB3(e)&&!e.IsInclude_AABB3(a),"an inactive box intersects nothing and is included"); double m=0; for(int k=0;k<3;k++) m=mx(m,a.bbmax[k]-a.bbmin[k]); sx_eq(a.MaxLength(),m,"longest side"); double l=a.DiagonalLength(); double s=0; for(int k=0;k<3;k++) s+=(a.bbmax[k]-a.bbmin[k])*(a.bbmax[k]-a.bbmin[k]); sx_eq(l*l,s,"diagonal length"); VD c=a.Center(),v=a.AABBVec3(); for(int k=0;k<3;k++){ sx_eq(c[k]*2,a.bbmin[k]+a.bbmax[k],"centre point"); sx_check(v[2*k]==a.bbmin[k]&&v[2*k+1]==a.bbmax[k],"vector form"); } BB f(v),g(VD(a.bbmin,a.bbmin+3),VD(a.bbmax,a.bbmax+3)),h(a.bbmin,a.bbmax),i,j; i.Set_AABBVec3(v); j.Set_MinMax(VD(a.bbmin,a.bbmin+3),VD(a.bbmax,a.bbmax+3)); for(int k=0;k<3;k++) for(BB*p:{&f,&g,&h,&i,&j}) sx_check(p->bbmin[k]==a.bbmin[k]&&p->bbmax[k]==a.bbmax[k],"constructors agree"); VD P=a.Point3D_Vox(); for(int k=0;k<8;k++) for(int x=0;x<3;x++) sx_check(P[3*k+x]==((k>>x)&1?a.bbmax[x]:a.bbmin[x]),"corner points"); }
SX_ENTRY(aabb_distance){ BB a; double lo=R("lo"),w=sx_real_in("w",0,5); int d=sx_choose("dim",3); for(int k=0;k<3;k++){ a.bbmin[k]=k==d?lo:1; a.bbmax[k]=k==d?lo+w:3; } double p[3]; for(int k=0;k<3;k++) p[k]=k==d?R("p"):(T||k==(d+1)%3?R("q"):2.5); double s=0; bool in=true; for(int k=0;k<3;k++){ double e=mx(mx(a.bbmin[k]-p[k],p[k]-a.bbmax[k]),0); s+=e*e; in=in&(p[k]>=a.bbmin[k])&(p[k]<=a.bbmax[k]); } double D=a.MinimumDistance(p[0],p[1],p[2]); sx_eq(D*D,s,"distance to the box"); sx_check(a.isInclude_Point(p[0],p[1],p[2])==in,"point inclusion"); BB e; sx_check(!e.isInclude_Point(p[0],p[1],p[2]),"an inactive box includes no point"); }
// spheres: centres on a line with a rational unit direction, any radii and spacing
static const double U[3][3]={{1./3,2./3,2./3},{0,0.6,-0.8},{1,0,0}};
static SP sphere(double t,double r,int u,const double o[3]){ SP s; s.r=r; for(int k=0;k<3;k++) s.c[k]=o[k]+t*U[u][k]; return s; }
static double D2(const double*a,const double*b){ double s=0; for(int k=0;k<3;k++) s+=(a[k]-b[k])*(a[k]-b[k]); return s; }
SX_ENTRY(sphere_add){ int u=sx_choose("dir",T?3:2); double o[3]={1,-2,0.5}; double t=R("t"),r=sx_real_in("r",0,6),q=sx_real_in("q",-1,6); SP a=sphere(0,r,u,o),b=sphere(t,q,u,o),c=a; if(sx_choose("plus",2)) c+=b; else c.AddPoint(b.c,q); if(q<0){ sx_check(c.r==a.r&&c.c[0]==a.c[0]&&c.c[1]==a.c[1]&&c.c[2]==a.c[2],"adding an inactive sphere changes nothing"); return; } sx_check(c.IsActive(),"union is active"); sx_le(a.r,c.r,"union is not smaller"); sx_le(b.r,c.r,"union is not smaller than the added sphere"); double e=1e-9; sx_le(D2(a.c,c.c),(c.r-a.r+e)*(c.r-a.r+e),"union contains the old sphere"); sx_le(D2(b.c,c.c),(c.r-b.r+e)*(c.r-b.r+e),"union contains the added sphere"); sx_le(c.r,mx(mx(r,q),(fabs(t)+r+q)*0.5)+1e-4*(r+q)+e,"union is tight"); SP z; sx_check(!z.IsActive(),"default sphere is inactive"); z.AddPoint(b.c,q); sx_check(z.r==q&&z.c[0]==b.c[0]&&z.c[1]==b.c[1]&&z.c[2]==b.c[2],"first sphere is taken over"); z.Set_Inactive(); sx_check(!z.IsActive(),"inactive after reset"); }
SX_ENTRY(sphere_predicates){ int u=sx_choose("dir",T?3:2); double o[3]={1,-2,0.5}; double t=R("t"),r=sx_real_in("r",0,6),q=sx_real_in("q",0,6); SP a=sphere(0,r,u,o),b=sphere(t,q,u,o); double L=fabs(t); sx_check(a.IsIntersect(b)==(L<=r+q),"spheres intersect when centres are close"); sx_check(a.IsInclude(b,0.25)==(L+q<=r+0.25),"sphere inclusion with margin"); sx_assume((L-r>1e-6)|(r-L>1e-6)); sx_check(a.isInclude_Point(b.c[0],b.c[1],b.c[2])==(L<r),"point inclusion"); double m0=1,m1=-1; a.Range_DistToPoint(m0,m1,b.c[0],b.c[1],b.c[2]); sx_eq(m0,L<r?0:L-r,"nearest distance to the sphere"); sx_eq(m1,L+r,"farthest distance to the sphere"); SP z; m0=7; m1=-7; z.Range_DistToPoint(m0,m1,0,0,0); sx_check(m0==7&&m1==-7,"an inactive sphere gives no range"); }
SX_ENTRY(sphere_line){ double o[3]={1,-2,0.5}; double r=sx_real_in("r",0,6); SP a=sphere(0,r,0,o); static const double DIR[3][3]={{3,0,0},{1,2,2},{0,-3,4}}; static const double NOR[3][3]={{0,1,0},{0,1,-1},{1,0,0}}; static const double NL2[3]={1,2,1}; int k=sx_choose("dir",3); double h=R("h"),s=R("s"); double src[3]; for(int i=0;i<3;i++) src[i]=o[i]+h*NOR[k][i]+s*DIR[k][i]; double hh=h*h*NL2[k]; double dl2=D2(DIR[k],U[2])*0; for(int i=0;i<3;i++) dl2+=DIR[k][i]*DIR[k][i]; sx_check(a.IsIntersectLine(src,DIR[k])==(hh<=r*r),"line within the radius"); bool in=hh+s*s*dl2<=r*r; sx_check(a.IsIntersectRay(src,DIR[k])==(in|((hh<=r*r)&(s<=0))),"ray from the source"); }
SX_ENTRY(sphere_points4){ sx_opt("check_ms",8000); double t=R("t"),cc=sx_real_in("cc",0,2); double p[4][3]={{0,0,0},{t,0,0},{1,2,0},{1,1,-3}}; SP s; s.SetPoints4(p[0],p[1],p[2],p[3],cc); for(auto&q:p){ sx_le(cc,s.r,"radius includes the clearance"); sx_le(D2(q,s.c),(s.r-cc)*(s.r-cc)+1e-9,"all points inside with clearance"); } bool any=false; for(auto&q:p) any=any|(D2(q,s.c)>=(s.r-cc)*(s.r-cc)-1e-6); sx_check(any,"radius is attained"); for(int k=0;k<3;k++) sx_eq(s.c[k]*4,p[0][k]+p[1][k]+p[2][k]+p[3][k],"centre is the mean"); }
SX_ENTRY(box2){ typedef dfm2::CBoundingBox2<double> B2; int n=1+sx_choose("n",3); B2 a; sx_check(!a.isActive(),"empty box is inactive"); double lo[2],hi[2]; for(int i=0;i<n;i++){ double x=R("x"),y=R("y"); a.Add(x,y); lo[0]=i?mn(lo[0],x):x; hi[0]=i?mx(hi[0],x):x; lo[1]=i?mn(lo[1],y):y; hi[1]=i?mx(hi[1],y):y; } sx_check(a.isActive(),"active"); sx_check(a.x_min==lo[0]&&a.x_max==hi[0]&&a.y_min==lo[1]&&a.y_max==hi[1],"box of the points"); double q=R("q"),w=sx_real_in("w",0,4); B2 b(q,q+w,1,2); double cl=sx_real_in("cl",0,2); sx_check(a.IsIntersect(b,cl)==(((q<=hi[0]+cl)&(q+w>=lo[0]-cl))&((1<=hi[1]+cl)&(2>=lo[1]-cl))),"overlap with clearance"); B2 c=a,e; c+=b; sx_check(c.x_min==mn(lo[0],q)&&c.x_max==mx(hi[0],q+w)&&c.y_min==mn(lo[1],1)&&c.y_max==mx(hi[1],2),"union"); c=e; c+=b; sx_check(c.x_min==q&&c.x_max==q+w&&c.y_min==1&&c.y_max==2,"union with an empty box"); c=b; c+=e; sx_check(c.x_min==q&&c.x_max==q+w,"union with nothing"); double rad=sx_real_in("rad",0,3); dfm2::CVec2d ctr(R("px"),R("py")); double ex=mx(mx(lo[0]-ctr.x,ctr.x-hi[0]),0),ey=mx(mx(lo[1]-ctr.y,ctr.y-hi[1]),0); sx_check(a.IsIntersectSphere(ctr,rad)==((ex<=rad)&(ey<=rad)),"disc box overlap"); sx_check(!e.IsIntersectSphere(ctr,rad),"an empty box touches nothing"); VD m=a.MinMaxXYZ(); sx_check(m.size()==6&&m[0]==lo[0]&&m[1]==hi[0]&&m[2]==lo[1]&&m[3]==hi[1]&&m[4]==0&&m[5]==0,"vector form"); }
struct V3 { typedef double Scalar; enum { SizeAtCompileTime=3 }; double p[3]; double operator[](int i) const { return p[i]; } };
SX_ENTRY(origin_contact){ double d=sx_real_in("d",0,2); int dim=sx_choose("dim",3); V3 q[6]; for(int i=0;i<6;i++) for(int k=0;k<3;k++) q[i].p[k]=k==dim?R("q"):(i==0&&k==(dim+1)%3?R("r"):(i%2?1:-1)); auto ref=[&](int n){ bool in=true; for(int k=0;k<3;k++){ double lo=q[0][k],hi=lo; for(int i=1;i<n;i++){ lo=mn(lo,q[i][k]); hi=mx(hi,q[i][k]); } in=in&(lo<=d)&(hi>=-d); } return in; }; sx_check(dfm2::IsContact_Orgin_AabbOfPoint3(q[0],q[1],q[2],d)==ref(3),"three points"); sx_check(dfm2::IsContact_Orgin_AabbOfPoint4(q[0],q[1],q[2],q[3],d)==ref(4),"four points"); sx_check(dfm2::IsContact_Orgin_AabbOfPoint5(q[0],q[1],q[2],q[3],q[4],d)==ref(5),"five points"); sx_check(dfm2::IsContact_Orgin_AabbOfPoint6(q[0],q[1],q[2],q[3],q[4],q[5],d)==ref(6),"six points"); }
