// C05: searching a bounding volume hierarchy gives the brute-force answer
#include "sx.h"
#include <vector>
#include <set>
#include <climits>
#include <algorithm>
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_selfintersection_bvh.h"
namespace dfm2=delfem2; typedef dfm2::CBV3d_AABB BB; typedef dfm2::CBV3d_Sphere SP; typedef std::vector<double> VD; typedef std::vector<unsigned> VU; typedef std::vector<dfm2::CNodeBVH2> VN;
static const int T=SX_TIER; static const unsigned N=UINT_MAX;
static void opt(){ sx_opt("max_ite",0); sx_opt("check_ms",6000); }
static VN tree(int n,int rot=1){ VU id(n),mc(n); int w=sx_choose("shape",n<3?1:3); for(int i=0;i<n;i++){ id[i]=(i+rot)%n; mc[i]=w==0?i:w==1?(1u<<i):5; } VN b; if(n==1){ b.resize(1); b[0].iparent=N; b[0].ichild[0]=0; b[0].ichild[1]=N; return b; } dfm2::BVHTopology_Morton(b,id,mc); return b; }
static const double FX[5][3]={{0,0,0},{4,1,0},{-3,2,0},{1,-4,0},{2,2,0}};
// points: one symbolic point on a line among fixed ones
static VD points(int n){ VD x; double s=sx_real_in("s",-6,6); int l=sx_choose("line",T?3:2); for(int i=0;i<n;i++) for(int k=0;k<3;k++) x.push_back(i==0?(l==0?(k==0?s:(k==1?1:0)):l==1?(k==1?s:0):(k==2?0:s)):FX[i][k]); return x; }
static VU sorted(VU a){ std::sort(a.begin(),a.end()); return a; }
SX_ENTRY(include_point){ opt(); int n=1+sx_choose("n",T?4:3); VN b=tree(n); VD x=points(n); double e=sx_choose("margin",2)?0:0.75; std::vector<BB> bb; VU tri; for(int i=0;i<n;i++){ tri.push_back(i); tri.push_back(n+i); } for(int i=0;i<n;i++) for(int k=0;k<3;k++) x.push_back(k<2?1.0-i:0); dfm2::CLeafVolumeMaker_Mesh<BB,double> lvm(e,x.data(),2*n,tri.data(),n,2); dfm2::BVH_BuildBVHGeometry(bb,0,b,lvm); for(unsigned i=0;i<b.size();i++) if(b[i].ichild[1]!=N) sx_check(bb[i].IsInclude_AABB3(bb[b[i].ichild[0]])&&bb[i].IsInclude_AABB3(bb[b[i].ichild[1]]),"branch volume includes its children"); double q[3]={sx_real_in("qx",-6,6),sx_choose("qy",2)?1.0:0.25,0}; VU r,ref; dfm2::BVH_GetIndElem_Predicate(r,dfm2::CIsBV_IncludePoint<BB>(q),0,b,bb); for(int i=0;i<n;i++){ bool in=true; for(int k=0;k<3;k++){ double u=x[3*i+k],v=x[3*(n+i)+k]; in=in&(q[k]>=std::min(u,v)-e)&(q[k]<=std::max(u,v)+e); } if(sx_fork(in)) ref.push_back(i); } sx_check(sorted(r)==ref,"same elements as the exhaustive scan"); }
static void build(std::vector<SP>&bb,const VN&b,const VD&x,int n){ dfm2::CLeafVolumeMaker_Point<SP,double> lvm(x.data(),n); dfm2::BVH_BuildBVHGeometry(bb,0,b,lvm); }
static double D2(const double*a,const double*b){ double s=0; for(int k=0;k<3;k++) s+=(a[k]-b[k])*(a[k]-b[k]); return s; }
SX_ENTRY(nearest_point){ opt(); int n=1+sx_choose("n",T?3:2); VN b=tree(n); VD x={sx_real_in("s",-6,6),1,0,4,1,0}; if(n>2) x.insert(x.end(),{-3,1,0}); if(n>3) x.insert(x.end(),{1,1,0}); std::vector<SP> bb; if(sx_choose("rebuild",2)){ VD y=x; for(auto&v:y) v=1; build(bb,b,y,n); } build(bb,b,x,n); double q[3]={1,0.5,2}; if(sx_choose("onpoint",2)&&n>1) for(int k=0;k<3;k++) q[k]=FX[1][k]; unsigned ip=77; double d=-1; dfm2::BVH_IndPoint_NearestPoint(ip,d,q,0,b,bb); sx_check(ip<(unsigned)n,"a point is found"); if(ip>=(unsigned)n) return; sx_eq(d*d,D2(q,&x[3*ip]),"distance to the reported point"); for(int i=0;i<n;i++) sx_le(d*d,D2(q,&x[3*i]),"no point is nearer"); double a0=1,a1=-1; dfm2::BVH_Range_DistToNearestPoint(a0,a1,q,0,b,bb); sx_le(a0*a0,d*d,"range starts below the nearest distance"); sx_le(d*d,a1*a1,"range ends above the nearest distance"); }
SX_ENTRY(nearest_range){ opt(); VN b=tree(3); std::vector<SP> bb(5); double q[3]={1,0,0}; double c[3][3]={{sx_real_in("s",-6,6),0,0},{1,sx_real_in("t",-6,6),0},{1,1.5,-2}}; double r[3]={sx_choose("r0",2)*0.5,sx_real_in("r",0,3),0.25}; double lo=1e9,hi=1e9; bool off=sx_choose("inactive",2); for(unsigned i=0;i<5;i++){ if(b[i].ichild[1]!=N){ bb[i].r=30; continue; } int o=b[i].ichild[0]; if(off&&o==2) continue; bb[i].r=r[o]; for(int k=0;k<3;k++) bb[i].c[k]=c[o][k]; double m0=1,m1=-1; bb[i].Range_DistToPoint(m0,m1,q[0],q[1],q[2]); lo=std::min(lo,m0); hi=std::min(hi,m1); } double a0=1,a1=-1; dfm2::BVH_Range_DistToNearestPoint(a0,a1,q,0,b,bb); sx_eq(a0,lo,"range starts at the nearest leaf volume"); sx_eq(a1,hi,"range ends at the tightest leaf bound"); }
SX_ENTRY(inside_range){ opt(); int n=2+sx_choose("n",T?2:1); VN b=tree(n); VD x=points(n); std::vector<SP> bb; build(bb,b,x,n); double q[3]={1,0.5,2}; double lo=sx_choose("lo",3)*1.5,hi=lo+sx_choose("w",2)*1.25; VU r,ref; for(int i=0;i<n;i++){ double d=D2(q,&x[3*i]); sx_assume(((d>lo*lo+1e-3)|(d<lo*lo-1e-3))&((d>hi*hi+1e-3)|(d<hi*hi-1e-3))); } dfm2::BVH_GetIndElem_Predicate(r,dfm2::CIsBV_InsideRange<SP>(q,lo,hi),0,b,bb); for(int i=0;i<n;i++){ double d=D2(q,&x[3*i]); if(sx_fork((d>=lo*lo)&(d<=hi*hi))) ref.push_back(i); } sx_check(sorted(r)==ref,"same points as the exhaustive scan"); }
SX_ENTRY(line_ray){ opt(); int n=2; VN b=tree(n); VD x={sx_real_in("s",-6,6),1,0,4,1,0}; std::vector<SP> bb; VU pt={0,1}; dfm2::CLeafVolumeMaker_Mesh<SP,double> lvm(0.25,x.data(),2,pt.data(),2,1); dfm2::BVH_BuildBVHGeometry(bb,0,b,lvm); int w=sx_choose("dir",T?3:2); double src[3]={-1,-1,-2},dir[3]={w==1?0.0:1.0,1,w==2?0.0:1.0}; VU l,r; dfm2::BVH_GetIndElem_Predicate(l,dfm2::CIsBV_IntersectLine<SP,double>(src,dir),0,b,bb); dfm2::BVH_GetIndElem_Predicate(r,dfm2::CIsBV_IntersectRay<SP>(src,dir),0,b,bb); double dd=dir[0]*dir[0]+dir[1]*dir[1]+dir[2]*dir[2];
  for(int i=0;i<2;i++){ bool inl=std::find(l.begin(),l.end(),(unsigned)i)!=l.end(),inr=std::find(r.begin(),r.end(),(unsigned)i)!=r.end(); const double*p=&x[3*i]; double t=0; for(int k=0;k<3;k++) t+=(p[k]-src[k])*dir[k]; double h=D2(p,src)*dd-t*t; sx_check(inl|(h>0.0624*dd),"line near a point is not missed"); sx_check(!inl|(h<0.0626*dd),"line away from a point is not reported"); sx_check(inr|(h>0.0624*dd)|(t<0),"ray near a point is not missed"); sx_check(inl||!inr,"ray candidates are line candidates"); } }
// proximity search over two triangles: every vertex-face and edge-edge pair in contact is found
SX_ENTRY(proximity){ opt(); double h=sx_real_in("h",-1,1),sh=T?sx_choose("shift",4)*0.75-0.5:-0.5; VD x={0,0,0, 4,0,0, 0,4,0, 0,0,0,0,0,0,0,0,0}; int pose=sx_choose("pose",2); double P[2][9]={{1+sh,1,h, 5,6,h+2, 6,5,h+2},{1,-1+sh,h, 1,3,h+0.25, -3,1,h+3}}; for(int i=0;i<9;i++) x[9+i]=P[pose][i]; x.insert(x.end(),{20,20,20, 21,20,20, 20,21,20}); static const unsigned TP[3][9]={{0,1,2,3,4,5,6,7,8},{3,4,5,6,7,8,0,1,2},{6,7,8,0,1,2,3,4,5}}; int tp=sx_choose("order",3); VU tri(TP[tp],TP[tp]+9); VN b=tree(3,sx_choose("rot",T?3:2)); double delta=0.125; std::vector<BB> bb; dfm2::CLeafVolumeMaker_Mesh<BB,double> lvm(delta,x.data(),9,tri.data(),3,3); dfm2::BVH_BuildBVHGeometry(bb,0,b,lvm); std::set<dfm2::CContactElement> s; dfm2::GetContactElement_Proximity(s,delta,x,tri,0,b,bb);
  auto P3=[&](int i){ return dfm2::CVec3d(x[3*i],x[3*i+1],x[3*i+2]); }; unsigned cnt=0; bool bad=false; auto has=[&](bool fv,int a,int c,int d,int e){ dfm2::CContactElement k(fv,a,c,d,e); for(auto&m:s) if(m.is_fv==k.is_fv&&m.ino0==k.ino0&&m.ino1==k.ino1&&m.ino2==k.ino2&&m.ino3==k.ino3) return true; return false; };
  for(int f=0;f<2;f++) for(int v=0;v<3;v++){ int a=f*3,k=(1-f)*3+v; if(f==0||v==0){ // distance from a vertex to the plane z=0 triangle, by definition
      if(f==0){ double px=x[3*k],py=x[3*k+1],pz=x[3*k+2]; bool near=(fabs(pz)<=delta-1e-3)&(px>0.01)&(py>0.01)&(px+py<3.99); bool far=(fabs(pz)>delta+1e-3)|(px< -0.01)|(py< -0.01)|(px+py>4.01); bool got=has(true,a,a+1,a+2,k); if(sx_fork(near)) sx_check(got,"vertex close to a face is found"); if(sx_fork(far)) sx_check(!got,"vertex away from a face is not reported"); } } }
  for(int i=0;i<3;i++) for(int j=0;j<3;j++){ int a=i,c=(i+1)%3,d=3+j,e=3+(j+1)%3; bool want=dfm2::IsContact_Edge3_Edge3_Proximity(a,c,d,e,P3(a),P3(c),P3(d),P3(e),delta); sx_check(has(false,a,c,d,e)==want,"edge pairs in contact are found"); } sx_observe_i("n",s.size()); }
SX_ENTRY(contact_set){ int a[4],k=0; int perm=sx_choose("perm",24); int p[4]={0,1,2,3}; for(int i=0;i<perm;i++) std::next_permutation(p,p+4); for(int i=0;i<4;i++) a[i]=p[i]*2+1; (void)k; std::set<dfm2::CContactElement> s; s.insert(dfm2::CContactElement(true,a[0],a[1],a[2],a[3])); s.insert(dfm2::CContactElement(false,a[0],a[1],a[2],a[3])); sx_check(s.size()==2,"vertex-face and edge-edge contacts are kept apart"); s.insert(dfm2::CContactElement(true,a[2],a[0],a[1],a[3])); s.insert(dfm2::CContactElement(true,a[1],a[0],a[2],a[3])); s.insert(dfm2::CContactElement(false,a[2],a[3],a[0],a[1])); s.insert(dfm2::CContactElement(false,a[1],a[0],a[3],a[2])); sx_check(s.size()==2,"the same contact is stored once"); s.insert(dfm2::CContactElement(true,a[0],a[1],a[3],a[2])); s.insert(dfm2::CContactElement(false,a[0],a[2],a[1],a[3])); sx_check(s.size()==4,"different contacts are kept"); }
