// C08: separating-axis and GJK intersection tests, EPA penetration
#include "sx.h"
#include <vector>
#include <climits>
#include <limits>
#include <cassert>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_gjksat2.h"
namespace dfm2=delfem2; typedef dfm2::CVec2d V2; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("check_ms",8000); sx_opt("max_steps",4000000); sx_opt("steps_are_violation",1); sx_opt("float_sqrt",1); }
// the set of translations s*d for which hull(A) meets hull(B+s*d), from all edge normals (concrete numbers)
struct Range{ double lo=-1e9,hi=1e9; bool empty=false; };
static void axis(Range&r,const std::vector<V2>&A,const std::vector<V2>&B,const V2&d,const V2&n){ double a0=1e18,a1=-1e18,b0=1e18,b1=-1e18; for(auto&p:A){ double t=n.p[0]*p.p[0]+n.p[1]*p.p[1]; a0=t<a0?t:a0; a1=t>a1?t:a1; } for(auto&p:B){ double t=n.p[0]*p.p[0]+n.p[1]*p.p[1]; b0=t<b0?t:b0; b1=t>b1?t:b1; } double v=n.p[0]*d.p[0]+n.p[1]*d.p[1]; /* a0<=b1+s v, b0+s v<=a1 */ if(v<0){ v=-v; double x=a0; a0=-a1; a1=-x; x=b0; b0=-b1; b1=-x; } if(v==0){ if(a0>b1||b0>a1) r.empty=true; return; } double l=(a0-b1)/v,h=(a1-b0)/v; if(l>r.lo) r.lo=l; if(h<r.hi) r.hi=h; }
static Range range(const std::vector<V2>&A,const std::vector<V2>&B,const V2&d){ Range r; for(int s=0;s<2;s++){ auto&P=s?A:B; for(size_t i=0;i<P.size();i++) for(size_t j=0;j<i;j++){ V2 n(P[i].p[1]-P[j].p[1],P[j].p[0]-P[i].p[0]); axis(r,A,B,d,n); if(P.size()==2) axis(r,A,B,d,V2(P[i].p[0]-P[j].p[0],P[i].p[1]-P[j].p[1])); } } axis(r,A,B,d,V2(d.p[1],-d.p[0])); if(r.lo>r.hi) r.empty=true; return r; }
static const double SH[7][5][2]={{{0,0},{4,1},{1,3},{9,9}},{{0,0},{3,0},{3,3},{0,3},{9,9}},{{-1,-2},{2,-1},{3,2},{-1,4},{9,9}},{{0,0},{5,1},{9,9}},{{0,0},{2,0},{3,2},{1,4},{-1,2}},{{0,2},{-3,0},{1,-1},{9,9}},{{0,0},{0,4},{9,9}}};
static std::vector<V2> shape(int k,double ox,double oy){ std::vector<V2> p; for(int i=0;i<5&&SH[k][i][0]!=9;i++) p.push_back(V2(SH[k][i][0]+ox,SH[k][i][1]+oy)); return p; }
static const double DIR[4][2]={{1,0},{0,1},{1,0.5},{1,-1}};
static void pose(std::vector<V2>&A,std::vector<V2>&B,V2&d,bool solid){ int a=sx_choose("A",T?(solid?6:7):3),b=sx_choose("B",T?(solid?6:7):(solid?3:4)); static const int Q[4]={2,5,4,3}; if(!T) b=Q[b]; if(solid&&a==3) a=4; if(solid&&b==3) b=5; int k=sx_choose("dir",T?4:3); d=V2(DIR[k][0],DIR[k][1]); A=shape(a,0,0); int o=sx_choose("off",T?3:2); B=shape(b,o==1?1.25:o==2?-0.75:0,o==1?0.5:o==2?2.25:0.25); }
static std::vector<V2> move(const std::vector<V2>&B,const V2&d,double s){ std::vector<V2> r; for(auto&p:B) r.push_back(V2(p.p[0]+s*d.p[0],p.p[1]+s*d.p[1])); return r; }
SX_ENTRY(sat2){ opt(); std::vector<V2> A,B; V2 d; pose(A,B,d,false); Range r=range(A,B,d); double s=sx_real_in("s",-12,12); bool got=dfm2::IsIntersect_Points2_Points2_Sat(A,move(B,d,s)); if(r.empty){ sx_check(!got,"separated shapes do not intersect"); return; } sx_check(got|(s<=r.lo+1e-6)|(s>=r.hi-1e-6),"overlapping shapes intersect"); sx_check(!got|((s>=r.lo-1e-6)&(s<=r.hi+1e-6)),"separated shapes do not intersect"); }
SX_ENTRY(gjk2){ opt(); std::vector<V2> A,B; V2 d; pose(A,B,d,false); Range r=range(A,B,d); double s=sx_real_in("s",-12,12); if(!r.empty) sx_assume(((s>r.lo+1e-3)|(s<r.lo-1e-3))&((s>r.hi+1e-3)|(s<r.hi-1e-3))); std::vector<V2> Bs=move(B,d,s); bool got=dfm2::IsIntersect_Points2_Points2_Gjk(A,Bs); if(r.empty){ sx_check(!got,"separated shapes do not intersect"); return; } sx_check(got==((s>r.lo)&(s<r.hi)),"GJK reports exactly the overlap"); if(!got) return; }
SX_ENTRY(epa2){ opt(); std::vector<V2> A,B; V2 d; pose(A,B,d,true); Range r=range(A,B,d); if(r.empty) return; double s=sx_real_in("s",-12,12); sx_assume((s>r.lo+1e-2)&(s<r.hi-1e-2)); std::vector<V2> Bs=move(B,d,s); V2 n(9,9); bool got=dfm2::Penetration_Points2_Points2_Epa(n,A,Bs,1.0e-5); sx_check(got,"overlap is found"); if(!got) return; double nn=n.p[0]*n.p[0]+n.p[1]*n.p[1]; bool ok=true; for(auto&a:A) for(auto&b:Bs){ double g=n.p[0]*(b.p[0]+n.p[0]-a.p[0])+n.p[1]*(b.p[1]+n.p[1]-a.p[1]); ok=ok&(g>=-1e-3); } sx_check(ok,"moving by the reported vector separates the shapes");
  for(int w=0;w<2;w++){ auto&P=w?A:B; int m=P.size(); for(int i=0;i<m;i++){ double ex=P[(i+1)%m].p[0]-P[i].p[0],ey=P[(i+1)%m].p[1]-P[i].p[1]; double nx=ey,ny=-ex; for(int sg=0;sg<2;sg++){ nx=-nx; ny=-ny; double a1=-1e18,b0=1e18; for(auto&a:A){ double t=nx*a.p[0]+ny*a.p[1]; if(t>a1) a1=t; } for(auto&b:B){ double t=nx*b.p[0]+ny*b.p[1]; if(t<b0) b0=t; } double dep=a1-(b0+s*(nx*d.p[0]+ny*d.p[1])); sx_check(nn*(nx*nx+ny*ny)<=dep*dep+1e-3|dep<0,"no smaller separating move along an edge normal"); } } } }
