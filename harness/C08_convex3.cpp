// C08: separating-axis and GJK intersection tests, EPA penetration, in space
#include "sx.h"
#include <vector>
#include <climits>
#include <limits>
#include <cassert>
#include "delfem2/vec3.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/geo_gjksat3.h"
namespace dfm2=delfem2; typedef dfm2::CVec3d V; typedef std::vector<V> VV; typedef std::vector<unsigned> VU; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("check_ms",8000); sx_opt("max_steps",20000000); sx_opt("steps_are_violation",1); sx_opt("float_sqrt",1); }
struct D3{ double x,y,z; }; static D3 cross(D3 a,D3 b){ return {a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x}; } static D3 sub(const V&a,const V&b){ return {a.p[0]-b.p[0],a.p[1]-b.p[1],a.p[2]-b.p[2]}; } static double dot(D3 n,const V&p){ return n.x*p.p[0]+n.y*p.p[1]+n.z*p.p[2]; }
struct Range{ double lo=-1e9,hi=1e9; bool empty=false; };
static void mm(const VV&A,D3 n,double&a,double&b){ a=1e18; b=-1e18; for(auto&p:A){ double t=dot(n,p); if(t<a)a=t; if(t>b)b=t; } }
static void axis(Range&r,const VV&A,const VV&B,const V&d,D3 n){ if(n.x==0&&n.y==0&&n.z==0) return; double a0,a1,b0,b1; mm(A,n,a0,a1); mm(B,n,b0,b1); double v=dot(n,d); if(v<0){ v=-v; double x=a0; a0=-a1; a1=-x; x=b0; b0=-b1; b1=-x; } if(v==0){ if(a0>b1||b0>a1) r.empty=true; return; } double l=(a0-b1)/v,h=(a1-b0)/v; if(l>r.lo) r.lo=l; if(h<r.hi) r.hi=h; }
static std::vector<D3> normals(const VV&A,const VU&f){ std::vector<D3> r; for(size_t t=0;t<f.size();t+=3) r.push_back(cross(sub(A[f[t+1]],A[f[t]]),sub(A[f[t+2]],A[f[t]]))); return r; }
static std::vector<D3> edges(const VV&A,const VU&f){ std::vector<D3> r; for(size_t t=0;t<f.size();t++){ unsigned i=f[t],j=f[t/3*3+(t+1)%3]; if(i<j) r.push_back(sub(A[j],A[i])); } return r; }
static std::vector<D3> axes(const VV&A,const VU&fa,const VV&B,const VU&fb,const V&d){ auto r=normals(A,fa),n=normals(B,fb); r.insert(r.end(),n.begin(),n.end()); auto ea=edges(A,fa),eb=edges(B,fb); D3 dd={d.p[0],d.p[1],d.p[2]}; for(auto&a:ea) for(auto&b:eb) r.push_back(cross(a,b)); (void)dd; return r; }
static const double SH[5][8][3]={{{0,0,0},{4,0,1},{1,4,0},{1,1,3},{99}},{{0,0,0},{3,1,-1},{-2,3,1},{1,-2,4},{99}},{{0,0,0},{2,0,0},{0,2,0},{2,2,0},{0,0,2},{2,0,2},{0,2,2},{2,2,2}},{{2,0,0},{-2,0,1},{0,3,0},{0,-2,0},{1,1,3},{0,0,-2},{99}},{{-1,-3,0},{5,1,1},{0,0,2},{0,2,-1},{99}}};
static VV shape(int k,double ox,double oy,double oz){ VV p; for(int i=0;i<8&&SH[k][i][0]!=99;i++) p.push_back(V(SH[k][i][0]+ox,SH[k][i][1]+oy,SH[k][i][2]+oz)); return p; }
static const double DIR[4][3]={{1,0,0},{0,0.5,1},{1,1,-0.5},{0,1,0}};
static int cA,cB; static void pose(VV&A,VU&fa,VV&B,VU&fb,V&d,bool big){ static const int Q[6]={0,4,2,1,3,2}; cA=sx_choose("A",T?5:(big?3:2)); cB=sx_choose("B",T?5:2); int a=Q[cA],b=Q[T?cB:3+cB]; if(!T&&!big&&b==3) b=4; int k=sx_choose("dir",T?4:(big?2:1)),o=sx_choose("off",T?3:2); d=V(DIR[k][0],DIR[k][1],DIR[k][2]); A=shape(a,0,0,0); B=shape(b,o==1?1.25:o==2?-0.75:0.0,o==1?0.5:o==2?1.25:0.375,o==1?-0.75:o==2?0.5:0.25); dfm2::ConvexHull3(fa,A); dfm2::ConvexHull3(fb,B); }
static VV move(const VV&B,const V&d,double s){ VV r; for(auto&p:B) r.push_back(V(p.p[0]+s*d.p[0],p.p[1]+s*d.p[1],p.p[2]+s*d.p[2])); return r; }
static Range range(const VV&A,const VU&fa,const VV&B,const VU&fb,const V&d){ Range r; for(auto&n:axes(A,fa,B,fb,d)) axis(r,A,B,d,n); if(r.lo>r.hi) r.empty=true; return r; }
SX_ENTRY(sat3){ opt(); VV A,B; VU fa,fb; V d; pose(A,fa,B,fb,d,true); Range r=range(A,fa,B,fb,d); double s=sx_real_in("s",-12,12); bool got=dfm2::IsIntersect_Points3_Points3_Sat(A,fa,move(B,d,s),fb); if(r.empty){ sx_check(!got,"separated shapes do not intersect"); return; } sx_check(got|(s<=r.lo+1e-6)|(s>=r.hi-1e-6),"overlapping shapes intersect"); sx_check(!got|((s>=r.lo-1e-6)&(s<=r.hi+1e-6)),"separated shapes do not intersect"); }
SX_ENTRY(gjk3){ opt(); VV A,B; VU fa,fb; V d; pose(A,fa,B,fb,d,true); Range r=range(A,fa,B,fb,d); double s=sx_real_in("s",-12,12); if(!r.empty) sx_assume(((s>r.lo+1e-2)|(s<r.lo-1e-2))&((s>r.hi+1e-2)|(s<r.hi-1e-2))); bool got=dfm2::IsIntersect_Points3_Points3_Gjk(A,move(B,d,s)); if(r.empty){ sx_check(!got,"separated shapes do not intersect"); return; } sx_check(got==((s>r.lo)&(s<r.hi)),"GJK reports exactly the overlap"); }
SX_ENTRY(epa3){ opt(); VV A,B; VU fa,fb; V d; pose(A,fa,B,fb,d,false); Range r=range(A,fa,B,fb,d); if(r.empty) return; double s=sx_real_in("s",-12,12); sx_assume((s>r.lo+2e-2)&(s<r.hi-2e-2)); VV Bs=move(B,d,s); V n(9,9,9); bool got=dfm2::Penetration_Points3_Points3_Epa(n,A,Bs,1.0e-5); sx_check(got,"overlap is found"); if(!got) return; bool ok=true; for(auto&a:A) for(auto&b:Bs){ double g=0; for(int k=0;k<3;k++) g+=n.p[k]*(b.p[k]+n.p[k]-a.p[k]); ok=ok&(g>=-1e-3); } sx_check(ok,"moving by the reported vector separates the shapes"); double nn=n.p[0]*n.p[0]+n.p[1]*n.p[1]+n.p[2]*n.p[2]; for(auto m:axes(A,fa,B,fb,d)){ double l=m.x*m.x+m.y*m.y+m.z*m.z; if(l==0) continue; double a0,a1,b0,b1; mm(A,m,a0,a1); mm(B,m,b0,b1); double v=s*dot(m,d); double u=a1-b0-v,w=b1+v-a0; sx_check((nn*l<=u*u+1e-3*l)|(u<0),"no smaller separating move"); sx_check((nn*l<=w*w+1e-3*l)|(w<0),"no smaller separating move"); } }
