// C06: the candidate list of the triangle kd-tree includes a nearest triangle
#include "sx.h"
#include <vector>
#include <limits>
#include "delfem2/vec3.h"
#include "delfem2/srch_kdtree_tri.h"
namespace dfm2=delfem2; typedef dfm2::CVec3d V; typedef std::vector<unsigned> VU; static const int T=SX_TIER;
static double dot(const V&a,const V&b){ return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static V cross(const V&a,const V&b){ return V(a.p[1]*b.p[2]-a.p[2]*b.p[1],a.p[2]*b.p[0]-a.p[0]*b.p[2],a.p[0]*b.p[1]-a.p[1]*b.p[0]); }
static V sub(const V&a,const V&b){ return V(a.p[0]-b.p[0],a.p[1]-b.p[1],a.p[2]-b.p[2]); }
static double seg2(const V&q,const V&a,const V&b){ V d=sub(b,a),e=sub(q,a); double l=dot(d,d),t=dot(d,e); if(sx_fork(t<=0)) return dot(e,e); if(sx_fork(t>=l)){ V f=sub(q,b); return dot(f,f); } return dot(e,e)-t*t/l; }
// squared distance to a triangle
static double tri2(const V&q,const V&a,const V&b,const V&c){ V n=cross(sub(b,a),sub(c,a)); double s0=dot(n,cross(sub(b,a),sub(q,a))),s1=dot(n,cross(sub(c,b),sub(q,b))),s2=dot(n,cross(sub(a,c),sub(q,c))); if(sx_fork((s0>=0)&(s1>=0)&(s2>=0))){ double h=dot(n,sub(q,a)); return h*h/dot(n,n); } double r=seg2(q,a,b),u=seg2(q,b,c),v=seg2(q,c,a); if(sx_fork(u<r)) r=u; if(sx_fork(v<r)) r=v; return r; }
static const double P[12][3]={{0,0,0},{8,0,1},{0,8,-1},{2,2,2},{3,2,2},{2,3,3},{-4,-1,0},{-4,1,5},{-4,0,-5},{1,-6,1},{2,-3,4},{6,-5,0}};
static const unsigned TR[6][3]={{0,1,2},{3,4,5},{6,7,8},{9,10,11},{0,3,9},{5,7,2}};
SX_ENTRY(nearest_triangle){ sx_opt("max_ite",0); sx_opt("check_ms",8000); int n=1+sx_choose("n",T?5:4),rot=sx_choose("rot",n>1?2:1); std::vector<V> p; for(auto&r:P) p.push_back(V(r[0],r[1],r[2])); VU t; for(int i=0;i<n;i++) for(int k=0;k<3;k++) t.push_back(TR[(i+rot)%6][k]); dfm2::KDTTriangle<V> kd(p,t); int w=sx_choose("line",T?6:3); double s=sx_real_in("s",-9,9); static const double O[6][3]={{2.25,2.5,0},{0,1,1},{1,0,0.5},{-2,3,1},{0,0,2},{3,3,3}},D[6][3]={{0,0,1},{1,0,0},{0,1,0},{1,-1,0},{0,1,0.5},{1,1,-1}}; V q(O[w][0]+s*D[w][0],O[w][1]+s*D[w][1],O[w][2]+s*D[w][2]); std::vector<unsigned> c=kd.SearchNearest(q); sx_check(!c.empty(),"some candidate is returned"); std::vector<double> d(n); for(int i=0;i<n;i++) d[i]=tri2(q,p[t[3*i]],p[t[3*i+1]],p[t[3*i+2]]); bool in=true; for(unsigned i:c) in=in&(i<(unsigned)n); sx_check(in,"candidates are triangles"); if(!in) return; bool ok=false; for(unsigned i:c){ bool best=true; for(int j=0;j<n;j++) best=best&(d[i]<=d[j]); ok=ok|best; } sx_check(ok,"a nearest triangle is among the candidates"); }
