// C07: planar and spatial convex hulls
#include "sx.h"
#include <vector>
#include <map>
#include <climits>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_convhull2.h"
#include "delfem2/geo_convhull3.h"
namespace dfm2=delfem2; typedef dfm2::CVec2d V2; typedef dfm2::CVec3d V3; typedef std::vector<unsigned> VU; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("check_ms",10000); sx_opt("max_steps",3000000); sx_opt("steps_are_violation",1); }
static double cr(const V2&a,const V2&b,const V2&c){ return (b.p[0]-a.p[0])*(c.p[1]-a.p[1])-(b.p[1]-a.p[1])*(c.p[0]-a.p[0]); }
static void check2(const std::vector<V2>&p){ VU h; dfm2::ConvexHull2<V2>(h,p); bool in=true; for(unsigned i:h) in=in&(i<p.size()); sx_check(in,"indices in range"); if(!in) return; if(h.size()>1&&h.front()==h.back()) h.pop_back(); int m=h.size(); sx_check(m>=3,"at least three corners"); if(m<3) return; for(int i=0;i<m;i++) for(int j=i+1;j<m;j++) sx_check(h[i]!=h[j],"corners are distinct"); for(int i=0;i<m;i++){ const V2&a=p[h[i]],&b=p[h[(i+1)%m]],&c=p[h[(i+2)%m]]; sx_check(cr(a,b,c)>0,"strictly convex, counter-clockwise"); for(auto&q:p) sx_check(cr(a,b,q)>=0,"every point is inside"); } }
// points of which one moves on a line; nearly (but not exactly) collinear triples are left out
static bool near0(double a){ return (a<0.05)&(a>-0.05)&((a>0)|(a<0)); }
static const double L2[6][7][2]={{{0,0},{4,0},{4,4},{0,4},{2,2},{1,3},{3,1}},{{0,0},{1,0},{2,0},{0,1},{1,1},{2,1},{0,2}},{{-2,-2},{-1,-1},{1,1},{2,2},{-2,2},{0,0},{2,-2}},{{0,-3},{3,0},{0,3},{-3,0},{1,1},{-1,-1},{2,1}},{{0,2},{1,2},{2,2},{1,0},{1,1},{3,2},{1,3}},{{-1,5},{4,1},{-3,-2},{2,-3},{5,4},{0,0},{-4,2}}};
SX_ENTRY(hull2){ opt(); int n=3+sx_choose("n",T?5:3),l=sx_choose("layout",6),k=sx_choose("who",T?n:2),ax=sx_choose("axis",2); if(!T&&k==1) k=n-1; std::vector<V2> p; for(int i=0;i<n;i++) p.push_back(V2(L2[l][i][0],L2[l][i][1])); double s=sx_real_in("s",-5,5); p[k].p[ax]=s; bool full=false,bad=false; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ bad=bad|((p[i].p[0]==p[j].p[0])&(p[i].p[1]==p[j].p[1])); double dx=p[i].p[0]-p[j].p[0],dy=p[i].p[1]-p[j].p[1]; bad=bad|(dx*dx+dy*dy<0.01); for(int m=j+1;m<n;m++){ double a=cr(p[i],p[j],p[m]); full=full|(a>0.05)|(a<-0.05); bad=bad|near0(a); } bad=bad|((dy<0.01)&(dy>-0.01)&((dy>0)|(dy<0))); } sx_assume(full&!bad); check2(p); }
SX_ENTRY(hull2_small){ opt(); int n=3; std::vector<V2> p={V2(0,0),V2(3,1),V2(1,2)}; int k=sx_choose("who",3); p[k]=V2(sx_real_in("x",-4,4),sx_real_in("y",-4,4)); (void)n; bool bad=near0(cr(p[0],p[1],p[2]))|(cr(p[0],p[1],p[2])==0); for(int i=0;i<3;i++) for(int j=0;j<i;j++){ double dy=p[i].p[1]-p[j].p[1]; bad=bad|((dy<0.01)&(dy>-0.01)); } sx_assume(!bad); check2(p); }
static double det(const V3&a,const V3&b,const V3&c,const V3&d){ double u[3],v[3],w[3]; for(int k=0;k<3;k++){ u[k]=b.p[k]-a.p[k]; v[k]=c.p[k]-a.p[k]; w[k]=d.p[k]-a.p[k]; } return u[0]*(v[1]*w[2]-v[2]*w[1])+u[1]*(v[2]*w[0]-v[0]*w[2])+u[2]*(v[0]*w[1]-v[1]*w[0]); }
static void check3(const std::vector<V3>&p){ VU t; dfm2::ConvexHull3(t,p); bool in=t.size()%3==0; for(unsigned i:t) in=in&(i<p.size()); sx_check(in,"indices in range"); if(!in) return; sx_check(t.size()>=12,"at least four faces"); std::map<std::pair<unsigned,unsigned>,int> e; for(size_t f=0;f<t.size();f+=3) for(int k=0;k<3;k++) e[{t[f+k],t[f+(k+1)%3]}]++; bool ok=true; for(auto&kv:e) ok=ok&&kv.second==1&&e.count({kv.first.second,kv.first.first})&&kv.first.first!=kv.first.second; sx_check(ok,"closed surface, every directed edge met once by its opposite"); std::map<unsigned,int> used; for(unsigned i:t) used[i]++; sx_check((int)used.size()-(int)e.size()/2+(int)t.size()/3==2,"surface of one ball"); double v=0; for(size_t f=0;f<t.size();f+=3){ for(auto&q:p) sx_check(det(p[t[f]],p[t[f+1]],p[t[f+2]],q)<=0,"every point is inside each face"); v+=det(V3(0,0,0),p[t[f]],p[t[f+1]],p[t[f+2]]); } sx_check(v>0,"outward orientation"); }
static const double L3[5][8][3]={{{0,0,0},{4,0,0},{0,4,0},{0,0,4},{3,3,3},{1,1,1},{-1,2,2},{2,-1,3}},{{0,0,0},{2,0,0},{0,2,0},{0,0,2},{2,2,0},{2,0,2},{0,2,2},{2,2,2}},{{-3,0,0},{3,0,0},{0,-3,0},{0,0,3},{0,3,0},{0,0,-3},{1,1,1},{2,-2,1}},{{1,0,0},{0,1,0},{-1,-1,0},{0,0,2},{0,0,-2},{0,0,1},{3,3,0},{-2,1,1}},{{2,1,5},{-4,2,-1},{3,-3,0},{0,4,2},{-1,-2,4},{5,2,-3},{-3,-4,-2},{1,5,-4}}};
SX_ENTRY(hull3){ opt(); int n=4+sx_choose("n",T?5:4),l=sx_choose("layout",5),sw=sx_choose("swap",2),k=n-1,ax=sx_choose("axis",3); if(T&&sx_choose("who",2)) k=sx_choose("k",n); std::vector<V3> p; for(int i=0;i<n;i++) p.push_back(V3(L3[l][i][0],L3[l][i][1],L3[l][i][2])); if(sw) std::swap(p[0],p[1]); p[k].p[ax]=sx_real_in("s",-6,6); double v=det(p[0],p[1],p[2],p[3]); sx_assume((v>0)|(v<0)); check3(p); }
