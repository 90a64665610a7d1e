// C27: iso-level slicing of triangle meshes
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <vector>
#include <set>
#include <algorithm>
#include "delfem2/slice.h"
#include "delfem2/msh_topology_uniform.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef std::vector<U> VU; typedef std::vector<double> VD;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",40000000); }
struct M{ int n; bool closed; VU t; };
static const std::vector<M>&meshes(){ static std::vector<M> L={ {4,true,{0,2,1,0,1,3,1,2,3,2,0,3}}, {6,true,{0,1,2,0,2,3,0,3,4,0,4,1,5,2,1,5,3,2,5,4,3,5,1,4}}, {4,false,{0,1,2,2,1,3}}, {5,false,{0,1,4,1,2,4,2,3,4,3,0,4}}, {6,false,{0,1,3,1,4,3,1,2,4,2,5,4}}, {6,false,{0,1,3,1,4,3,1,2,4,2,5,4,2,0,5,0,3,5}}, {7,true,{0,1,5,1,2,5,2,3,5,3,4,5,4,0,5,1,0,6,2,1,6,3,2,6,4,3,6,0,4,6}}, {8,true,{0,2,1,0,1,3,1,2,3,2,0,3,4,6,5,4,5,7,5,6,7,6,4,7}} }; return L; }
static VU adj(const M&m){ VU s; dfm2::ElSuEl_MeshElem(s,m.t.data(),m.t.size()/3,dfm2::MESHELEM_TRI,m.n); return s; }
// height of the point of a segment end, which edge (two corners) it lies on
static void end_ok(const M&m,const VD&h,double lev,int tri,int ed,double r){ sx_check(ed>=0&&ed<3,"edge of the triangle"); double a=h[m.t[tri*3+(ed+1)%3]],b=h[m.t[tri*3+(ed+2)%3]]; sx_le(0,r,"ratio in [0,1]"); sx_le(r,1,"ratio in [0,1]"); sx_eq((1-r)*a+r*b,lev,"end of the segment lies on the level"); }
static bool above(double h,double l){ return sx_fork(h>=l); }
// which vertices are (weakly) above; forks once per vertex
static std::vector<char> sides(const VD&h,double l){ std::vector<char> s(h.size()); for(size_t i=0;i<h.size();i++) s[i]=above(h[i],l); return s; }
static int cross(const M&m,const std::vector<char>&s,int t){ int c=s[m.t[t*3]]+s[m.t[t*3+1]]+s[m.t[t*3+2]]; return c==1||c==2; }
// loops through the crossed triangles: component id per triangle, -1 when not crossed; open[id]
static std::vector<int> loops(const M&m,const VU&su,const std::vector<char>&s,std::vector<char>&open){ int nt=(int)m.t.size()/3; std::vector<int> c(nt,-1); for(int i=0;i<nt;i++) if(cross(m,s,i)&&c[i]<0){ int id=(int)open.size(); open.push_back(0); std::vector<int> st={i}; c[i]=id; while(!st.empty()){ int t=st.back(); st.pop_back(); for(int e=0;e<3;e++){ if(s[m.t[t*3+(e+1)%3]]==s[m.t[t*3+(e+2)%3]]) continue; U n=su[t*3+e]; if(n==UINT_MAX) open[id]=1; else if(c[n]<0){ c[n]=id; st.push_back(n); } } } } return c; }
static void check_level(const M&m,const VU&su,const VD&h,double lev,int ih,const std::vector<dfm2::CSliceTriMesh>&cs){ auto s=sides(h,lev); std::vector<char> op; auto c=loops(m,su,s,op); std::vector<int> got(op.size(),0); int nt=(int)m.t.size()/3; std::vector<int> used(nt,0); for(auto&k:cs) if(k.IndHeight()==ih){ sx_check(k.aTriInfo.size()>=2,"a loop has several segments"); int n=(int)k.aTriInfo.size(); int id=-1; for(int i=0;i<n;i++){ auto&g=k.aTriInfo[i]; auto&f=k.aTriInfo[(i+1)%n]; sx_check(g.itri>=0&&g.itri<nt,"triangle index in range"); used[g.itri]++; sx_check(c[g.itri]>=0,"triangle of the loop is crossed by the level"); if(i==0){ id=c[g.itri]; sx_check(!op[id],"only closed contours are returned"); got[id]++; } sx_check(c[g.itri]==id,"triangles of a loop are connected"); end_ok(m,h,lev,g.itri,g.iedA,g.r0A); end_ok(m,h,lev,g.itri,g.iedB,g.r0B); sx_check(g.iedA!=g.iedB,"segment joins two edges"); sx_check((int)su[g.itri*3+g.iedB]==f.itri,"next segment continues across the edge"); sx_check((int)su[f.itri*3+f.iedA]==g.itri,"next segment starts on the same edge"); U a=m.t[g.itri*3+(g.iedB+1)%3],b=m.t[g.itri*3+(g.iedB+2)%3],x=m.t[f.itri*3+(f.iedA+1)%3],y=m.t[f.itri*3+(f.iedA+2)%3]; sx_check((a==x&&b==y)||(a==y&&b==x),"next segment starts on the same edge"); sx_eq(a==x?g.r0B:1-g.r0B,f.r0A,"segments meet in the same point"); } } for(size_t i=0;i<op.size();i++) sx_check(got[i]==(op[i]?0:1),"each closed contour is returned once"); for(int i=0;i<nt;i++) sx_check(used[i]==(c[i]>=0&&!op[c[i]]?1:0),"each triangle of a closed contour appears once"); }
SX_ENTRY(heights){ opt(); int b=sx_choose("mesh",T?8:7); const M&m=meshes()[b]; VU su=adj(m); VD h; for(int i=0;i<m.n;i++) h.push_back(sx_real_in(NM("h",i),-8,8)); VD L; L.push_back(sx_real_in("l",-8,8)); std::vector<dfm2::CSliceTriMesh> cs; if(sx_concrete(b)%2) cs.assign(2,dfm2::CSliceTriMesh(0)); dfm2::Slice_MeshTri3D_Heights(cs,L,h,m.t,su); check_level(m,su,h,L[0],0,cs); for(auto&k:cs) sx_check(k.IndHeight()==0,"index of the level"); }
SX_ENTRY(two_levels){ opt(); int b=sx_choose("mesh",T?5:4); static const int W[5]={0,2,1,5,4}; const M&m=meshes()[W[b]]; VU su=adj(m); VD h; for(int i=0;i<m.n;i++) h.push_back(i<4?sx_real_in(NM("h",i),-8,8):(i%2?1.5:-1.25)); VD L={0,1}; if(sx_choose("order",2)) L={1,0}; std::vector<dfm2::CSliceTriMesh> cs; dfm2::Slice_MeshTri3D_Heights(cs,L,h,m.t,su); for(int i=0;i<2;i++) check_level(m,su,h,L[i],i,cs); for(auto&k:cs) sx_check(k.IndHeight()==0||k.IndHeight()==1,"index of the level"); }
// 3D position of the ends
SX_ENTRY(position){ opt(); VD X; for(int i=0;i<9;i++) X.push_back(sx_real_in(NM("x",i),-8,8)); VD h; for(int i=0;i<3;i++) h.push_back(sx_real_in(NM("h",i),-8,8)); double l=sx_real_in("l",-8,8); M m{3,false,{1,2,0}}; auto s=sides(h,l); if(!cross(m,s,0)) return; dfm2::CSegInfo g; g.Initialize(0,m.t.data(),1,h.data(),l); sx_check(g.itri==0,"triangle"); end_ok(m,h,l,0,g.iedA,g.r0A); end_ok(m,h,l,0,g.iedB,g.r0B); double A[3],B[3]; g.Pos3D(A,B,X,m.t); VD X2; for(int i=0;i<3;i++){ X2.push_back(X[i*3]); X2.push_back(X[i*3+1]); } double a[2],b[2]; g.Pos2D(a,b,X2.data(),m.t.data()); for(int d=0;d<3;d++){ auto P=[&](int e,double r){ return (1-r)*X[m.t[(e+1)%3]*3+d]+r*X[m.t[(e+2)%3]*3+d]; }; sx_eq(A[d],P(g.iedA,g.r0A),"position on the edge"); sx_eq(B[d],P(g.iedB,g.r0B),"position on the edge"); if(d<2){ sx_eq(a[d],A[d],"planar position agrees"); sx_eq(b[d],B[d],"planar position agrees"); } } 
  // the higher side lies to a fixed side of A->B seen from the front
  int ia=g.iedA,ib=g.iedB; int o=3-ia-ib; /* vertex shared by both cut edges */ sx_check((ia+1)%3==o||(ia+2)%3==o,"two distinct edges"); bool up=s[m.t[o]]; sx_check(up==((ia+1)%3==ib?false:true)||up==((ib+1)%3==ia),"segments keep the higher side on the same side"); }
SX_ENTRY(contour){ opt(); int b=sx_choose("mesh",T?6:5); const M&m=meshes()[b]; VU su=adj(m); VD h; for(int i=0;i<m.n;i++) h.push_back(sx_real_in(NM("h",i),-8,8)); double l=sx_real_in("l",-8,8); for(int i=0;i<m.n;i++) sx_assume(h[i]>l||h[i]<l); std::vector<dfm2::CSegInfo> S; dfm2::AddContour(S,l,m.t.data(),m.t.size()/3,h.data()); auto s=sides(h,l); int nt=(int)m.t.size()/3; std::vector<int> u(nt,0); for(auto&g:S){ sx_check(g.itri>=0&&g.itri<nt,"triangle index in range"); u[g.itri]++; end_ok(m,h,l,g.itri,g.iedA,g.r0A); end_ok(m,h,l,g.itri,g.iedB,g.r0B); sx_check(g.iedA!=g.iedB,"segment joins two edges"); } for(int i=0;i<nt;i++) sx_check(u[i]==cross(m,s,i),"one segment per crossed triangle"); }
SX_ENTRY(contour_on_vertex){ opt(); const M&m=meshes()[sx_choose("mesh",4)]; VD h; int w=sx_choose("w",m.n); for(int i=0;i<m.n;i++) h.push_back(i==w?0.0:sx_real_in(NM("h",i),-8,8)); for(int i=0;i<m.n;i++) if(i!=w) sx_assume(h[i]>0||h[i]<0); std::vector<dfm2::CSegInfo> S; dfm2::AddContour(S,0,m.t.data(),m.t.size()/3,h.data()); auto s=sides(h,0); int nt=(int)m.t.size()/3; std::vector<int> u(nt,0); for(auto&g:S){ u[g.itri]++; end_ok(m,h,0,g.itri,g.iedA,g.r0A); end_ok(m,h,0,g.itri,g.iedB,g.r0B); } for(int i=0;i<nt;i++){ bool up=false,dn=false; for(int j=0;j<3;j++) if((int)m.t[i*3+j]!=w){ if(s[m.t[i*3+j]]) up=true; else dn=true; } sx_check(u[i]==(up&&dn?1:0),"one segment per triangle that the level enters"); } }
// ------------------------------------------------------------------ connectivity between levels
struct CS{ int h; VU t; int IndHeight()const{ return h; } size_t NumSeg()const{ return t.size(); } U IndTri_Seg(U i)const{ return t[i]; } };
// tubes: nr columns, rows of vertices at increasing heights with caps; levels between the rows in any subset
static M tube(int nr,int rows,bool cap){ M m; m.closed=cap; m.n=nr*rows+(cap?2:0); for(int y=0;y+1<rows;y++) for(int x=0;x<nr;x++){ U a=y*nr+x,b=y*nr+(x+1)%nr,c=a+nr,d=b+nr; for(U v:{a,b,d,a,d,c}) m.t.push_back(v); } if(cap) for(int x=0;x<nr;x++){ U q=(x+1)%nr; for(U v:{(U)(nr*rows),q,(U)x}) m.t.push_back(v); for(U v:{(U)(nr*rows+1),(U)(nr*(rows-1)+x),(U)(nr*(rows-1)+q)}) m.t.push_back(v); } return m; }
SX_ENTRY(reeb_tube){ opt(); int rows=3+sx_choose("rows",T?4:3); bool cap=sx_choose("cap",2); M m=tube(3,rows,cap); VU su=adj(m); VD h(m.n),L; for(int i=0;i<3*rows;i++) h[i]=i/3+sx_real_in(NM("d",i),-0.25,0.25); if(cap){ h[3*rows]=-0.75; h[3*rows+1]=rows-0.25; } for(int y=0;y+1<rows;y++) if(sx_choose(NM("lev",y),2)) L.push_back(y+0.5); std::vector<dfm2::CSliceTriMesh> cs; dfm2::Slice_MeshTri3D_Heights(cs,L,h,m.t,su); sx_check(cs.size()==L.size(),"one loop per level"); for(size_t i=0;i<cs.size();i++) check_level(m,su,h,L[i],(int)i,cs); std::vector<std::set<U>> G; if(sx_choose("stale",2)) G.resize(9,{1}); dfm2::MakeReebGraph(G,cs,m.t,su); sx_check(G.size()==cs.size(),"one node per loop"); for(size_t i=0;i<cs.size();i++){ std::set<U> w; for(size_t j=0;j<cs.size();j++) if(j!=i&&std::abs((int)i-(int)j)==1) w.insert(j); sx_check(G[i]==w,"loops of successive levels are connected along the tube"); } }
// any two loops joined by the graph bound one piece of the surface between levels; the graph is symmetric
SX_ENTRY(reeb_sound){ opt(); int b=sx_choose("mesh",3); static const int W[3]={6,3,7}; M m=b==0?tube(3,3,true):b==1?meshes()[6]:tube(4,3,false); (void)W; VU su=adj(m); VD h(m.n); int nt=(int)m.t.size()/3; VD L={0.5,1.5}; for(int i=0;i<m.n;i++) h[i]=b==0?(i<9?i/3:i==9?0:2):b==1?1:i/4; for(int i=0;i<(T?5:4);i++){ int v=b==0?3+i:b==1?i+(i==3)*3:4+i%4; if(b==1&&i>3) v=3; h[v]=sx_choose(NM("h",i),3); } for(int i=0;i<nt;i++){ int lo=3,hi=0; for(int j=0;j<3;j++){ int q=(int)h[m.t[i*3+j]]; lo=std::min(lo,q); hi=std::max(hi,q); } if(hi-lo>1) return; } double e=sx_real_in("e",-0.25,0.25); L[0]+=e; L[1]-=e; std::vector<dfm2::CSliceTriMesh> cs; dfm2::Slice_MeshTri3D_Heights(cs,L,h,m.t,su); std::vector<std::set<U>> G; dfm2::MakeReebGraph(G,cs,m.t,su); sx_check(G.size()==cs.size(),"one node per loop"); int n=(int)cs.size(); 
  std::vector<int> owner(nt,-1); for(int i=0;i<n;i++) for(auto&g:cs[i].aTriInfo) owner[g.itri]=i; // pieces of the surface in a slab: triangles sharing a vertex of that slab
  std::vector<int> g(m.n); for(int i=0;i<m.n;i++) g[i]=i; for(bool ch=true;ch;){ ch=false; for(int i=0;i<nt;i++) for(int a=0;a<3;a++) for(int c=0;c<3;c++){ U x=m.t[i*3+a],y=m.t[i*3+c]; if(h[x]==h[y]&&g[x]<g[y]){ g[y]=g[x]; ch=true; } } } auto touch=[&](int i,std::set<int>&s){ for(auto&q:cs[i].aTriInfo) for(int j=0;j<3;j++) s.insert(g[m.t[q.itri*3+j]]); }; for(int i=0;i<n;i++) for(U j:G[i]){ sx_check((int)j<n&&(int)j!=i,"node index in range"); sx_check(G[j].count(i)==1,"connectivity is symmetric"); sx_check(std::abs(cs[i].IndHeight()-cs[j].IndHeight())<=1,"connected loops lie on the same or successive levels"); std::set<int> s,t; touch(i,s); touch(j,t); bool c=false; for(int x:s) c|=t.count(x)>0; sx_check(c,"connected loops bound one piece of the surface"); } }
// triangles crossed by several levels
SX_ENTRY(reeb_coarse){ opt(); const M&m=meshes()[0]; VU su=adj(m); VD h={0,0,0,4}; for(int i=0;i<3;i++) h[i]=sx_real_in(NM("h",i),-1,0.25); int n=2+sx_choose("levels",2); VD L; for(int i=0;i<n;i++) L.push_back(0.5+i); std::vector<dfm2::CSliceTriMesh> cs; dfm2::Slice_MeshTri3D_Heights(cs,L,h,m.t,su); sx_check((int)cs.size()==n,"one loop per level"); for(int i=0;i<n;i++) check_level(m,su,h,L[i],i,cs); std::vector<std::set<U>> Gr; dfm2::MakeReebGraph(Gr,cs,m.t,su); for(int i=0;i+1<n;i++) sx_check(Gr[i].count(i+1)==1,"loops of successive levels on a cone are connected"); }
