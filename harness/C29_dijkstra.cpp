// C29: shortest paths on element and point graphs, clustering
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <vector>
#include <set>
#include <queue>
#include <random>
#include <iostream>
#include <algorithm>
// the random seed of the clustering becomes a free choice
static int SEED_N=1; namespace std { struct sx_random_device{ unsigned operator()(){ return 0; } }; struct sx_mt19937{ sx_mt19937(unsigned){} }; template<class I> struct sx_uniform_int_distribution{ I lo,hi; sx_uniform_int_distribution(I a,I b):lo(a),hi(b){} template<class G> I operator()(G&){ return lo+(I)sx_choose("seed",(int)(hi-lo+1)); } }; }
#define random_device sx_random_device
#define mt19937 sx_mt19937
#define uniform_int_distribution sx_uniform_int_distribution
#include "delfem2/dijkstra.h"
#undef random_device
#undef mt19937
#undef uniform_int_distribution
#include "delfem2/clusterpoints.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef std::vector<U> VU; typedef std::vector<double> VD;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("sqrt_square",1); sx_opt("max_steps",4000000); sx_opt("steps_are_violation",1); }
typedef std::vector<std::vector<int>> G; // adjacency matrix
static G graph(int n){ G g(n,std::vector<int>(n,0)); int k=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++,k++) g[i][j]=g[j][i]=sx_choose(NM("g",k),2); return g; }
static VU table(const G&g,int nedge){ int n=(int)g.size(); VU t(n*nedge,UINT_MAX); for(int i=0;i<n;i++){ int k=(i*2)%nedge; for(int j=0;j<n;j++) if(g[i][j]){ t[i*nedge+k]=j; k=(k+1)%nedge; } } return t; }
static void jag(const G&g,VU&ind,VU&a){ ind={0}; a.clear(); int n=(int)g.size(); for(int i=0;i<n;i++){ for(int q=0;q<n;q++){ int j=i%2?n-1-q:q; if(g[i][j]) a.push_back(j); } ind.push_back((U)a.size()); } }
static std::vector<int> bfs(const G&g,const std::vector<int>&src,const std::vector<int>*ok=nullptr){ int n=(int)g.size(); std::vector<int> d(n,-1),q; for(int s:src){ d[s]=0; q.push_back(s); } for(size_t k=0;k<q.size();k++) for(int j=0;j<n;j++) if(g[q[k]][j]&&d[j]<0&&(!ok||(*ok)[j])){ d[j]=d[q[k]]+1; q.push_back(j); } return d; }
struct Rec{ VU seq; VU*ord=nullptr; std::vector<int> inc; void AddElem(U i,const VU&o){ sx_check(o[i]==(U)seq.size(),"visited in the recorded order"); seq.push_back(i); } void AddPoint(U i,const VU&o){ AddElem(i,o); } bool IsIncludeElem(U i){ return inc[i]; } };
SX_ENTRY(topo){ opt(); int n=T?5:4; G g=graph(n); int s=sx_choose("src",n); auto d=bfs(g,{s}); for(int x:d) if(x<0) return; VU t=table(g,n-1),D,O; D.assign(2,7); dfm2::DijkstraElem_MeshElemTopo(D,O,s,t,n); sx_check((int)D.size()==n&&(int)O.size()==n,"one entry per element"); std::vector<int> at(n,-1); for(int i=0;i<n;i++){ sx_check((int)D[i]==d[i],"distance is the smallest number of steps"); sx_check(O[i]<(U)n&&at[O[i]]<0,"order is a permutation"); at[O[i]]=i; } for(int k=1;k<n;k++) sx_check(D[at[k-1]]<=D[at[k]],"elements are visited by increasing distance"); }
SX_ENTRY(fill){ opt(); int n=4; G g=graph(n); std::vector<int> fl; VU F; for(int i=0;i<n;i++){ int f=sx_choose(NM("f",i),2); F.push_back(f?5:2); fl.push_back(f); } int ne=n-1; VU t=table(g,ne); std::vector<int> src; for(int i=0;i<n;i++) if(fl[i]){ bool b=false; for(int k=0;k<ne;k++){ U j=t[i*ne+k]; if(j==UINT_MAX||!fl[j]) b=true; } if(b) src.push_back(i); } auto d=bfs(g,src,&fl); Rec r; VU O,D; dfm2::Dijkstra_FillFromBoundary(O,D,r,5,F,t); int cnt=0; for(int i=0;i<n;i++){ sx_check(D[i]==(d[i]<0?UINT_MAX:(U)d[i]),"number of steps from the boundary of the region"); sx_check((O[i]!=UINT_MAX)==(d[i]>=0),"reachable elements are visited"); cnt+=d[i]>=0; } sx_check((int)r.seq.size()==cnt,"every reachable element is visited once"); for(int k=1;k<cnt;k++) sx_check(D[r.seq[k-1]]<=D[r.seq[k]],"visited by increasing distance"); }
// optimality certificate: no edge shortens a distance and every distance is reached by an edge from an earlier one
template<class W> static void certify(const G&g,const VD&D,const VU&O,int s,const std::vector<int>&reach,W w){ int n=(int)g.size(); sx_eq(D[s],0,"distance at the source is zero"); for(int i=0;i<n;i++) if(reach[i]>=0) for(int j=0;j<n;j++) if(reach[j]>=0){ if(g[i][j]) sx_le(D[j],D[i]+w(i,j),"no edge shortens a distance"); if(O[i]<O[j]) sx_le(D[i],D[j],"visited by increasing distance"); } for(int j=0;j<n;j++) if(reach[j]>0){ bool c=false; for(int i=0;i<n;i++) if(reach[i]>=0&&g[i][j]&&O[i]<O[j]){ double x=D[j]-D[i]-w(i,j); c=c|((x<=1e-9)&(x>=-1e-9)); } sx_check(c,"distance is attained by a path"); } }
static const std::vector<G>&graphs(){ static std::vector<G> L; if(L.empty()){ static const std::vector<std::vector<int>> E={ {0,1,1,2,2,3,3,0}, {0,1,0,2,0,3,1,2,2,3}, {0,1,1,2,2,0,2,3}, {0,1,0,2,0,3,1,2,1,3,2,3}, {0,1,1,2,2,3}, {0,2,0,3,1,2,1,3,0,1,2,4,3,4} }; for(auto&e:E){ int n=0; for(int v:e) n=std::max(n,v+1); G g(n,std::vector<int>(n,0)); for(size_t i=0;i<e.size();i+=2) g[e[i]][e[i+1]]=g[e[i+1]][e[i]]=1; L.push_back(g); } } return L; }
// points along a line: edge lengths are |xi-xj|
static VD line(int n,int free_){ static const double X[5]={0,1.5,-2,3.25,0.75}; VD p; for(int i=0;i<n;i++){ p.push_back(i<free_?sx_real_in(NM("x",i),-4,4):X[i]); p.push_back(0); p.push_back(0); } return p; }
static double ab(double x){ return sx_fork(x<0)?-x:x; }
SX_ENTRY(points){ opt(); const G&g=graphs()[sx_choose("graph",T?6:4)]; int n=(int)g.size(); VD X=line(n,T?4:3); int s=sx_choose("src",n); VU ind,a; jag(g,ind,a); VD D(3,9.); VU O; Rec r; dfm2::DijkstraPoint_MeshTri3D(D,O,r,s,X,ind,a); sx_check((int)r.seq.size()==n,"every point is visited once"); certify(g,D,O,s,bfs(g,{s}),[&](int i,int j){ return ab(X[i*3]-X[j*3]); }); }
SX_ENTRY(points_space){ opt(); sx_opt("ieee",1); int n=5; G g=graph(4); g.resize(5); for(auto&r:g) r.resize(5,0); g[4][0]=g[0][4]=g[4][3]=g[3][4]=1; static const double P[2][15]={{0,0,0, 1,0.5,0, 0.25,1,0.75, -1,0.25,2, 3,1,1},{0,1,2, 2,1,0, 1,1,1, -1,-1,-1, 0.5,4,0.5}}; int c=sx_choose("pos",2); VD X(P[c],P[c]+15); int s=sx_choose("src",5); auto d=bfs(g,{s}); for(int x:d) if(x<0) return; VU ind,a; jag(g,ind,a); VD D; VU O; Rec r; dfm2::DijkstraPoint_MeshTri3D(D,O,r,s,X,ind,a); // Floyd-Warshall
  std::vector<VD> w(n,VD(n,1e9)); for(int i=0;i<n;i++){ w[i][i]=0; for(int j=0;j<n;j++) if(g[i][j]) w[i][j]=std::sqrt((X[i*3]-X[j*3])*(X[i*3]-X[j*3])+(X[i*3+1]-X[j*3+1])*(X[i*3+1]-X[j*3+1])+(X[i*3+2]-X[j*3+2])*(X[i*3+2]-X[j*3+2])); } for(int k=0;k<n;k++) for(int i=0;i<n;i++) for(int j=0;j<n;j++) w[i][j]=std::min(w[i][j],w[i][k]+w[k][j]); for(int i=0;i<n;i++) sx_check(std::fabs(D[i]-w[s][i])<1e-9,"length of the shortest path"); for(int k=1;k<n;k++) sx_check(D[r.seq[k-1]]<=D[r.seq[k]]+1e-12,"visited by increasing distance"); }
SX_ENTRY(elements){ opt(); const G&g=graphs()[sx_choose("graph",T?6:4)]; int n=(int)g.size(); VD X=line(n,T?4:3); int s=sx_choose("src",n); Rec r; for(int i=0;i<n;i++) r.inc.push_back(i==(s+1)%n?sx_choose("out",2):1); VU e(n); for(int i=0;i<n;i++) e[i]=i; VD D(3,9.); VU O; dfm2::DijkstraElem_MeshElemGeo3(D,O,r,s,e,n,X,table(g,n)); auto h=bfs(g,{s},&r.inc); for(int i=0;i<n;i++){ sx_check((O[i]!=UINT_MAX)==(h[i]>=0),"reachable elements are visited"); if(h[i]<0) sx_eq(D[i],-1,"elements that are not reached have no distance"); } certify(g,D,O,s,h,[&](int i,int j){ return ab(X[i*3]-X[j*3]); }); }
SX_ENTRY(centre){ opt(); VD X; for(int i=0;i<12;i++) X.push_back(sx_real_in(NM("x",i),-8,8)); VU e={0,1,2,2,1,3}; double p[3]; int k=sx_choose("k",2); dfm2::Center_Elem3(p,k,e,3,X); for(int d=0;d<3;d++) sx_eq(3*p[d],X[e[k*3]*3+d]+X[e[k*3+1]*3+d]+X[e[k*3+2]*3+d],"mean of the corners"); dfm2::Center_Elem3(p,0,e,2,X); for(int d=0;d<3;d++) sx_eq(2*p[d],X[d]+X[3+d],"mean of the corners"); }
SX_ENTRY(clusters){ opt(); int n=T?5:4; G g=graph(n); auto d=bfs(g,{0}); for(int x:d) if(x<0) return; int k=1+sx_choose("clusters",T?4:3); VU L(2,9); dfm2::MeshClustering(L,k,table(g,n-1),n); sx_check((int)L.size()==n,"one label per element"); std::vector<int> used(k,0); for(U l:L){ sx_check(l<(U)k,"label in range"); used[l]++; } for(int u:used) sx_check(u>0,"every cluster has an element"); // some seeds of the clusters explain the labels as nearest: each element is at least as close to its own seed
  bool ok=false; std::vector<int> s(k,0); for(;;){ bool v=true; for(int c=0;c<k;c++) v&=(int)L[s[c]]==c; if(v){ bool near=true; std::vector<std::vector<int>> D; for(int c=0;c<k;c++) D.push_back(bfs(g,{s[c]})); for(int i=0;i<n;i++) for(int c=0;c<k;c++) near&=D[L[i]][i]<=D[c][i]; // farthest-point seeds
      for(int c=1;c<k;c++){ int m=0,ms=1000; for(int i=0;i<n;i++){ int mi=1000; for(int q=0;q<c;q++) mi=std::min(mi,D[q][i]); m=std::max(m,mi); if(i==s[c]) ms=mi; } near&=ms==m; } ok|=near; } int c=0; for(;c<k;c++){ if(++s[c]<n) break; s[c]=0; } if(c==k) break; } sx_check(ok,"labels are those of the nearest of farthest-point seeds"); }
// ------------------------------------------------------------------ pairwise clustering of points
static void check_map(const G&g,const VU&m,int np1){ int n=(int)g.size(); std::vector<std::vector<int>> c(np1); for(int i=0;i<n;i++){ sx_check(m[i]<(U)np1,"cluster index in range"); c[m[i]].push_back(i); } for(auto&q:c){ sx_check(q.size()==1||q.size()==2,"clusters have one or two points"); if(q.size()==2) sx_check(g[q[0]][q[1]],"paired points are neighbours"); } for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(g[i][j]) sx_check(!(c[m[i]].size()==1&&c[m[j]].size()==1),"neighbouring points are not both left single"); }
SX_ENTRY(pairs){ opt(); const G&g=graphs()[sx_choose("graph",6)]; int n=(int)g.size(); VU ind,a; jag(g,ind,a); VD A; bool same=sx_choose("equal",2); for(int i=0;i<n;i++) A.push_back(same?2.0:i<2?sx_real_in(NM("a",i),0.25,4):1+0.5*i); VU m(n,77); U np1=dfm2::BinaryClustering_Points2d(m.data(),n,A.data(),ind.data(),a.data()); check_map(g,m,np1); VD X,N,X1(4,1.),A1(1,1.),N1; for(int i=0;i<n;i++) for(int d=0;d<3;d++){ X.push_back(d==i%3?sx_real_in(NM("x",i),-4,4):0.5*d-i); N.push_back(d==i%2?1:0); } VU m1; dfm2::BinaryClustering_Points3d(X1,A1,N1,m1,X,A,N,ind,a); sx_check(X1.size()==A1.size()*3&&N1.size()==X1.size(),"one entry per cluster"); sx_check((int)m1.size()==n,"one entry per point"); check_map(g,m1,(int)A1.size()); for(size_t c=0;c<A1.size();c++){ double s=0,q[3]={0,0,0},nn[3]={0,0,0}; for(int i=0;i<n;i++) if(m1[i]==c){ s+=A[i]; for(int d=0;d<3;d++){ q[d]+=A[i]*X[i*3+d]; nn[d]+=A[i]*N[i*3+d]; } } sx_eq(A1[c],s,"area is kept"); double l2=0; for(int d=0;d<3;d++){ sx_eq(X1[c*3+d]*s,q[d],"area-weighted centre"); l2+=nn[d]*nn[d]; } for(int d=0;d<3;d++){ sx_eq(N1[c*3+d]*N1[c*3+d]*l2,nn[d]*nn[d],"unit mean normal"); sx_le(0,N1[c*3+d]*nn[d],"unit mean normal"); } } }
SX_ENTRY(coarse_graph){ opt(); int n=4; G g=graph(n); int np1=1+sx_choose("np1",3); VU m; std::vector<int> used(np1,0); for(int i=0;i<n;i++){ int k=sx_choose(NM("m",i),np1); m.push_back(k); used[k]=1; } for(int u:used) if(!u) return; VU ind,a,i1,a1; jag(g,ind,a); i1.assign(9,4); a1.assign(3,3); dfm2::Clustering_Psup(i1,a1,np1,n,m.data(),ind.data(),a.data()); sx_check((int)i1.size()==np1+1&&i1[0]==0&&i1[np1]==a1.size(),"valid jagged array"); for(int c=0;c<np1;c++){ std::set<U> w,s; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(g[i][j]&&(int)m[i]==c&&(int)m[j]!=c) w.insert(m[j]); sx_check(i1[c]<=i1[c+1],"valid jagged array"); for(U k=i1[c];k<i1[c+1];k++) sx_check(s.insert(a1[k]).second,"neighbouring clusters are listed once"); sx_check(s==w,"clusters joined by an edge are neighbours"); } }
