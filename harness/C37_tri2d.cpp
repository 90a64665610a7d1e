// C37: planar triangulation (input loops, Delaunay insertion, constrained meshing, clean-up of points/triangles)
#include "sx.h"
#include <vector>
#include <array>
#include <algorithm>
#include <climits>
#include "delfem2/dtri2_v2dtri.h"
namespace dfm2=delfem2; typedef dfm2::CVec2d V2;
typedef std::vector<unsigned> VU; typedef std::vector<int> VI; typedef std::vector<dfm2::CDynTri> VT; typedef std::vector<dfm2::CDynPntSur> VP; typedef std::vector<V2> VX;
static const int T=SX_TIER; static const unsigned N=UINT_MAX;
static double ar2(const V2&a,const V2&b,const V2&c){ return (b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x); }
static bool used(const VT&t,unsigned p){ for(auto&x:t) for(unsigned v:x.v) if(v==p) return true; return false; }
static void valid(const VP&P,const VT&t,bool allused){ unsigned n=t.size();
  for(unsigned i=0;i<n;i++){ for(int k=0;k<3;k++){ sx_check(t[i].v[k]<P.size(),"vertex in range"); sx_check(t[i].v[k]!=t[i].v[(k+1)%3],"triangle is not degenerate"); }
    for(int k=0;k<3;k++){ unsigned a=t[i].v[(k+1)%3],b=t[i].v[(k+2)%3],j=t[i].s2[k]; unsigned opp=N; for(unsigned m=0;m<n;m++) for(int q=0;q<3;q++) if(t[m].v[(q+1)%3]==b&&t[m].v[(q+2)%3]==a) opp=m; sx_check(j==opp,"neighbour link is the triangle across the edge"); } }
  for(unsigned p=0;p<P.size();p++){ if(P[p].e==N){ sx_check(!used(t,p)&&!allused,"used point has an element link"); continue; } sx_check(P[p].e<n&&P[p].d<3,"point link in range"); sx_check(t[P[p].e].v[P[p].d]==p,"point link points at itself"); } }
static double total(const VT&t,const VX&X){ double s=0; for(auto&x:t) s+=ar2(X[x.v[0]],X[x.v[1]],X[x.v[2]]); return s; }
static void positive(const VT&t,const VX&X){ for(auto&x:t) sx_lt(0,ar2(X[x.v[0]],X[x.v[1]],X[x.v[2]]),"triangle has positive area"); }
// no vertex across an edge lies strictly inside the circumcircle
static void delaunay(const VT&t,const VX&X){ for(unsigned i=0;i<t.size();i++) for(int k=0;k<3;k++){ unsigned j=t[i].s2[k]; if(j==N||j<i) continue; unsigned s=N; for(unsigned v:t[j].v) if(v!=t[i].v[0]&&v!=t[i].v[1]&&v!=t[i].v[2]) s=v; const V2&a=X[t[i].v[0]],&b=X[t[i].v[1]],&c=X[t[i].v[2]],&d=X[s]; double A=a.x-d.x,B=a.y-d.y,C=b.x-d.x,D=b.y-d.y,E=c.x-d.x,F=c.y-d.y; double det=(A*A+B*B)*(C*F-D*E)-(C*C+D*D)*(A*F-B*E)+(E*E+F*F)*(A*D-B*C); sx_le(det,0,"edge is locally Delaunay"); } }
static void opt(){ sx_opt("max_ite",0); sx_opt("check_ms",4000); sx_opt("branch_ms",2000); }
static V2 G(double x,double y){ return V2(x,y); }
// a point moving on the line a + s*d; keep it away from the tolerance bands of the code: signed areas with two fixed points are above the band (or identically zero on this line), in-circle determinants too
struct Line { V2 a,d; V2 at(double s) const { return G(a.x+d.x*s,a.y+d.y*s); } };
static void margin(const VX&X,const Line&L,const V2&p){ for(size_t i=0;i<X.size();i++){ double dx=p.x-X[i].x,dy=p.y-X[i].y; sx_assume(dx*dx+dy*dy>=0.01); for(size_t k=0;k<i;k++){ if(ar2(X[i],X[k],L.at(0))==0&&ar2(X[i],X[k],L.at(1))==0) continue; double a=ar2(X[i],X[k],p); sx_assume((a>0.01)|(a< -0.01)); } } }
static double incirc(const V2&a,const V2&b,const V2&c,const V2&d){ double A=a.x-d.x,B=a.y-d.y,C=b.x-d.x,D=b.y-d.y,E=c.x-d.x,F=c.y-d.y; return (A*A+B*B)*(C*F-D*E)-(C*C+D*D)*(A*F-B*E)+(E*E+F*F)*(A*D-B*C); }
static void circMargin(const VX&X,const V2&p){ for(size_t i=0;i<X.size();i++) for(size_t k=0;k<i;k++) for(size_t m=0;m<k;m++){ double d=incirc(X[i],X[k],X[m],p); sx_assume((d>0.01)|(d< -0.01)); } }
SX_ENTRY(delaunay_insert){ opt(); // point moving along a line through a fixed Delaunay mesh with rational coordinates; tolerance bands around existing points and edges are excluded
  VX X={G(0,0),G(8,0),G(2,7),G(3,1),G(4,3),G(2,3)}; VP P(6); VT t; VU tv={0,1,2}; for(int i=0;i<6;i++) P[i]=dfm2::CDynPntSur(); dfm2::InitializeMesh(P,t,tv.data(),1,3); P.resize(6); int nb=T?3:1; for(int i=0;i<nb;i++){ P[3+i]=dfm2::CDynPntSur(); dfm2::AddPointsMesh(X,P,t,3+i,1e-10); dfm2::DelaunayAroundPoint(3+i,P,t,X); } X.resize(3+nb); P.resize(3+nb); valid(P,t,true); delaunay(t,X);
  double s=sx_real_in("s",0,8); int l=sx_choose("line",T?5:3); static const double LN[5][4]={{0,0.5,1,0},{0,0,1.5,0.5},{3,0,0,1},{0,3,1,0},{0,8,1,-1}}; Line li={G(LN[l][0],LN[l][1]),G(LN[l][2],LN[l][3])}; V2 p=li.at(s); for(int k=0;k<3;k++) sx_assume(ar2(X[k],X[(k+1)%3],p)>0.01); margin(X,li,p); circMargin(X,p); unsigned n=X.size(); X.push_back(p); P.push_back(dfm2::CDynPntSur()); VX X0=X;
  dfm2::AddPointsMesh(X,P,t,n,1e-10); dfm2::DelaunayAroundPoint(n,P,t,X); valid(P,t,true); sx_check(used(t,n),"inserted point is in the mesh"); sx_check(t.size()==2*(n+1)-2-3,"triangulation of all points"); positive(t,X); sx_eq(total(t,X),ar2(X[0],X[1],X[2]),"covers the same domain"); delaunay(t,X); for(auto&x:t) sx_observe_i("v",x.v[0]); }
static bool segCross(const V2&a,const V2&b,const V2&c,const V2&d){ double p=ar2(a,b,c),q=ar2(a,b,d),r=ar2(c,d,a),s=ar2(c,d,b); return ((p>0&&q<0)||(p<0&&q>0))&&((r>0&&s<0)||(r<0&&s>0)); }
static bool onSeg(const V2&a,const V2&b,const V2&p){ return ar2(a,b,p)==0&&(p.x-a.x)*(p.x-b.x)+(p.y-a.y)*(p.y-b.y)<=0; }
static bool simple(const VX&X){ int n=X.size(); for(int i=0;i<n;i++) for(int k=0;k<n;k++){ int j=(i+1)%n,m=(k+1)%n; if(k!=i&&k!=j&&onSeg(X[i],X[j],X[k])) return false; if(k!=i&&k!=j&&m!=i&&segCross(X[i],X[j],X[k],X[m])) return false; } return true; }
static double polyArea2(const VX&X){ double s=0; int n=X.size(); for(int i=0;i<n;i++) s+=X[i].x*X[(i+1)%n].y-X[i].y*X[(i+1)%n].x; return s; }
static void checkMesh(const VP&P,const VX&X,const VT&t,const VX&loop){ int n=loop.size(); sx_check(X.size()==P.size()&&(int)X.size()==n,"auxiliary points removed"); valid(P,t,true); positive(t,X); sx_check((int)t.size()==n-2,"triangle count of a polygon"); sx_eq(total(t,X),polyArea2(loop),"covers exactly the polygon"); int nb=0; for(auto&x:t) for(int k=0;k<3;k++) if(x.s2[k]==N){ nb++; unsigned a=x.v[(k+1)%3],b=x.v[(k+2)%3]; sx_check(b==(a+1)%n,"boundary edge is a loop edge with its direction"); } sx_check(nb==n,"every loop edge is a boundary edge"); }
// closed loop whose moving corner stays inside the bounding box of the others
static VX superTri(const VX&L){ double xs[2]={1e9,-1e9},ys[2]={1e9,-1e9}; for(auto&q:L){ xs[0]=std::min(xs[0],q.x); xs[1]=std::max(xs[1],q.x); ys[0]=std::min(ys[0],q.y); ys[1]=std::max(ys[1],q.y); } double l=std::max(xs[1]-xs[0],ys[1]-ys[0])*4,h=l*sqrt(3.0)/6,cx=(xs[0]+xs[1])/2,cy=(ys[0]+ys[1])/2; VX M; M.push_back(G(cx,cy+2*h)); M.push_back(G(cx-l/2,cy-h)); M.push_back(G(cx+l/2,cy-h)); return M; }
static void polygon(VX L,int k,const Line&li,double s){ VX F=L; F.erase(F.begin()+k); VX M=F; VX st=superTri(F); M.insert(M.end(),st.begin(),st.end()); L[k]=li.at(s); margin(M,li,L[k]); sx_assume(simple(L)&&polyArea2(L)>0); VX X=L; VP P; VT t; VI ind={0,(int)L.size()},lp; for(size_t i=0;i<L.size();i++) lp.push_back(i); dfm2::Meshing_SingleConnectedShape2D(P,X,t,ind,lp); checkMesh(P,X,t,L); }
SX_ENTRY(polygon_mesh4){ opt(); double s=sx_real_in("s",0.25,5.5); int w=sx_choose("shape",T?4:2); VX L={G(0,0),G(6,0),G(0,0),G(0,6)}; if(w&1) L={G(0,0),G(6,1),G(5,6),G(0,0),G(1,5)}; Line li={G(0,w&2?1.5:0.5),G(1,w&2?0.5:1)}; polygon(L,(w&1)?3:2,li,s); }
SX_ENTRY(polygon_mesh6){ opt(); double s=sx_real_in("s",0.25,7.75); static const int S[3][12]={{0,0,8,0,8,6,5,2,3,6,0,6},{0,0,7,1,3,3,6,7,2,5,0,7},{1,0,6,2,7,7,4,4,0,6,2,3}}; int w=sx_choose("shape",T?3:2); VX L; for(int i=0;i<6;i++) L.push_back(G(S[w][2*i],S[w][2*i+1])); int k=w==0?3:w==1?2:3; Line li={G(0,T&&sx_choose("line",2)?4.5:2.5),G(1,0.125)}; polygon(L,k,li,s); }
// loop with a square hole, one outer corner symbolic, given in either orientation through the vector-of-vectors interface
static VX toX(const std::vector<double>&a){ VX r; for(size_t i=0;i+1<a.size();i+=2) r.push_back(G(a[i],a[i+1])); return r; }
SX_ENTRY(polygon_with_hole){ opt(); std::vector<std::vector<double>> a(2); double s=sx_real_in("s",8,11.5); V2 c=G(s,20-s); int rev=sx_choose("rev",2),rh=sx_choose("revhole",2); std::vector<double> o={0,0,12,0,c.x,c.y,0,12},h={3,3,4,3,4,4,3,5}; a[0]=o; a[1]=h; if(rev) for(int i=0;i<4;i++){ a[0][2*i]=o[2*(3-i)]; a[0][2*i+1]=o[2*(3-i)+1]; } if(rh) for(int i=0;i<4;i++){ a[1][2*i]=h[2*(3-i)]; a[1][2*i+1]=h[2*(3-i)+1]; } VX M={G(0,0),G(12,0),G(0,12),G(3,3),G(4,3),G(4,4),G(3,5)}; { VX st=superTri(M); M.insert(M.end(),st.begin(),st.end()); Line li={G(0,20),G(1,-1)}; margin(M,li,c); }
  VI ind,lp; VX X; dfm2::JArray_FromVecVec_XY(ind,lp,X,a); sx_check(ind==VI({0,4,8})&&lp.size()==8&&X.size()==8,"loop arrays"); for(int i=0;i<8;i++) sx_check(X[i].x==a[i/4][2*(i%4)]&&X[i].y==a[i/4][2*(i%4)+1]&&lp[i]==i,"loop points"); dfm2::FixLoopOrientation(lp,ind,X); VX L0,L1; for(int i=0;i<4;i++){ L0.push_back(X[lp[i]]); L1.push_back(X[lp[4+i]]); } sx_lt(0,polyArea2(L0),"outer loop is counter-clockwise"); sx_lt(polyArea2(L1),0,"hole is clockwise");
  VX X0=X; VP P; VT t; dfm2::Meshing_SingleConnectedShape2D(P,X,t,ind,lp); sx_check(X.size()==8,"auxiliary points removed"); valid(P,t,true); positive(t,X); sx_check(t.size()==8,"triangle count with a hole"); sx_eq(total(t,X),polyArea2(L0)+polyArea2(L1),"covers the polygon without the hole"); int nb=0; for(auto&x:t) for(int k=0;k<3;k++) nb+=x.s2[k]==N; sx_check(nb==8,"boundary edges"); }
SX_ENTRY(resample_loop){ opt(); // loop through permuted indices (as left by FixLoopOrientation), new points evenly inside long edges
  int n=3+sx_choose("n",2); VX X; X.push_back(G(0,0)); X.push_back(G(3,0)); X.push_back(G(sx_grid("x",1,9),4)); if(n==4) X.push_back(G(0,5)); VX X0=X; VI ind={0,n},lp; int rev=sx_choose("rev",2); for(int i=0;i<n;i++) lp.push_back(rev?n-1-i:i); VI lp0=lp; double L=4; dfm2::ResamplingLoop(ind,lp,X,L); sx_check(ind.size()==2&&ind[0]==0&&ind[1]==(int)lp.size()&&lp.size()==X.size(),"loop arrays"); int at=0; int m=lp.size(); for(int i=0;i<n;i++){ sx_check(at<m&&lp[at]==lp0[i],"original points kept in order"); V2 a=X0[lp0[i]],b=X0[lp0[(i+1)%n]]; int k=0; for(int q=at+1;q<m&&lp[q]>=n;q++) k++; double d2=(b.x-a.x)*(b.x-a.x)+(b.y-a.y)*(b.y-a.y); sx_check(d2<=L*L*(k+1)*(k+1),"pieces are not longer than the limit"); sx_check(k==0||d2>=L*L*k*k,"no more points than needed"); for(int q=1;q<=k;q++){ sx_eq(X[lp[at+q]].x,a.x+(b.x-a.x)*q/(k+1),"evenly spaced x"); sx_eq(X[lp[at+q]].y,a.y+(b.y-a.y)*q/(k+1),"evenly spaced y"); } at+=k+1; } sx_check(at==m,"nothing else in the loop"); }
SX_ENTRY(resample_two_loops){ opt(); VX X={G(0,0),G(9,0),G(0,9),G(1,1),G(3,1),G(1,sx_grid("y",2,4))}; VX X0=X; VI ind={0,3,6},lp={0,1,2,5,4,3}; VI lp0=lp; double L=sx_choose("len",2)?3:1.5; dfm2::ResamplingLoop(ind,lp,X,L); sx_check(ind.size()==3&&ind[2]==(int)lp.size()&&lp.size()==X.size(),"loop arrays"); int at=0,m=lp.size(); for(int i=0;i<6;i++){ if(i==3) sx_check(ind[1]==at,"second loop starts after the first"); sx_check(at<m&&lp[at]==lp0[i],"original points kept in order"); int s=i/3*3; V2 a=X0[lp0[i]],b=X0[lp0[s+(i-s+1)%3]]; int k=0; for(int q=at+1;q<m&&lp[q]>=6;q++) k++; double d2=(b.x-a.x)*(b.x-a.x)+(b.y-a.y)*(b.y-a.y); sx_check(d2<=L*L*(k+1)*(k+1),"pieces are not longer than the limit"); for(int q=1;q<=k;q++){ sx_eq(X[lp[at+q]].x,a.x+(b.x-a.x)*q/(k+1),"evenly spaced x"); sx_eq(X[lp[at+q]].y,a.y+(b.y-a.y)*q/(k+1),"evenly spaced y"); } at+=k+1; } sx_check(at==m,"nothing else in the loop"); }
SX_ENTRY(input_check){ opt(); VX X={G(0,0),G(8,0),G(sx_grid("px",0,8),sx_grid("py",0,8)),G(1,7)}; bool adj=X[2].x==8&&X[2].y==0; sx_assume(!adj); // strict classification; touching configurations are left out
  bool cross=segCross(X[0],X[1],X[2],X[3])||segCross(X[1],X[2],X[3],X[0]); sx_assume(cross||simple(X)); VI ind={0,4}; bool r=dfm2::CheckInputBoundaryForTriangulation(ind,X); sx_check(r==!cross,"self-crossing loops are rejected, simple ones accepted"); VI i2={0,2,4}; sx_check(!dfm2::CheckInputBoundaryForTriangulation(i2,X),"loops need three points"); }
SX_ENTRY(input_check_two){ opt(); // a triangle hole whose corners are inside the L-shaped outline; crossing edge must be found
  VX X={G(0,0),G(10,0),G(10,10),G(8,10),G(8,2),G(0,2),G(1,1),G(9,sx_choose("y",4)*2+2),G(sx_real_in("x",2,9.5),1)};  VI ind={0,6,9}; bool cross=false,touch=false; for(int i=0;i<6;i++) for(int k=0;k<3;k++){ V2&a=X[i],&b=X[(i+1)%6],&c=X[6+k],&d=X[6+(k+1)%3]; cross|=segCross(a,b,c,d); touch|=onSeg(a,b,c)||onSeg(a,b,d)||onSeg(c,d,a)||onSeg(c,d,b); } sx_assume(!touch); bool r=dfm2::CheckInputBoundaryForTriangulation(ind,X); sx_check(!(cross&&r),"crossing outline and hole are rejected"); sx_check(cross||r,"valid hole is accepted"); }
// clean-up helpers on a small grid mesh with symbolic deletion flags
static void grid(VP&P,VX&X,VT&t){ VU e; for(unsigned y=0;y<2;y++) for(unsigned x=0;x<2;x++){ unsigned a=y*3+x; VU q={a,a+1,a+4, a,a+4,a+3}; e.insert(e.end(),q.begin(),q.end()); } for(int i=0;i<9;i++) X.push_back(G(i%3,i/3)); dfm2::InitializeMesh(P,t,e.data(),8,9); }
SX_ENTRY(flag_connected){ opt(); VP P; VX X; VT t; grid(P,X,t); for(auto&x:t) for(int k=0;k<3;k++) if(x.s2[k]!=N){ unsigned i=&x-&t[0],j=x.s2[k]; if(j>i&&sx_choose("cut",(i+j)%3==0?2:1)){ for(auto&s:t[j].s2) if(s==i) s=N; x.s2[k]=N; } }
  VI f(8,0); unsigned ker=sx_int("ker",0,7); dfm2::FlagConnected(f,t,ker,1); bool c[8]={}; c[ker]=true; for(int r=0;r<8;r++) for(int i=0;i<8;i++) if(c[i]) for(unsigned s:t[i].s2) if(s!=N) c[s]=true; for(int i=0;i<8;i++) sx_check(f[i]==(c[i]?1:0),"flag reaches exactly the connected triangles");
  VX oldv; std::vector<std::array<unsigned,3>> want; for(int i=0;i<8;i++) if(c[i]) want.push_back({t[i].v[0],t[i].v[1],t[i].v[2]}); VT t0=t; dfm2::DeleteTriFlag(t,f,0); sx_check(t.size()==want.size()&&f.size()==want.size(),"flagged triangles removed"); for(size_t i=0;i<t.size();i++){ sx_check(f[i]==1,"flags follow"); for(int k=0;k<3;k++){ sx_check(t[i].v[k]==want[i][k],"remaining triangles in order"); unsigned j=t[i].s2[k]; if(j!=N){ sx_check(j<t.size(),"link in range"); bool m=false; for(unsigned s:t[j].s2) m|=s==i; sx_check(m,"links stay mutual"); } } } }
static void pointsAfter(const VP&P,const VX&X,const VT&t,const VT&t0,const VX&X0,const VU&del){ unsigned n=0; VU map(X0.size(),N); for(size_t i=0;i<X0.size();i++) if(!del[i]) map[i]=n++; sx_check(P.size()==n&&X.size()==n,"exactly the listed points are removed"); for(size_t i=0;i<X0.size();i++) if(!del[i]) sx_check(X[map[i]].x==X0[i].x&&X[map[i]].y==X0[i].y,"positions follow"); for(size_t i=0;i<t.size();i++) for(int k=0;k<3;k++) sx_check(t[i].v[k]==map[t0[i].v[k]],"corners follow"); for(size_t p=0;p<P.size();p++) if(used(t,p)) sx_check(P[p].e<t.size()&&P[p].d<3&&t[P[p].e].v[P[p].d]==p,"point link points at itself"); }
SX_ENTRY(delete_points){ opt(); VP P; VX X; VT t; grid(P,X,t); VI keep(8,0); int k0=sx_choose("keep",8); keep[k0]=1; keep[(k0+3)%8]=sx_choose("second",2); // keep one or two triangles, drop some of the unreferenced points
  { VT s; VU m(8,N); for(int i=0;i<8;i++) if(keep[i]){ m[i]=s.size(); s.push_back(t[i]); } for(auto&x:s) for(auto&q:x.s2) if(q!=N) q=m[q]; t=s; } for(auto&p:P) p=dfm2::CDynPntSur(); for(size_t i=0;i<t.size();i++) for(int k=0;k<3;k++){ P[t[i].v[k]].e=i; P[t[i].v[k]].d=k; }
  VU del(9,0); VI fl(9,0); VU list; for(int i=8;i>=0;i--) if(!used(t,i)&&sx_int("del",0,1)){ del[i]=1; fl[i]=5; list.push_back(i); } VT t0=t; VX X0=X; if(sx_choose("api",2)){ dfm2::DeleteUnrefPoints(X,P,t,list); } else { dfm2::DeletePointsFlag(X,P,t,fl,5); for(int f:fl) sx_check(f!=5,"flags follow"); } pointsAfter(P,X,t,t0,X0,del); }
SX_ENTRY(mesh_measures){ VP P; VX X; VT t; grid(P,X,t); X[4]=V2(sx_real_in("x",0.1,1.9),sx_real_in("y",0.1,1.9)); for(auto&x:t) sx_assume(ar2(X[x.v[0]],X[x.v[1]],X[x.v[2]])>1e-3); std::vector<double> m; double rho=sx_real_in("rho",0.1,10); dfm2::MakeInvMassLumped_Tri(m,rho,X,t); sx_check(m.size()==9,"one mass per point"); for(int p=0;p<9;p++){ double s=0; for(auto&x:t) for(unsigned v:x.v) if(v==(unsigned)p) s+=ar2(X[x.v[0]],X[x.v[1]],X[x.v[2]])/6*rho; sx_eq(m[p]*s,1,"inverse of the lumped mass"); } double a,b; dfm2::MinMaxTriArea(a,b,X,t); bool ha=false,hb=false; for(auto&x:t){ double A=ar2(X[x.v[0]],X[x.v[1]],X[x.v[2]])/2; sx_le(a,A,"minimum area"); sx_le(A,b,"maximum area"); ha|=A==a; hb|=A==b; } sx_check(sx_native()||(ha&&hb),"extremes are attained"); std::vector<double> xy(3,0.); VU tv(2,0u); dfm2::CMeshTri2D(xy,tv,X,t); sx_check(xy.size()==18&&tv.size()==24,"export sizes"); for(int i=0;i<9;i++) sx_check(xy[2*i]==X[i].x&&xy[2*i+1]==X[i].y,"export points"); for(int i=0;i<24;i++) sx_check(tv[i]==t[i/3].v[i%3],"export triangles"); std::vector<double> xe(3,0.); VU te(2,0u); dfm2::MeshTri2D_Export(xe,te,X,t); sx_check(xe==xy&&te==tv,"export agrees"); }
