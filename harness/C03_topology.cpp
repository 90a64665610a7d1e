// C03: dynamic triangle mesh: initialisation, traversal and edits (symbolic mesh, operation and location)
#include "sx.h"
#include <vector>
#include <array>
#include <algorithm>
#include <climits>
#include "delfem2/dtri_topology.h"
namespace dfm2=delfem2;
typedef std::vector<unsigned> VU; typedef std::vector<dfm2::CDynTri> VT; typedef std::vector<dfm2::CDynPntSur> VP;
typedef std::vector<std::array<unsigned,3>> TS;
static const int T=SX_TIER; static const unsigned N=UINT_MAX;
static TS tris(const VT&t){ TS r; for(auto&x:t){ std::array<unsigned,3> a={x.v[0],x.v[1],x.v[2]}; std::rotate(a.begin(),std::min_element(a.begin(),a.end()),a.end()); r.push_back(a);} std::sort(r.begin(),r.end()); return r; }
static void norm(TS&r){ for(auto&a:r) std::rotate(a.begin(),std::min_element(a.begin(),a.end()),a.end()); std::sort(r.begin(),r.end()); }
static void rem(TS&r,unsigned a,unsigned b,unsigned c){ TS x={{a,b,c}}; norm(x); auto i=std::find(r.begin(),r.end(),x[0]); sx_check(i!=r.end(),"expected triangle"); r.erase(i); }
static void add(TS&r,unsigned a,unsigned b,unsigned c){ r.push_back({a,b,c}); }
static bool used(const VT&t,unsigned p){ for(auto&x:t) for(unsigned v:x.v) if(v==p) return true; return false; }
static int nedge(const VT&t){ int h=0,b=0; for(auto&x:t) for(int k=0;k<3;k++){ h++; b+=x.s2[k]==N; } return (h+b)/2; }
static int euler(const VP&p,const VT&t){ int v=0; for(unsigned i=0;i<p.size();i++) v+=used(t,i); return v-nedge(t)+(int)t.size(); }
// full consistency, written from the definition of the data structure
static void valid(const VP&P,const VT&t){ unsigned n=t.size();
  for(unsigned i=0;i<n;i++){ for(int k=0;k<3;k++){ sx_check(t[i].v[k]<P.size(),"vertex in range"); sx_check(t[i].v[k]!=t[i].v[(k+1)%3],"triangle is not degenerate"); }
    for(int k=0;k<3;k++){ unsigned a=t[i].v[(k+1)%3],b=t[i].v[(k+2)%3],j=t[i].s2[k]; unsigned opp=N; int no=0; for(unsigned m=0;m<n;m++) for(int q=0;q<3;q++){ unsigned c=t[m].v[(q+1)%3],d=t[m].v[(q+2)%3]; if(c==b&&d==a){ opp=m; no++; } sx_check(!(c==a&&d==b)||(m==i&&q==k),"directed edge is used once"); }
      sx_check(no<=1,"edge has at most one opposite"); sx_check(j==opp,"neighbour link is the triangle across the edge"); if(j!=N){ bool back=false; for(int q=0;q<3;q++) back|=t[j].s2[q]==i; sx_check(back,"neighbour link is mutual"); } } }
  for(unsigned p=0;p<P.size();p++){ if(P[p].e==N){ sx_check(!used(t,p),"used point has an element link"); continue; } sx_check(P[p].e<n&&P[p].d<3,"point link in range"); sx_check(t[P[p].e].v[P[p].d]==p,"point link points at itself"); } }
static void setup(VP&P,VT&t,int which){ VU e; unsigned nv=0;
  if(which==0){ e={0,1,2, 0,3,1, 1,3,2, 2,3,0}; nv=4; }
  if(which==1){ e={0,2,4, 2,1,4, 1,3,4, 3,0,4, 2,0,5, 1,2,5, 3,1,5, 0,3,5}; nv=6; }
  if(which==2){ for(unsigned y=0;y<2;y++) for(unsigned x=0;x<2;x++){ unsigned a=y*3+x; VU q={a,a+1,a+4, a,a+4,a+3}; e.insert(e.end(),q.begin(),q.end()); } nv=9; }
  if(which==3){ e={0,1,2, 0,2,3, 0,3,4, 0,4,5}; nv=6; }
  if(which==4){ e={0,11,5,0,5,1,0,1,7,0,7,10,0,10,11,1,5,9,5,11,4,11,10,2,10,7,6,7,1,8,3,9,4,3,4,2,3,2,6,3,6,8,3,8,9,4,9,5,2,4,11,6,2,10,8,6,7,9,8,1}; nv=12; }
  if(which==5){ e={0,1,2}; nv=4; }
  int ra=sx_choose("rotA",3),rb=sx_choose("rotB",which<4?3:1); for(unsigned i=0;i<e.size()/3;i++) std::rotate(e.begin()+3*i,e.begin()+3*i+(ra+rb*i)%3,e.begin()+3*i+3);
  dfm2::InitializeMesh(P,t,e.data(),e.size()/3,nv); }
static bool hasEdge(const VT&t,unsigned a,unsigned b){ for(auto&x:t) for(int k=0;k<3;k++) if((x.v[k]==a&&x.v[(k+1)%3]==b)||(x.v[k]==b&&x.v[(k+1)%3]==a)) return true; return false; }
static void opInsertElem(VP&P,VT&t){ unsigned it=sx_int("tri",0,t.size()-1); unsigned a=t[it].v[0],b=t[it].v[1],c=t[it].v[2]; TS w=tris(t); int eu=euler(P,t); unsigned p=P.size(); P.emplace_back(); sx_check(dfm2::InsertPoint_Elem(p,it,P,t),"insertion succeeds"); rem(w,a,b,c); add(w,p,a,b); add(w,p,b,c); add(w,p,c,a); norm(w); valid(P,t); sx_check(tris(t)==w,"face insertion: exactly the three new triangles"); sx_check(euler(P,t)==eu,"Euler characteristic is kept"); }
static void opInsertEdge(VP&P,VT&t){ unsigned it=sx_int("tri",0,t.size()-1),k=sx_int("edge",0,2); sx_assume(t[it].s2[k]!=N); unsigned r=t[it].v[k],a=t[it].v[(k+1)%3],b=t[it].v[(k+2)%3],j=t[it].s2[k],s=N; for(unsigned v:t[j].v) if(v!=a&&v!=b) s=v; TS w=tris(t); int eu=euler(P,t); unsigned p=P.size(); P.emplace_back(); sx_check(dfm2::InsertPoint_ElemEdge(p,it,k,P,t),"insertion succeeds"); rem(w,r,a,b); rem(w,s,b,a); add(w,p,b,r); add(w,p,r,a); add(w,p,a,s); add(w,p,s,b); norm(w); valid(P,t); sx_check(tris(t)==w,"edge insertion: exactly the four new triangles"); sx_check(euler(P,t)==eu,"Euler characteristic is kept"); }
static void opFlip(VP&P,VT&t){ unsigned it=sx_int("tri",0,t.size()-1),k=sx_int("edge",0,2); TS w=tris(t); int eu=euler(P,t); if(t[it].s2[k]==N){ VT o=t; sx_check(!dfm2::FlipEdge(it,k,P,t),"boundary edge is not flipped"); sx_check(tris(t)==w,"mesh unchanged"); valid(P,t); return; }
  unsigned r=t[it].v[k],a=t[it].v[(k+1)%3],b=t[it].v[(k+2)%3],j=t[it].s2[k],s=N; for(unsigned v:t[j].v) if(v!=a&&v!=b) s=v; sx_assume(!hasEdge(t,r,s)); sx_check(dfm2::FlipEdge(it,k,P,t),"interior edge is flipped"); rem(w,r,a,b); rem(w,s,b,a); add(w,a,s,r); add(w,b,r,s); norm(w); valid(P,t); sx_check(tris(t)==w,"flip: exactly the two new triangles"); sx_check(euler(P,t)==eu,"Euler characteristic is kept"); bool in=false; for(unsigned v:t[it].v) in|=v==a; sx_check(in&&P[r].e==it,"documented triangle index after a flip"); }
static void opCollapse(VP&P,VT&t){ unsigned it=sx_int("tri",0,t.size()-1),k=sx_int("edge",0,2); sx_assume(t[it].s2[k]!=N); unsigned x=t[it].v[(k+1)%3],z=t[it].v[(k+2)%3],w0=t[it].v[k],s=N; for(unsigned v:t[t[it].s2[k]].v) if(v!=x&&v!=z) s=v; TS w=tris(t); int eu=euler(P,t); bool closed=true; for(auto&q:t) for(unsigned e:q.s2) closed&=e!=N;
  int common=0; for(unsigned v=0;v<P.size();v++) common+=v!=x&&v!=z&&hasEdge(t,v,x)&&hasEdge(t,v,z); int dw=0,ds=0; for(unsigned v=0;v<P.size();v++){ dw+=v!=w0&&hasEdge(t,v,w0); ds+=v!=s&&hasEdge(t,v,s); }
  bool r=dfm2::CollapseEdge_MeshDTri(it,k,P,t); if(!r){ sx_check(tris(t)==w,"refused collapse leaves the mesh unchanged"); valid(P,t); if(closed&&common==2&&dw>3&&ds>3) sx_check(false,"collapse allowed by the link condition is performed"); sx_reach("collapse refused"); return; }
  sx_reach("collapse done"); sx_check(common==2,"only link-condition edges are collapsed"); TS e; for(auto a:w){ int nx=0; for(auto&v:a){ nx+=v==x||v==z; if(v==z) v=x; } if(nx<2) e.push_back(a); } norm(e); valid(P,t); sx_check(tris(t)==e,"collapse: deleted point is replaced by the kept one"); sx_check(P[z].e==N,"deleted point is isolated"); sx_check(euler(P,t)==eu,"Euler characteristic is kept"); }
static void queries(const VP&P,const VT&t){ unsigned p=sx_int("p",0,P.size()-1),q=sx_int("q",0,P.size()-1); sx_assume(p!=q&&P[p].e!=N); unsigned ti=N,ki=0; for(unsigned i=0;i<t.size();i++) for(int k=0;k<3;k++) if(t[i].v[k]==p&&t[i].v[(k+1)%3]==q){ ti=i; ki=k; }
  unsigned a=0,b=0,c=0; bool f=dfm2::FindEdge_LookAroundPoint(a,b,c,p,q,P,t); sx_check(f==(ti!=N),"directed edge around a point found iff it exists"); if(f) sx_check(a==ti&&b==ki&&c==(ki+1)%3,"located edge"); a=N; b=N; dfm2::FindEdge_LookAllTriangles(a,b,p,q,t); sx_check(ti==N?a==N:(a==ti&&b==ki),"global edge search");
  bool interior=true; VU nb; int ntri=0; for(auto&x:t) for(int k=0;k<3;k++) if(x.v[k]==p){ ntri++; interior&=x.s2[(k+1)%3]!=N&&x.s2[(k+2)%3]!=N; nb.push_back(x.v[(k+1)%3]); nb.push_back(x.v[(k+2)%3]); } std::sort(nb.begin(),nb.end()); nb.erase(std::unique(nb.begin(),nb.end()),nb.end());
  if(interior){ VU g(2,77u); sx_check(dfm2::FindPointAroundPoint(g,p,P,t),"interior ring"); std::sort(g.begin(),g.end()); sx_check(g==nb,"points around an interior point"); std::vector<std::pair<unsigned,unsigned>> tr; dfm2::GetTriArrayAroundPoint(tr,p,P,t); sx_check((int)tr.size()==ntri,"every triangle around the point once"); for(auto&x:tr) sx_check(x.first<t.size()&&t[x.first].v[x.second]==p,"listed triangle uses the point"); for(size_t i=0;i<tr.size();i++) for(size_t k=0;k<i;k++) sx_check(tr[i].first!=tr[k].first,"no repetition"); }
  // rotation around the point
  unsigned i0=P[p].e,k0=P[p].d; { unsigned i=i0,k=k0; bool m=false; if(t[i].s2[(k+1)%3]!=N){ m=dfm2::MoveCCW(i,k,N,t); sx_check(m&&i==t[i0].s2[(k0+1)%3]&&t[i].v[k]==p&&t[i].v[(k+1)%3]==t[i0].v[(k0+2)%3],"counter-clockwise step"); unsigned ii=i,kk=k; sx_check(dfm2::MoveCW(ii,kk,N,t)&&ii==i0&&kk==k0,"clockwise step undoes it"); } else { sx_check(!dfm2::MoveCCW(i,k,N,t)&&i==i0&&k==k0,"stops at the boundary"); } } }
static void arrays(const VP&P,const VT&t){ unsigned n=P.size(); std::vector<int> ei,ev; if(sx_choose("stale",2)){ ei.assign(2,5); ev.assign(3,1); } sx_check(dfm2::JArray_MakeElSuP(ei,ev,t,n),"built"); sx_check(ei.size()==n+1&&ei[0]==0&&ei[n]==(int)ev.size(),"element table shape"); for(unsigned p=0;p<n;p++) for(unsigned i=0;i<t.size();i++){ int c=0; for(int k=ei[p];k<ei[p+1];k++) c+=ev[k]==(int)i; int w=0; for(unsigned v:t[i].v) w+=v==p; sx_check(c==w,"elements around a point"); }
  std::vector<int> pi(n+1,3),pv(1,4); dfm2::JArray_PSuP(pi,pv,t,n,ei,ev); sx_check(pi[0]==0&&pi[n]==(int)pv.size(),"point table shape"); for(unsigned p=0;p<n;p++) for(unsigned q=0;q<n;q++){ int c=0; for(int k=pi[p];k<pi[p+1];k++) c+=pv[k]==(int)q; sx_check(c==((p!=q&&hasEdge(t,p,q))?1:0),"points around a point"); } }
static void opt(){ sx_opt("max_ite",0); }
static void one(int which,int op,VP&P,VT&t){ (void)which; switch(op){ case 0: opInsertElem(P,t); break; case 1: opInsertEdge(P,t); break; case 2: opFlip(P,t); break; case 3: opCollapse(P,t); break; } }
SX_ENTRY(initialize){ opt(); int ne=T?4:3,nv=5; VU e; for(int i=0;i<ne;i++) for(int k=0;k<3;k++){ unsigned v=i==0?(unsigned)k:(unsigned)sx_int("v",0,nv-1); for(int q=0;q<k;q++) sx_assume(e[3*i+q]!=v); e.push_back(v); }
  for(int i=0;i<ne;i++) for(int j=0;j<i;j++) for(int a=0;a<3;a++) for(int b=0;b<3;b++) sx_assume(!(e[3*i+a]==e[3*j+b]&&e[3*i+(a+1)%3]==e[3*j+(b+1)%3])); VP P; VT t; if(sx_choose("stale",2)){ P.resize(2); t.resize(5); } dfm2::InitializeMesh(P,t,e.data(),ne,nv); sx_check((int)t.size()==ne&&(int)P.size()==nv,"sizes"); for(int i=0;i<ne;i++) for(int k=0;k<3;k++) sx_check(t[i].v[k]==e[3*i+k],"triangle kept"); valid(P,t); arrays(P,t); for(auto&x:t) for(int k=0;k<3;k++) sx_observe_i("s",x.s2[k]); }
SX_ENTRY(insert_face){ opt(); VP P; VT t; setup(P,t,sx_choose("mesh",6)); valid(P,t); opInsertElem(P,t); }
SX_ENTRY(insert_edge){ opt(); VP P; VT t; setup(P,t,sx_choose("mesh",5)); opInsertEdge(P,t); }
SX_ENTRY(flip){ opt(); VP P; VT t; setup(P,t,sx_choose("mesh",6)); opFlip(P,t); }
SX_ENTRY(collapse){ opt(); VP P; VT t; static const int w[4]={0,1,2,4}; setup(P,t,w[sx_choose("mesh",4)]); opCollapse(P,t); }
SX_ENTRY(collapse_after_insert){ opt(); VP P; VT t; setup(P,t,1); opInsertElem(P,t); opCollapse(P,t); }
SX_ENTRY(collapse_after_flip){ opt(); VP P; VT t; setup(P,t,T?4:1); opFlip(P,t); opCollapse(P,t); }
SX_ENTRY(query){ opt(); VP P; VT t; setup(P,t,sx_choose("mesh",6)); queries(P,t); }
SX_ENTRY(query_after_edit){ opt(); VP P; VT t; setup(P,t,T?sx_choose("mesh",4):3*sx_choose("mesh",2)); one(0,sx_choose("op",3),P,t); queries(P,t); }
SX_ENTRY(sequence){ opt(); VP P; VT t; static const int w[3]={0,3,2}; setup(P,t,w[sx_choose("mesh",T?3:2)]); for(int i=0;i<2;i++) one(0,sx_choose("op",4),P,t); }
SX_ENTRY(sequence3){ opt(); VP P; VT t; setup(P,t,5); P.pop_back(); opInsertElem(P,t); for(int i=0;i<(T?3:2);i++) one(0,sx_choose("op",3),P,t); }
SX_ENTRY(tables){ opt(); VP P; VT t; setup(P,t,sx_choose("mesh",4)); arrays(P,t); }
SX_ENTRY(delete_triangle){ opt(); VP P; VT t; setup(P,t,sx_choose("mesh",4)); unsigned it=sx_int("tri",0,t.size()-1); TS w=tris(t); rem(w,t[it].v[0],t[it].v[1],t[it].v[2]); VU vs(t[it].v,t[it].v+3); // isolate first, as the interface requires
  for(int k=0;k<3;k++){ unsigned j=t[it].s2[k]; if(j!=N){ for(auto&x:t[j].s2) if(x==it) x=N; } t[it].s2[k]=N; } for(unsigned v:vs){ P[v].e=N; for(unsigned i=0;i<t.size();i++) if(i!=it) for(int k=0;k<3;k++) if(t[i].v[k]==v){ P[v].e=i; P[v].d=k; } }
  sx_check(dfm2::DeleteTri(it,P,t),"deletion succeeds"); valid(P,t); sx_check(tris(t)==w,"exactly that triangle disappears"); }
SX_ENTRY(holes){ opt(); VP P; VT t; setup(P,t,sx_choose("mesh",4)); std::vector<std::vector<int>> h(3); dfm2::extractHoles(h,P.size(),t); VU on(P.size(),0); for(auto&x:t) for(int k=0;k<3;k++) if(x.s2[k]==N) on[x.v[(k+1)%3]]=on[x.v[(k+2)%3]]=1; std::vector<int> seen(P.size(),0); for(auto&l:h){ sx_check(l.size()>=3,"hole has at least three points"); for(size_t i=0;i<l.size();i++){ sx_check(l[i]>=0&&l[i]<(int)P.size(),"hole point in range"); seen[l[i]]++; int a=l[i],b=l[(i+1)%l.size()]; bool be=false; for(auto&x:t) for(int k=0;k<3;k++) be|=x.s2[k]==N&&(int)x.v[(k+1)%3]==a&&(int)x.v[(k+2)%3]==b; sx_check(be,"consecutive hole points are a boundary edge"); } } for(size_t i=0;i<P.size();i++) sx_check(seen[i]==(int)on[i],"every boundary point in one hole"); }
