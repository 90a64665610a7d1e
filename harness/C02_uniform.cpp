// C02: adjacency tables of uniform meshes with symbolic connectivity
#include "sx.h"
#include <vector>
#include <climits>
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
namespace dfm2=delfem2;
typedef std::vector<unsigned int> VU;
static const int T=SX_TIER;
static int cnt(const VU&v,unsigned s,unsigned e,unsigned x){ int c=0; for(unsigned i=s;i<e;i++) c+=v[i]==x; return c; }
static void shape(const VU&ind,const VU&val,size_t n){ sx_check(ind.size()==n+1,"index length"); sx_check(ind[0]==0,"index starts at 0"); for(size_t i=0;i<n;i++) sx_check(ind[i]<=ind[i+1],"index is monotone"); sx_check(ind[n]==val.size(),"index ends at the value count"); }
static void init(){ sx_opt("max_ite",0); }
static void stale(VU&a,VU&b){ if(sx_choose("stale",2)){ a.assign(2,3u); b.assign(3,7u); } }
// symbolic connectivity, vertices of an element distinct; the first nfix elements are 0..nn-1 in order
static VU mesh(int ne,int nn,int nv,bool fixfirst){ VU e; for(int i=0;i<ne;i++) for(int k=0;k<nn;k++){ unsigned v=(i==0&&fixfirst)?(unsigned)k:(unsigned)sx_int("v",0,nv-1); for(int q=0;q<k;q++) sx_assume(e[i*nn+q]!=v); e.push_back(v);} return e; }
static bool inel(const VU&e,int nn,int i,unsigned p){ for(int k=0;k<nn;k++) if(e[i*nn+k]==p) return true; return false; }
static void tables(const VU&e,int ne,int nn,int nv){
  VU ind,val; stale(ind,val); dfm2::JArray_ElSuP_MeshElem(ind,val,e.data(),ne,nn,nv); shape(ind,val,nv);
  for(int p=0;p<nv;p++) for(int i=0;i<ne;i++) sx_check(cnt(val,ind[p],ind[p+1],i)==(inel(e,nn,i,p)?1:0),"element listed at a point iff it uses it");
  if(nn==3){ VU i2,v2; dfm2::JArray_ElSuP_MeshTri(i2,v2,e,nv); sx_check(i2==ind&&v2==val,"triangle variant agrees"); }
  VU pi,pv; stale(pi,pv); dfm2::JArrayPointSurPoint_MeshOneRingNeighborhood(pi,pv,e.data(),ind,val,nn,nv); shape(pi,pv,nv);
  for(int p=0;p<nv;p++) for(int q=0;q<nv;q++){ bool s=false; if(p!=q) for(int i=0;i<ne;i++) if(inel(e,nn,i,p)&&inel(e,nn,i,q)) s=true; sx_check(cnt(pv,pi[p],pi[p+1],q)==(s?1:0),"points around a point: exactly those sharing an element"); }
  VU qi,qv; stale(qi,qv); dfm2::JArray_PSuP_MeshElem(qi,qv,e.data(),ne,nn,nv); sx_check(qi==pi&&qv==pv,"direct construction agrees"); 
  for(auto x:pv) sx_observe_i("psup",x); }
SX_ENTRY(around_tri2){ init(); tables(mesh(2,3,T?5:4,false),2,3,T?5:4); }
SX_ENTRY(around_tri3){ init(); int nv=5; tables(mesh(3,3,nv,true),3,3,nv); }
SX_ENTRY(around_line){ init(); int ne=3,nv=T?5:4; tables(mesh(ne,2,nv,false),ne,2,nv); }
SX_ENTRY(around_quad){ init(); tables(mesh(2,4,T?6:5,true),2,4,T?6:5); }
// definition of faces of the element types, written independently
struct Ty { dfm2::MESHELEM_TYPE t; int nn,nf,nfn; int f[6][4]; int ne; int e[12][2]; };
static const Ty TRI={dfm2::MESHELEM_TRI,3,3,2,{{1,2},{2,0},{0,1}},3,{{0,1},{1,2},{2,0}}};
static const Ty QUAD={dfm2::MESHELEM_QUAD,4,4,2,{{0,1},{1,2},{2,3},{3,0}},4,{{0,1},{1,2},{2,3},{3,0}}};
static const Ty TET={dfm2::MESHELEM_TET,4,4,3,{{1,2,3},{0,2,3},{0,1,3},{0,1,2}},6,{{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}};
static const Ty HEX={dfm2::MESHELEM_HEX,8,6,4,{{0,4,7,3},{1,2,6,5},{0,1,5,4},{3,7,6,2},{0,3,2,1},{4,5,6,7}},12,{{0,1},{1,2},{2,3},{3,0},{4,5},{5,6},{6,7},{7,4},{0,4},{1,5},{2,6},{3,7}}};
static const Ty LINE={dfm2::MESHELEM_LINE,2,2,1,{{0},{1}},1,{{0,1}}};
static bool faceIn(const VU&e,const Ty&t,int i,int f,int j,int g){ for(int a=0;a<t.nfn;a++){ bool h=false; for(int b=0;b<t.nfn;b++) h|=e[i*t.nn+t.f[f][a]]==e[j*t.nn+t.f[g][b]]; if(!h) return false; } return true; }
static void neigh(const VU&e,const Ty&t,int ne,int nv){
  VU r; if(sx_choose("stale",2)) r.assign(5,7u); dfm2::ElSuEl_MeshElem(r,e.data(),ne,t.t,nv); sx_check((int)r.size()==ne*t.nf,"one entry per face");
  for(int i=0;i<ne;i++) for(int f=0;f<t.nf;f++){ unsigned j=r[i*t.nf+f]; bool any=false,mine=false; for(int k=0;k<ne;k++) if(k!=i){ bool s=false; for(int g=0;g<t.nf;g++) s|=faceIn(e,t,i,f,k,g); any|=s; if((unsigned)k==j) mine=s; }
      if(j==UINT_MAX) sx_check(!any,"boundary face has no partner"); else sx_check(j<(unsigned)ne&&j!=(unsigned)i&&mine,"neighbour really shares the face"); }
  // connected groups
  int ng=-1; std::vector<unsigned int> fl; dfm2::MakeGroupElem(ng,fl,e,r,t.nf,t.nn); sx_check((int)fl.size()==ne,"one label per element");
  bool con[8][8]; for(int i=0;i<ne;i++) for(int j=0;j<ne;j++){ con[i][j]=i==j; for(int f=0;f<t.nf;f++) con[i][j]|=r[i*t.nf+f]==(unsigned)j; }
  for(int k=0;k<ne;k++) for(int i=0;i<ne;i++) for(int j=0;j<ne;j++) con[i][j]|=con[i][k]&&con[k][j];
  int mx=-1; for(int i=0;i<ne;i++){ sx_check(fl[i]<(unsigned)ng,"label in range"); if((int)fl[i]>mx) mx=fl[i]; for(int j=0;j<ne;j++) if(con[i][j]) sx_check(fl[i]==fl[j],"connected elements share the label"); else if(!con[j][i]) sx_check(fl[i]!=fl[j],"separate elements have different labels"); }
  sx_check(mx+1==ng,"group count"); for(auto x:r) sx_observe_i("el",x); }
// at most two elements per face (manifold), so that the neighbour relation is symmetric
static void manifold(const VU&e,const Ty&t,int ne){ for(int i=0;i<ne;i++) for(int f=0;f<t.nf;f++){ int c=0; for(int k=0;k<ne;k++) if(k!=i){ for(int g=0;g<t.nf;g++) c+=faceIn(e,t,i,f,k,g); } sx_assume(c<=1); } }
SX_ENTRY(neighbour_tri2){ init(); neigh(mesh(2,3,T?5:4,false),TRI,2,T?5:4); }
SX_ENTRY(neighbour_tri3){ init(); VU e=mesh(3,3,5,true); manifold(e,TRI,3); neigh(e,TRI,3,5); }
SX_ENTRY(neighbour_quad){ init(); VU e=mesh(2,4,T?6:5,true); neigh(e,QUAD,2,T?6:5); }
SX_ENTRY(neighbour_tet){ init(); VU e=mesh(2,4,T?6:5,true); neigh(e,TET,2,T?6:5); }
SX_ENTRY(neighbour_line){ init(); VU e=mesh(3,2,4,false); manifold(e,LINE,3); neigh(e,LINE,3,4); }
// a second hexahedron glued on a symbolic face with a symbolic rotation/reflection, extra vertices new
SX_ENTRY(neighbour_hex){ init(); VU e; for(unsigned i=0;i<8;i++) e.push_back(i); int f=sx_choose("face",6),g=sx_choose("face2",6),rot=sx_choose("rot",4); VU h(8,99); for(int k=0;k<4;k++) h[HEX.f[g][k]]=HEX.f[f][(rot+4-k)%4]; unsigned nx=8; for(auto&x:h) if(x==99) x=nx++; bool apart=sx_int("apart",0,1); if(apart) for(auto&x:h) if(x<8&&x%3==0) x=nx++; for(auto x:h) e.push_back(x); neigh(e,HEX,2,nx); }
static void edges(const VU&e,const Ty&t,int ne,int nv){
  VU ind,val; dfm2::JArray_ElSuP_MeshElem(ind,val,e.data(),ne,t.nn,nv);
  for(int bi=0;bi<2;bi++){ VU ei,ev; dfm2::JArrayEdge_MeshElem(ei,ev,e.data(),t.t,ind,val,bi==1); shape(ei,ev,nv);
    for(int p=0;p<nv;p++) for(int q=0;q<nv;q++){ bool s=false; for(int i=0;i<ne;i++) for(int k=0;k<t.ne;k++){ unsigned a=e[i*t.nn+t.e[k][0]],b=e[i*t.nn+t.e[k][1]]; s|=(a==(unsigned)p&&b==(unsigned)q)||(a==(unsigned)q&&b==(unsigned)p); } if(!bi&&p>q) s=false; sx_check(cnt(ev,ei[p],ei[p+1],q)==(s?1:0),"edge table lists exactly the element edges"); } }
  VU ln; dfm2::MeshLine_MeshElem(ln,e.data(),ne,t.t,nv); sx_check(ln.size()%2==0,"lines are pairs");
  for(int p=0;p<nv;p++) for(int q=p+1;q<nv;q++){ bool s=false; for(int i=0;i<ne;i++) for(int k=0;k<t.ne;k++){ unsigned a=e[i*t.nn+t.e[k][0]],b=e[i*t.nn+t.e[k][1]]; s|=(a==(unsigned)p&&b==(unsigned)q)||(a==(unsigned)q&&b==(unsigned)p); } int c=0; for(size_t i=0;i<ln.size();i+=2) c+=(ln[i]==(unsigned)p&&ln[i+1]==(unsigned)q)||(ln[i]==(unsigned)q&&ln[i+1]==(unsigned)p); sx_check(c==(s?1:0),"every edge gives one line"); }
  for(size_t i=0;i<ln.size();i+=2) sx_check(ln[i]!=ln[i+1],"no degenerate line"); }
SX_ENTRY(edge_tri){ init(); edges(mesh(2,3,4,false),TRI,2,4); }
SX_ENTRY(edge_quad){ init(); edges(mesh(2,4,5,true),QUAD,2,5); }
SX_ENTRY(edge_tet){ init(); edges(mesh(2,4,5,true),TET,2,5); }
SX_ENTRY(edge_hex){ init(); VU e; int rev=sx_choose("rev",2); for(unsigned i=0;i<8;i++) e.push_back(rev?(unsigned)(7-i):i); edges(e,HEX,1,9); }
SX_ENTRY(edge_reused_output){ init(); VU e={0,1,2, 2,1,3}; VU ind,val; dfm2::JArray_ElSuP_MeshElem(ind,val,e.data(),2,3,4); VU ei,ev; dfm2::JArrayEdge_MeshElem(ei,ev,e.data(),dfm2::MESHELEM_TRI,ind,val,true); VU e0=ei,v0=ev; dfm2::JArrayEdge_MeshElem(ei,ev,e.data(),dfm2::MESHELEM_TRI,ind,val,true); shape(ei,ev,4); sx_check(ei==e0&&ev==v0,"recomputation gives the same table"); }
SX_ENTRY(line_of_jagged){ init(); VU ind(1,0),v; int n=sx_choose("n",3); for(int i=0;i<n;i++){ int L=sx_choose("len",3); for(int k=0;k<L;k++) v.push_back(sx_int("v",0,5)); ind.push_back(v.size()); } VU l; dfm2::MeshLine_JArrayEdge(l,ind,v); sx_check(l.size()==2*v.size(),"two ends per entry"); for(int r=0;r<n;r++) for(unsigned k=ind[r];k<ind[r+1];k++) sx_check(l[2*k]==(unsigned)r&&l[2*k+1]==v[k],"line joins row and value"); }
SX_ENTRY(find_adjacent_edge){ init(); VU e=mesh(2,3,4,false); int ed=sx_choose("ed",3); unsigned r=dfm2::FindAdjEdgeIndex(0,ed,1,e.data()); unsigned a=e[(ed+1)%3],b=e[(ed+2)%3]; int want=-1; for(int k=0;k<3;k++) if(e[3+(k+1)%3]==b&&e[3+(k+2)%3]==a) want=k; sx_check(r==(want<0?UINT_MAX:(unsigned)want),"opposite directed edge"); 
  unsigned x=(unsigned)sx_int("x",0,3); if(e[0]==x||e[1]==x||e[2]==x){ unsigned k=dfm2::FindIndexTri(e.data(),x); sx_check(k<3&&e[k]==x,"corner index"); } }
SX_ENTRY(flip_and_quad2tri){ init(); int n=1+sx_choose("n",2); VU e; for(int i=0;i<3*n;i++) e.push_back(sx_int("v",0,9)); VU f=e; dfm2::FlipElement_Tri(f); for(int i=0;i<n;i++) sx_check(f[3*i]==e[3*i]&&f[3*i+1]==e[3*i+2]&&f[3*i+2]==e[3*i+1],"orientation reversed"); 
  VU q; for(int i=0;i<4*n;i++) q.push_back(sx_int("q",0,9)); VU t; if(sx_choose("stale",2)) t.assign(3,5u); dfm2::convert2Tri_Quad(t,q); sx_check(t.size()==6*(size_t)n,"two triangles per quad"); for(int i=0;i<n;i++){ // boundary of the two triangles is the quad
    int bal=0; (void)bal; for(int a=0;a<4;a++) for(int b=0;b<4;b++) if(a!=b){ } 
    for(int k=0;k<4;k++){ unsigned a=q[4*i+k],b=q[4*i+(k+1)%4]; bool ok=false; for(int h=0;h<2;h++) for(int m=0;m<3;m++) ok|=t[6*i+3*h+m]==a&&t[6*i+3*h+(m+1)%3]==b; sx_check(ok,"quad edge kept with its direction"); } 
    bool tw=false; for(int m=0;m<3;m++) for(int w=0;w<3;w++) tw|=t[6*i+m]==t[6*i+3+(w+1)%3]&&t[6*i+(m+1)%3]==t[6*i+3+w]; sx_check(tw,"triangles share a diagonal in opposite directions"); for(int m=0;m<6;m++){ bool in=false; for(int k=0;k<4;k++) in|=t[6*i+m]==q[4*i+k]; sx_check(in,"only corners of the quad"); } } }
SX_ENTRY(dihedral_quads){ init(); int ne=T?3:2,nv=T?5:4; VU e=mesh(ne,3,nv,true); // consistently oriented: every directed edge at most once
  for(int i=0;i<ne;i++) for(int j=0;j<ne;j++) if(i!=j) for(int a=0;a<3;a++) for(int b=0;b<3;b++) sx_assume(!(e[3*i+a]==e[3*j+b]&&e[3*i+(a+1)%3]==e[3*j+(b+1)%3]));
  for(int i=0;i<ne;i++) for(int j=0;j<i;j++){ int c=0; for(int a=0;a<3;a++) c+=inel(e,3,j,e[3*i+a]); sx_assume(c<3); }
  VU q; dfm2::ElemQuad_DihedralTri(q,e.data(),ne,nv); int cexp=0; for(int i=0;i<ne;i++) for(int j=0;j<i;j++) for(int a=0;a<3;a++) for(int b=0;b<3;b++) cexp+=e[3*i+a]==e[3*j+(b+1)%3]&&e[3*i+(a+1)%3]==e[3*j+b];
  sx_check((int)q.size()==4*cexp,"one quad per interior edge"); for(size_t k=0;k<q.size();k+=4){ int m=0; for(int i=0;i<ne;i++) for(int j=0;j<ne;j++) if(i!=j) for(int a=0;a<3;a++) for(int b=0;b<3;b++) m+=e[3*i+a]==q[k]&&e[3*i+(a+1)%3]==q[k+2]&&e[3*i+(a+2)%3]==q[k+3]&&e[3*j+b]==q[k+1]&&e[3*j+(b+1)%3]==q[k+3]&&e[3*j+(b+2)%3]==q[k+2]; sx_check(m==1,"quad is the two corners and the shared edge"); } }
SX_ENTRY(unify_separate_index){ init(); // two triangles, position and texture indices; a texture vertex belongs to one position
  VU p=mesh(2,3,4,true); VU t=mesh(2,3,T?5:4,false);
  std::vector<double> X,U; for(int i=0;i<12;i++) X.push_back(sx_int("x",-3,3)); for(int i=0;i<10;i++) U.push_back(sx_int("u",-3,3)); std::vector<double> x,u; VU tu,ux,ut; dfm2::UnifySeparateIndexing_PosTex(x,u,tu,ux,ut,X,U,p,t);
  sx_check(tu.size()==6&&ux.size()==ut.size()&&x.size()==3*ux.size()&&u.size()==2*ut.size(),"sizes"); for(int i=0;i<6;i++){ sx_check(tu[i]<ux.size(),"index in range"); sx_check(ux[tu[i]]==p[i]&&ut[tu[i]]==t[i],"corner keeps its position and texture"); }
  for(size_t a=0;a<ux.size();a++){ for(size_t b=0;b<a;b++) sx_check(ux[a]!=ux[b]||ut[a]!=ut[b],"pairs are unique"); for(int d=0;d<3;d++) sx_check(x[3*a+d]==X[3*ux[a]+d],"position copied"); for(int d=0;d<2;d++) sx_check(u[2*a+d]==U[2*ut[a]+d],"texture copied"); } }
SX_ENTRY(hair_neighbours){ init(); int nh=1+sx_choose("hairs",T?3:2); VU root(1,0); for(int i=0;i<nh;i++) root.push_back(root.back()+2+sx_choose("len",T?4:3)); VU pi,pv; dfm2::JArray_PSuP_Hair(pi,pv,root); unsigned np=root.back(); shape(pi,pv,np);
  for(unsigned p=0;p<np;p++) for(unsigned q=0;q<np;q++){ bool s=false; for(int h=0;h<nh;h++) if(root[h]<=p&&p<root[h+1]&&root[h]<=q&&q<root[h+1]&&root[h+1]-root[h]>=3) s=p!=q&&(p>q?p-q:q-p)<=2; sx_check(cnt(pv,pi[p],pi[p+1],q)==(s?1:0),"points within two steps on the same hair"); } }
