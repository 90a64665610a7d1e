// C02: mixed-element meshes
#include "sx.h"
#include <vector>
#include <climits>
#include <algorithm>
#include <iterator>
#include "delfem2/mshelm.h"
#include "delfem2/msh_topology_mix.h"
namespace dfm2=delfem2;
typedef std::vector<unsigned int> VU; typedef std::vector<int> VI; typedef std::vector<dfm2::MESHELEM_TYPE> VT;
static const int T=SX_TIER;
struct Fc { int nf; int nn[6]; int v[6][4]; };
static const Fc& faces(dfm2::MESHELEM_TYPE t){ // independent definition (as node sets)
  static const Fc tri={3,{2,2,2},{{1,2},{2,0},{0,1}}}, quad={4,{2,2,2,2},{{0,1},{1,2},{2,3},{3,0}}}, tet={4,{3,3,3,3},{{1,2,3},{0,3,2},{0,1,3},{0,2,1}}},
   hex={6,{4,4,4,4,4,4},{{0,4,7,3},{1,2,6,5},{0,1,5,4},{3,7,6,2},{0,3,2,1},{4,5,6,7}}}, pyr={5,{4,3,3,3,3},{{0,3,2,1},{0,1,4},{1,2,4},{2,3,4},{3,0,4}}}, wed={5,{4,4,4,3,3},{{0,2,5,3},{1,0,3,4},{2,1,4,5},{0,1,2},{3,5,4}}};
  switch(t){ case dfm2::MESHELEM_TRI: return tri; case dfm2::MESHELEM_QUAD: return quad; case dfm2::MESHELEM_TET: return tet; case dfm2::MESHELEM_HEX: return hex; case dfm2::MESHELEM_PYRAMID: return pyr; default: return wed; } }
struct Mix { VU ind,el; VT ty; int ne() const { return (int)ty.size(); } };
static void add(Mix&m,dfm2::MESHELEM_TYPE t,const VU&v){ if(m.ind.empty()) m.ind.push_back(0); for(auto x:v) m.el.push_back(x); m.ind.push_back(m.el.size()); m.ty.push_back(t); }
static bool same(const Mix&m,int i,int f,int j,int g){ auto&F=faces(m.ty[i]);auto&G=faces(m.ty[j]); if(F.nn[f]!=G.nn[g]) return false; for(int a=0;a<F.nn[f];a++){ bool h=false; for(int b=0;b<G.nn[g];b++) h|=m.el[m.ind[i]+F.v[f][a]]==m.el[m.ind[j]+G.v[g][b]]; if(!h) return false; } return true; }
static void check(const Mix&m,int nv){
  int ne=m.ne(); VU si,sv; dfm2::JArray_ElSuP_MeshMix(si,sv,m.ind,m.el,nv); sx_check((int)si.size()==nv+1&&si[0]==0&&si[nv]==sv.size(),"index shape");
  for(int p=0;p<nv;p++) for(int i=0;i<ne;i++){ int c=0; for(unsigned k=si[p];k<si[p+1];k++) c+=sv[k]==(unsigned)i; bool in=false; for(unsigned k=m.ind[i];k<m.ind[i+1];k++) in|=m.el[k]==(unsigned)p; sx_check(c==(in?1:0),"element listed at a point iff it uses it"); }
  VI fi,fr; dfm2::ElSuEl_MeshMix(fi,fr,m.ind,m.el,m.ty,nv); sx_check((int)fi.size()==ne+1&&fi[0]==0,"face index"); for(int i=0;i<ne;i++) sx_check(fi[i+1]-fi[i]==faces(m.ty[i]).nf,"face count"); sx_check((int)fr.size()==2*fi[ne],"face table size");
  for(int i=0;i<ne;i++) for(int f=0;f<faces(m.ty[i]).nf;f++){ int j=fr[2*(fi[i]+f)],g=fr[2*(fi[i]+f)+1]; if(j==-1){ for(int k=0;k<ne;k++) if(k!=i) for(int h=0;h<faces(m.ty[k]).nf;h++) sx_check(!same(m,i,f,k,h),"boundary face has no partner"); } else { sx_check(j>=0&&j<ne&&j!=i,"neighbour in range"); sx_check(g>=0&&g<faces(m.ty[j]).nf&&same(m,i,f,j,g),"neighbour face is the same face"); } }
  // groups
  int ng=0; VI gr; dfm2::MakeGroupElem_MeshMix(ng,gr,m.ind,m.el,m.ty,nv); bool con[6][6]; for(int i=0;i<ne;i++) for(int j=0;j<ne;j++){ con[i][j]=i==j; for(int k=fi[i];k<fi[i+1];k++) con[i][j]|=fr[2*k]==j; }
  for(int i=0;i<ne;i++) for(int j=0;j<ne;j++) con[i][j]=con[i][j]||con[j][i]; for(int k=0;k<ne;k++) for(int i=0;i<ne;i++) for(int j=0;j<ne;j++) con[i][j]|=con[i][k]&&con[k][j];
  sx_check((int)gr.size()==ne,"one label per element"); int mx=-1; for(int i=0;i<ne;i++){ sx_check(gr[i]>=0&&gr[i]<ng,"label in range"); if(gr[i]>mx) mx=gr[i]; for(int j=0;j<ne;j++) sx_check((gr[i]==gr[j])==con[i][j],"same label iff connected"); } sx_check(mx+1==ng,"group count");
  { int ig=sx_choose("clip",2); if(ig<ng){ Mix c; c.ind.assign(2,9); dfm2::ClipGroup_MeshMix(c.ind,c.el,c.ty,m.ind,m.el,m.ty,ig,gr); size_t q=0; for(int i=0;i<ne;i++) if(gr[i]==ig){ sx_check(q<c.ty.size()&&c.ty[q]==m.ty[i]&&c.ind[q+1]-c.ind[q]==m.ind[i+1]-m.ind[i],"clipped element kept"); for(unsigned k=0;k<m.ind[i+1]-m.ind[i];k++) sx_check(c.el[c.ind[q]+k]==m.el[m.ind[i]+k],"clipped nodes kept"); q++; } sx_check(q==c.ty.size()&&c.ind.size()==q+1&&c.ind[0]==0,"only the group"); } }
  bool solid=m.ty[0]!=dfm2::MESHELEM_TRI&&m.ty[0]!=dfm2::MESHELEM_QUAD;
  if(solid){ Mix b; dfm2::Boundary_MeshMix(b.ind,b.el,b.ty,m.ind,m.el,m.ty,fi,fr); size_t q=0; sx_check(b.ind.size()==b.ty.size()+1&&b.ind[0]==0&&b.ind.back()==b.el.size(),"boundary shape"); for(int i=0;i<ne;i++) for(int f=0;f<faces(m.ty[i]).nf;f++) if(fr[2*(fi[i]+f)]==-1){ auto&F=faces(m.ty[i]); sx_check(q<b.ty.size()&&(int)(b.ind[q+1]-b.ind[q])==F.nn[f],"boundary element size"); for(int a=0;a<F.nn[f];a++){ bool h=false; for(unsigned k=b.ind[q];k<b.ind[q+1];k++) h|=b.el[k]==m.el[m.ind[i]+F.v[f][a]]; sx_check(h,"boundary element is the face"); } q++; } sx_check(q==b.ty.size(),"one boundary element per open face");
    // the boundary is a closed surface: every directed edge is matched by its reverse
    for(size_t x=0;x<b.ty.size();x++){ unsigned n=b.ind[x+1]-b.ind[x]; for(unsigned k=0;k<n;k++){ unsigned a=b.el[b.ind[x]+k],c=b.el[b.ind[x]+(k+1)%n]; int fw=0,bw=0; for(size_t y=0;y<b.ty.size();y++){ unsigned o=b.ind[y+1]-b.ind[y]; for(unsigned l=0;l<o;l++){ unsigned s=b.el[b.ind[y]+l],t=b.el[b.ind[y]+(l+1)%o]; fw+=s==a&&t==c; bw+=s==c&&t==a; } } sx_check(fw==bw,"boundary is closed and consistently oriented"); } } }
  else { VU tr(3,4u); dfm2::Convert2Tri_MeshMix(tr,m.ind,m.el,m.ty); size_t q=0; for(int i=0;i<ne;i++){ int n=m.ind[i+1]-m.ind[i]; const unsigned*e=&m.el[m.ind[i]]; size_t q0=q; q+=n-2; sx_check(tr.size()>=3*q,"enough triangles"); for(int k=0;k<n;k++){ bool ok=false; for(size_t t=q0;t<q;t++) for(int c=0;c<3;c++) ok|=tr[3*t+c]==e[k]&&tr[3*t+(c+1)%3]==e[(k+1)%n]; sx_check(ok,"element edge kept with its direction"); } } sx_check(tr.size()==3*q,"triangle count");
    VI fl; dfm2::FlipElement_MeshMix(fl,m.ind,m.el,m.ty); sx_check(fl.size()==m.el.size(),"flip keeps size"); for(int i=0;i<ne;i++){ int n=m.ind[i+1]-m.ind[i]; for(int k=0;k<n;k++){ int a=m.el[m.ind[i]+k],b=m.el[m.ind[i]+(k+1)%n]; bool ok=false; for(int c=0;c<n;c++) ok|=fl[m.ind[i]+c]==b&&fl[m.ind[i]+(c+1)%n]==a; sx_check(ok,"every edge reversed"); } } }
}
SX_ENTRY(mix_surface){ sx_opt("max_ite",0); Mix m; int nv=T?6:5,ne=2; for(int i=0;i<ne;i++){ bool q=sx_choose("quad",2); int n=q?4:3; VU e; for(int k=0;k<n;k++){ unsigned v=i==0?k:(unsigned)sx_int("v",0,nv-1); for(auto x:e) sx_assume(x!=v); e.push_back(v); } add(m,q?dfm2::MESHELEM_QUAD:dfm2::MESHELEM_TRI,e); } if(sx_choose("third",2)){ VU e={3,2,1}; add(m,dfm2::MESHELEM_TRI,e); 
    for(int i=0;i<3;i++) for(int f=0;f<faces(m.ty[i]).nf;f++){ int c=0; for(int k=0;k<3;k++) if(k!=i) for(int g=0;g<faces(m.ty[k]).nf;g++) c+=same(m,i,f,k,g); sx_assume(c<=1); } } check(m,nv); }
// two solid elements glued along a face, with symbolic choice of types, faces and rotation
SX_ENTRY(mix_solid){ sx_opt("max_ite",0); static const dfm2::MESHELEM_TYPE ts[4]={dfm2::MESHELEM_TET,dfm2::MESHELEM_PYRAMID,dfm2::MESHELEM_WEDGE,dfm2::MESHELEM_HEX}; static const int nn[4]={4,5,6,8};
  Mix m; int a=sx_choose("a",4),b=sx_choose("b",4); VU e; for(int i=0;i<nn[a];i++) e.push_back(i); add(m,ts[a],e); int nx=nn[a]; const Fc&F=faces(ts[a]);const Fc&G=faces(ts[b]); int f=sx_choose("f",F.nf),g=sx_choose("g",G.nf); VU h(nn[b],99u);
  if(F.nn[f]==G.nn[g]){ int n=F.nn[f],r=sx_choose("rot",n); for(int k=0;k<n;k++) h[G.v[g][k]]=F.v[f][(r+n-k)%n]; } else { h[G.v[g][0]]=F.v[f][0]; }
  for(auto&x:h) if(x==99) x=nx++; add(m,ts[b],h); check(m,nx+1); }
SX_ENTRY(mix_add_element){ dfm2::CElemMixed em; VI t1; int n1=sx_choose("n1",3); for(int i=0;i<3*n1;i++) t1.push_back(sx_int("v",0,9)); VI q1; int n2=sx_choose("n2",3); for(int i=0;i<4*n2;i++) q1.push_back(sx_int("w",0,9));
  em.AddElement(dfm2::MESHELEM_TRI,t1); em.AddElement(dfm2::MESHELEM_QUAD,q1); sx_check(em.nElem()==n1+n2,"element count"); sx_check((int)em.aElemType.size()==n1+n2&&(int)em.aElem.size()==3*n1+4*n2,"sizes");
  for(int i=0;i<n1+n2;i++){ bool t=i<n1; sx_check(em.aElemType[i]==(t?dfm2::MESHELEM_TRI:dfm2::MESHELEM_QUAD),"type"); int n=t?3:4; sx_check((int)(em.aElemInd[i+1]-em.aElemInd[i])==n,"length"); for(int k=0;k<n;k++) sx_check((int)em.aElem[em.aElemInd[i]+k]==(t?t1[3*i+k]:q1[4*(i-n1)+k]),"node kept"); } }
