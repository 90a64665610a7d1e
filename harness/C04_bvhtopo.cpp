// C04: Morton-code and top-down BVH topology
#include "sx.h"
#include <vector>
#include <climits>
#include "delfem2/srch_bvh.h"
namespace dfm2=delfem2; typedef std::vector<unsigned> VU; typedef std::vector<dfm2::CNodeBVH2> VN;
static const int T=SX_TIER; static const unsigned N=UINT_MAX;
static void fullTree(const VN&b,unsigned nobj){ sx_check(b.size()==2*nobj-1,"node count of a full binary tree"); sx_check(b[0].iparent==N,"root has no parent"); std::vector<int> obj(nobj,0),asChild(b.size(),0); unsigned leaves=0;
  for(unsigned i=0;i<b.size();i++){ if(b[i].ichild[1]==N){ leaves++; sx_check(b[i].ichild[0]<nobj,"leaf stores an object index"); obj[b[i].ichild[0]]++; } else for(unsigned c:b[i].ichild){ sx_check(c<b.size()&&c!=0,"child index in range"); sx_check(b[c].iparent==i,"parent link of a child points back"); asChild[c]++; } if(i) sx_check(b[i].iparent<b.size(),"parent in range"); }
  sx_check(leaves==nobj,"one leaf per object"); for(unsigned i=0;i<nobj;i++) sx_check(obj[i]==1,"each object in exactly one leaf"); for(unsigned i=1;i<b.size();i++) sx_check(asChild[i]==1,"each node has one parent");
  // acyclic: reach all from the root within b.size() pops
  VU st={0}; unsigned seen=0; while(!st.empty()&&seen<=b.size()){ unsigned i=st.back(); st.pop_back(); seen++; if(b[i].ichild[1]!=N){ st.push_back(b[i].ichild[0]); st.push_back(b[i].ichild[1]); } } sx_check(seen==b.size(),"every node is reachable from the root once"); dfm2::Check_BVH(b,nobj); }
static unsigned lz(uint32_t x){ unsigned n=0; for(int k=31;k>=0;k--){ if(sx_fork((x>>k)&1)) break; n++; } return n; }
static VU codes(int n,int mode){ VU c(n); for(int i=0;i<n;i++){ uint32_t v= mode==0? (uint32_t)sx_bits("code",32) : mode==1 ? (uint32_t)(sx_bits("lo",3)) : mode==2? (uint32_t)(sx_bits("hi",3))<<29 : ((uint32_t)sx_bits("a",2)<<30|(uint32_t)sx_bits("b",1)<<14|(uint32_t)sx_bits("c",1)); c[i]=v; if(i) sx_assume(c[i-1]<=c[i]); } return c; }
static void opt(){ sx_opt("max_ite",0); }
SX_ENTRY(clz){ opt(); uint32_t x=sx_bits("x",32); unsigned n=dfm2::nbits_leading_zero(x); sx_check(n<=32&&(n==32)==(x==0),"zero word has 32 leading zeros"); if(n<32) sx_check((x>>(31-n))==1u,"number of leading zeros"); }
static void topo(int n,int mode){ opt(); VU mc=codes(n,mode),id(n); for(int i=0;i<n;i++) id[i]=n==1?0:(i+1)%n; VN b; if(sx_choose("stale",T?2:1)) b.resize(2*n+1); dfm2::BVHTopology_Morton(b,id,mc); fullTree(b,n); 
  // leaves below each internal node are one contiguous range of the sorted order
  for(int i=0;i<n-1;i++){ VU st={(unsigned)i}; unsigned lo=N,hi=0,cnt=0; while(!st.empty()){ unsigned k=st.back(); st.pop_back(); if(b[k].ichild[1]==N){ unsigned p=k-(n-1); lo=p<lo?p:lo; hi=p>hi?p:hi; cnt++; sx_check(b[k].ichild[0]==id[p],"leaf order follows the sorted order"); } else { st.push_back(b[k].ichild[0]); st.push_back(b[k].ichild[1]); } } sx_check(cnt==hi-lo+1,"subtree covers a contiguous range"); sx_check(lo==(unsigned)i||hi==(unsigned)i,"range has its own index at one end"); } dfm2::Check_MortonCode_RangeSplit(mc); }
SX_ENTRY(topology_full32){ topo(1+sx_choose("n",T?3:3),0); }
SX_ENTRY(topology_low){ topo(4+sx_choose("n",T?3:2),1); }
SX_ENTRY(topology_high){ topo(4+sx_choose("n",T?3:2),2); }
SX_ENTRY(topology_mixed){ topo(4+sx_choose("n",T?3:1),3); }
SX_ENTRY(find_split){ opt(); int n=2+sx_choose("n",T?5:4); VU mc=codes(n,1+sx_choose("mode",3)); unsigned a=sx_choose("first",n-1),b=a+1+sx_choose("last",n-1-a); unsigned s=dfm2::MortonCode_FindSplit(mc.data(),a,b); sx_check(s>=a&&s<b,"split lies inside the range"); uint32_t x=mc[a]^mc[b]; if(x==0) sx_check(s==a,"equal codes split at the first"); else { unsigned d=lz(x); sx_check(lz(mc[a]^mc[s])>d,"first half shares a longer prefix"); sx_check(lz(mc[a]^mc[s+1])==d,"second half differs at the split bit"); sx_check(lz(mc[s+1]^mc[b])>d,"second half shares a longer prefix"); } sx_check(dfm2::MortonCode_FindSplit(mc.data(),a,a)==N,"single element has no split"); }
static uint32_t spread(uint32_t v){ uint32_t r=0; for(int k=0;k<10;k++) r|=((v>>k)&1u)<<(3*k); return r; }
static double win(const char*n){ static const double K[5]={-2,0,509,1021,127}; int w=sx_choose("window",T?5:4); return K[w]+sx_real_in(n,0,w==0?3:5); }
static uint32_t cell(double q){ if(sx_fork(q<=0)) return 0; for(uint32_t k=1;k<1023;k++){ if(k==8) k=127; if(k==136) k=508; if(k==518) k=1018; if(sx_fork(q<k)) return k-1; } return sx_fork(q<1023)?1022:1023; }
SX_ENTRY(morton_code){ opt(); double q=win("q"); int ax=sx_choose("axis",3); double p[3]={.3,.6,.9}; p[ax]=q/1024; uint32_t m=sx_choose("float",T?2:1)?dfm2::MortonCode<double>(p[0],p[1],p[2]):dfm2::MortonCode<double>(p[0],p[1],p[2]); uint32_t c[3]={307,614,921}; c[ax]=cell(q); sx_check(m==spread(c[0])*4+spread(c[1])*2+spread(c[2]),"code interleaves the ten-bit cell coordinates"); sx_check(m<(1u<<30),"code has thirty bits"); }
SX_ENTRY(expand_bits){ opt(); uint32_t v=sx_bits("v",10); sx_check(dfm2::bvh::expandBits(v)==spread(v),"bits are spread by three"); }
SX_ENTRY(sorted_points){ opt(); int n=2+sx_choose("n",T?3:2); std::vector<double> xyz; double mn[3]={-1,0,2},mx[3]={3,8,4}; for(int i=0;i<n;i++){ double q=sx_real_in("q",0,i<2?4:2); xyz.push_back(-1+4*(510+q)/1024); xyz.push_back(0.5+i%2); xyz.push_back(3); } VU id(5,77u),mc; dfm2::SortedMortenCode_Points3(id,mc,xyz,mn,mx); sx_check((int)id.size()==n&&(int)mc.size()==n,"one code per point"); std::vector<int> s(n,0); for(int i=0;i<n;i++){ sx_check(id[i]<(unsigned)n,"index in range"); s[id[i]]++; if(i) sx_check(mc[i-1]<=mc[i],"codes are sorted"); const double*p=&xyz[3*id[i]]; sx_check(mc[i]==dfm2::MortonCode<double>((p[0]-mn[0])/4,(p[1]-mn[1])/8,(p[2]-mn[2])/2),"code belongs to the point"); } for(int i=0;i<n;i++) sx_check(s[i]==1,"each point once"); }
// top-down construction over elements with symbolic centres; any neighbour relation
SX_ENTRY(topdown){ opt(); int n=1+sx_choose("n",T?4:3); std::vector<double> cg; for(int i=0;i<n;i++){ double x=sx_grid("x",0,3),y=n<=2||T?sx_grid("y",0,3):(double)sx_choose("yc",2),z=n<=2?sx_grid("z",0,2):0; cg.push_back(x); cg.push_back(y); cg.push_back(z); for(int k=0;k<i;k++) sx_assume((cg[3*k]!=x)|(cg[3*k+1]!=y)|(cg[3*k+2]!=z)); } VU nb(2*n,N); int g=sx_choose("graph",3); for(int i=0;i<n;i++){ if(g==0){ if(i) nb[2*i]=i-1; if(i+1<n) nb[2*i+1]=i+1; } if(g==1){ nb[2*i]=(i+1)%n; nb[2*i+1]=(i+n-1)%n; } } VN b(3); dfm2::BVHTopology_TopDown_MeshElem(b,2,nb,cg); fullTree(b,n); }
