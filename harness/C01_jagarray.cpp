// C01: jagged arrays with symbolic row lengths and symbolic entries
#include "sx.h"
#include <vector>
#include <iostream>
#include "delfem2/jagarray.h"
namespace dfm2=delfem2;
typedef std::vector<unsigned int> VU;
static const int T=SX_TIER;
static void jag(VU&ind,VU&val,int maxrow,int maxlen,int maxtot,int range,bool distinct){
  int n=1+sx_choose("rows",maxrow); ind.assign(1,0); val.clear();
  for(int r=0;r<n;r++){ int left=maxtot-(int)val.size(); int L=sx_choose("len",(left<maxlen?left:maxlen)+1); int hi=(range<0?n:range)-1; size_t s=val.size();
    for(int i=0;i<L;i++){ unsigned v=(unsigned)sx_int("v",0,hi); if(distinct) for(size_t k=s;k<val.size();k++) sx_assume(val[k]!=v); val.push_back(v); }
    ind.push_back((unsigned)val.size()); } }
static void rows_sorted(const VU&ind,const VU&v,const VU&v0){
  sx_check(v.size()==v0.size(),"sort keeps the size");
  for(size_t r=0;r+1<ind.size();r++){
    for(unsigned i=ind[r];i+1<ind[r+1];i++) sx_check(v[i]<=v[i+1],"row is sorted");
    for(unsigned i=ind[r];i<ind[r+1];i++){ int a=0,b=0; for(unsigned j=ind[r];j<ind[r+1];j++){ a+=v0[j]==v0[i]; b+=v[j]==v0[i]; } sx_check(a==b,"row keeps its multiset"); } } }
SX_ENTRY(sort_vector){ sx_opt("max_ite",0); VU ind,v; jag(ind,v,T?3:3,T?5:4,T?6:5,8,false); VU v0=v,ind0=ind; dfm2::JArray_Sort(ind,v); sx_check(ind==ind0,"index untouched"); rows_sorted(ind,v,v0); for(auto x:v) sx_observe_i("v",x); }
SX_ENTRY(sort_pointer){ VU ind,v; jag(ind,v,T?3:3,T?5:4,T?6:5,8,false); v.push_back(7); VU v0=v; dfm2::JArray_Sort(ind.data(),(unsigned)ind.size()-1,v.data()); sx_check(v.back()==v0.back(),"no write past the end"); rows_sorted(ind,v,v0); }
SX_ENTRY(sort_degenerate){ VU ind,v; dfm2::JArray_Sort(ind,v); sx_check(ind.empty()&&v.empty(),"empty stays empty"); unsigned i1[1]={0}; dfm2::JArray_Sort(i1,0,nullptr); }
// row of the result against the definition
static bool has(const VU&v,unsigned s,unsigned e,unsigned x){ for(unsigned i=s;i<e;i++) if(v[i]==x) return true; return false; }
static int cnt(const VU&v,unsigned s,unsigned e,unsigned x){ int c=0; for(unsigned i=s;i<e;i++) c+=v[i]==x; return c; }
static void shape(const VU&ind,const VU&val,size_t n){ sx_check(ind.size()==n+1,"index length"); sx_check(ind[0]==0,"index starts at 0"); for(size_t i=0;i<n;i++) sx_check(ind[i]<=ind[i+1],"index is monotone"); sx_check(ind[n]==val.size(),"index ends at the value count"); }
static void stale(VU&a,VU&b){ if(sx_choose("stale",2)){ a.assign(2,3u); b.assign(3,7u); } }
SX_ENTRY(add_diagonal){ VU ind,v; jag(ind,v,T?4:3,T?4:3,T?6:5,-1,true); size_t n=ind.size()-1; VU i1,v1; stale(i1,v1);
  dfm2::JArray_AddDiagonal(i1,v1,ind.data(),ind.size(),v.data(),v.size()); shape(i1,v1,n);
  for(unsigned r=0;r<n;r++) for(unsigned k=0;k<n;k++){ int c=cnt(v1,i1[r],i1[r+1],k); if(k==r) sx_check(c==1,"own index exactly once"); else sx_check(c==cnt(v,ind[r],ind[r+1],k),"other entries kept"); }
  for(auto x:v1) sx_check(x<n,"entry in range"); for(auto x:i1) sx_observe_i("i",x); for(auto x:v1) sx_observe_i("v",x); }
SX_ENTRY(extend){ VU ind,v; jag(ind,v,T?4:3,T?3:3,T?7:5,-1,false); size_t n=ind.size()-1; VU i1,v1; stale(i1,v1);
  dfm2::JArray_Extend(i1,v1,ind.data(),ind.size(),v.data()); shape(i1,v1,n);
  for(unsigned r=0;r<n;r++) for(unsigned k=0;k<n;k++){ bool two=false; for(unsigned j=0;j<n;j++) if(has(v,ind[r],ind[r+1],j)&&has(v,ind[j],ind[j+1],k)) two=true; int c=cnt(v1,i1[r],i1[r+1],k); sx_check(c==((two&&k!=r)?1:0),"row is the set reached in two steps"); }
  for(auto x:v1) sx_check(x<n,"entry in range"); }
SX_ENTRY(edges_of_symmetric){ // psup rows of a symmetric graph without self loops given by a symbolic adjacency matrix
  int n=1+sx_choose("n",T?5:4); bool a[6][6]; for(int i=0;i<n;i++){ a[i][i]=false; for(int j=0;j<i;j++) a[i][j]=a[j][i]=sx_int("adj",0,1)!=0; }
  VU ind(1,0),v; for(int i=0;i<n;i++){ bool rev=(i%2)==1; for(int q=0;q<n;q++){ int j=rev?n-1-q:q; if(a[i][j]) v.push_back(j); } ind.push_back((unsigned)v.size()); }
  VU ei,e; stale(ei,e); dfm2::JArrayEdgeUnidir_PointSurPoint(ei,e,ind,v); shape(ei,e,n);
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) sx_check(cnt(e,ei[i],ei[i+1],j)==((i<j&&a[i][j])?1:0),"each undirected edge once, from its lower end");
  for(auto x:e) sx_observe_i("e",x); }
SX_ENTRY(edges_of_any){ VU ind,v; jag(ind,v,T?4:3,3,T?6:5,-1,true); size_t n=ind.size()-1; VU ei,e; dfm2::JArrayEdgeUnidir_PointSurPoint(ei,e,ind,v); shape(ei,e,n);
  for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) sx_check(cnt(e,ei[i],ei[i+1],j)==((i<j)?cnt(v,ind[i],ind[i+1],j):0),"entries above the row index"); }
