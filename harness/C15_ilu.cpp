// C15: block incomplete LU factorisation
#include "sx.h"
#include <vector>
#include <cassert>
#include <cmath>
#include <cstring>
#include <iostream>
#include <set>
using std::fabs;
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef dfm2::CMatrixSparse<double> M; typedef std::vector<double> V; typedef dfm2::CPreconditionerILU<double> ILU;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("fold",1); sx_opt("native_tol_e",8); }
static void pat(M&m,int nb,int l,int mask,bool rev){ m.Initialize(nb,l,true); std::vector<unsigned> ci(1,0),rp; for(int i=0;i<nb;i++){ for(int q=0;q<nb;q++){ int j=rev?nb-1-q:q; if(j==i) continue; int b=i*(nb-1)+(j<i?j:j-1); if(mask>>b&1) rp.push_back(j); } ci.push_back((unsigned)rp.size()); } m.SetPattern(ci.data(),ci.size(),rp.data(),rp.size()); m.setZero(); }
static bool has(int nb,int mask,int i,int j){ return i==j||(mask>>(i*(nb-1)+(j<i?j:j-1))&1); }
// level-of-fill pattern (fill over pivot k: 1+max of the two levels; ordinary elimination order)
static std::vector<int> levels(int nb,int mask,int lev){ std::vector<int> L(nb*nb,99); for(int i=0;i<nb;i++) for(int j=0;j<nb;j++) if(has(nb,mask,i,j)) L[i*nb+j]=0; for(int i=0;i<nb;i++) for(int k=0;k<i;k++) if(L[i*nb+k]<99) for(int j=k+1;j<nb;j++) if(L[k*nb+j]<99){ int f=1+std::max(L[i*nb+k],L[k*nb+j]); if((lev==-1||f<=lev)&&f<L[i*nb+j]) L[i*nb+j]=f; } return L; }
static void checkPattern(const ILU&p,int nb,const std::vector<int>&L){ sx_check(p.nblk==(unsigned)nb&&p.colInd.size()==(size_t)nb+1&&p.m_diaInd.size()==(size_t)nb&&p.colInd[0]==0&&p.colInd[nb]==p.rowPtr.size(),"index arrays are consistent"); for(int i=0;i<nb;i++){ std::set<unsigned> s; for(unsigned c=p.colInd[i];c<p.colInd[i+1];c++){ unsigned j=p.rowPtr[c]; sx_check(j<(unsigned)nb&&(int)j!=i&&!s.count(j),"row entries are distinct and in range"); if(c>p.colInd[i]) sx_check(p.rowPtr[c-1]<j,"row entries are sorted"); sx_check((c>=p.m_diaInd[i])==((int)j>i),"diagonal index splits lower and upper part"); s.insert(j); } for(int j=0;j<nb;j++) if(j!=i) sx_check(s.count(j)==(L[i*nb+j]<99?1u:0u),"pattern has exactly the fill of the requested level"); } }
SX_ENTRY(pattern){ opt(); int nb=3+sx_choose("nb",T?2:1),n=nb*(nb-1); int mask=0; for(int b=0;b<n;b++) if(sx_choose(NM("m",b),2)) mask|=1<<b; int lev=sx_choose("lev",4)-1; M m; pat(m,nb,1,mask,sx_choose("rev",2)); ILU p; p.Initialize_ILUk(m,lev); checkPattern(p,nb,levels(nb,mask,lev)); }
SX_ENTRY(pattern4){ opt(); int nb=4; int mask=0; for(int i=0;i<4;i++) for(int j=0;j<i;j++) if(sx_choose(NM("m",i*4+j),2)){ mask|=1<<(i*3+j); mask|=1<<(j*3+i-1); } int lev=sx_choose("lev",4)-1; M m; pat(m,nb,1,mask,sx_choose("rev",2)); ILU p; p.Initialize_ILUk(m,lev); checkPattern(p,nb,levels(nb,mask,lev)); }
SX_ENTRY(pattern5){ opt(); int nb=5; static const int P[5][14]={{0,1,1,2,2,3,3,4,-1},{0,4,4,1,1,3,3,2,-1},{0,1,0,2,0,3,0,4,-1},{4,0,4,1,4,2,4,3,-1},{0,2,2,4,4,1,1,3,0,3,-1}}; int w=sx_choose("graph",5); int mask=0; for(int k=0;P[w][k]>=0;k+=2){ int i=P[w][k],j=P[w][k+1]; for(int s=0;s<2;s++){ mask|=1<<(i*4+(j<i?j:j-1)); std::swap(i,j); } } int lev=sx_choose("lev",5)-1; M m; pat(m,nb,1,mask,sx_choose("rev",2)); ILU p; p.Initialize_ILUk(m,lev); checkPattern(p,nb,levels(nb,mask,lev)); }
// factor: the factors multiply to A on the pattern; forward/backward substitution inverts them
template<int N> static void factor(int nb,int mask,int lev,int mod,bool rev){ opt(); M m; pat(m,nb,N,mask,rev); int n=nb*N,B=N*N; std::vector<int> L=levels(nb,mask,lev); int c=0,ph=mod>1?sx_choose("phase",mod>2?2:mod):0;
  // choose the factors: unknown off-diagonal entries on the pattern, fixed pivots; A is their product on the pattern of the matrix
  V Lo(n*n,0),Up(n*n,0),A(n*n,0); static const double D[4][4]={{2,1,0,1},{1,1,0,0},{0,1,-1,0},{1,0,0,2}}; for(int i=0;i<nb;i++) for(int j=0;j<nb;j++){ if(L[i*nb+j]>=99) continue; for(int s=0;s<N;s++) for(int t=0;t<N;t++){ int r=(i*N+s)*n+j*N+t; if(i==j){ Lo[r]=D[s][t]; Up[r]=s==t; } else if(L[i*nb+j]==0){ double v=(c++%mod==ph)?sx_real_in(NM("a",c),-2,2):((c*5)%7-3)*0.25; if(i>j) Lo[r]=v; else Up[r]=v; } } }
  // fill entries of the factors are determined by A being zero there
  auto blk=[&](V&X,int i,int j,int s,int t)->double&{ return X[(i*N+s)*n+j*N+t]; };
  double Di[16]; { double w[16]; for(int s=0;s<N;s++) for(int t=0;t<N;t++) w[s*N+t]=D[s][t]; /* inverse of the leading block of D by exact elimination */ double I[16]; for(int k=0;k<B;k++) I[k]=k/N==k%N; for(int k=0;k<N;k++){ double p=w[k*N+k]; for(int t=0;t<N;t++){ w[k*N+t]/=p; I[k*N+t]/=p; } for(int s=0;s<N;s++) if(s!=k){ double f=w[s*N+k]; for(int t=0;t<N;t++){ w[s*N+t]-=f*w[k*N+t]; I[s*N+t]-=f*I[k*N+t]; } } } for(int k=0;k<B;k++) Di[k]=I[k]; }
  for(int i=0;i<nb;i++) for(int j=0;j<nb;j++){ if(i==j||L[i*nb+j]>=99||L[i*nb+j]==0) continue; int e=std::min(i,j); double S[16]; for(int s=0;s<N;s++) for(int t=0;t<N;t++){ double v=0; for(int k=0;k<e;k++) if(L[i*nb+k]<99&&L[k*nb+j]<99) for(int q=0;q<N;q++) v-=blk(Lo,i,k,s,q)*blk(Up,k,j,q,t); S[s*N+t]=v; } for(int s=0;s<N;s++) for(int t=0;t<N;t++){ if(i>j) blk(Lo,i,j,s,t)=S[s*N+t]; else { double v=0; for(int q=0;q<N;q++) v+=Di[s*N+q]*S[q*N+t]; blk(Up,i,j,s,t)=v; } } }
  for(int i=0;i<nb;i++) for(int j=0;j<nb;j++) if(has(nb,mask,i,j)) for(int s=0;s<N;s++) for(int t=0;t<N;t++){ double v=0; for(int k=0;k<nb;k++) if(L[i*nb+k]<99&&L[k*nb+j]<99&&k<=i&&k<=j) for(int q=0;q<N;q++) v+=blk(Lo,i,k,s,q)*blk(Up,k,j,q,t); blk(A,i,j,s,t)=v; }
  for(int i=0;i<nb;i++){ for(int k=0;k<B;k++) m.val_dia_[i*B+k]=blk(A,i,i,k/N,k%N); for(unsigned p=m.col_ind_[i];p<m.col_ind_[i+1];p++) for(int k=0;k<B;k++) m.val_crs_[p*B+k]=blk(A,i,m.row_ptr_[p],k/N,k%N); }
  ILU p; p.Initialize_ILUk(m,lev); int rep=1+sx_choose("repeat",2); for(int r=0;r<rep;r++){ p.CopyValue(m); sx_check(p.Decompose(),"factorisation succeeds"); }
  for(int i=0;i<nb;i++){ for(int k=0;k<B;k++) sx_eq(p.valDia[i*B+k],Di[k],"inverted pivot block"); for(unsigned q=p.colInd[i];q<p.colInd[i+1];q++){ int j=p.rowPtr[q]; for(int k=0;k<B;k++) sx_eq(p.valCrs[q*B+k],blk(i>j?Lo:Up,i,j,k/N,k%N),"factor entry"); } }
  V y(n),b(n,0),u(n,0); for(int i=0;i<n;i++) y[i]=sx_real(NM("y",i)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(j/N>i/N) { if(L[(i/N)*nb+j/N]<99) u[i]+=Up[i*n+j]*y[j]; } else if(i==j) u[i]+=y[i]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(j/N<=i/N&&L[(i/N)*nb+j/N]<99) b[i]+=Lo[i*n+j]*u[j]; V z=b; p.SolvePrecond(z.data()); for(int i=0;i<n;i++) sx_eq(z[i],y[i],"substitution inverts the factors"); if(lev==-1){ for(int i=0;i<n;i++){ double v=0; for(int j=0;j<n;j++) v+=A[i*n+j]*z[j]; sx_eq(v,b[i],"complete factorisation solves the system"); } }
  if(N==1){ for(int w=1;w<4;w++){ V zz(nb*w),yy(nb*w); for(int i=0;i<nb;i++) for(int k=0;k<w;k++){ zz[i*w+k]=b[i]*(k+1); yy[i*w+k]=y[i]*(k+1); } p.ForwardSubstitutionDegenerate(zz.data(),w); p.BackwardSubstitutionDegenerate(zz.data(),w); for(int i=0;i<nb*w;i++) sx_eq(zz[i],yy[i],"degenerate substitution"); } } }
static const int MK4[8]={0xfff,0x243,0x924^0x111,0,0x0e7,0x492,0x7fb,0xd6b};
static int symm(int nb,int bits){ int mask=0,k=0; for(int i=0;i<nb;i++) for(int j=0;j<i;j++,k++) if(bits>>k&1){ mask|=1<<(i*(nb-1)+j); mask|=1<<(j*(nb-1)+i-1); } return mask; }
static const int SB[7]={63,0x0b,0x33,0x29,0x1e,0x2c,0x37};
SX_ENTRY(factor1){ factor<1>(4,symm(4,sx_choose("bits",64)),sx_choose("lev",3)-1,1,sx_choose("rev",2)); }
SX_ENTRY(factor1_unsym){ factor<1>(4,MK4[sx_choose("mask",8)],sx_choose("lev",3)-1,1,false); }
SX_ENTRY(factor2){ factor<2>(T?4:3,T?symm(4,SB[sx_choose("bits",7)]):symm(3,sx_choose("bits",8)),sx_choose("lev",3)-1,3,false); }
SX_ENTRY(factor3){ factor<3>(3,symm(3,sx_choose("bits",8)),sx_choose("lev",3)-1,T?5:7,false); }
SX_ENTRY(factor4){ factor<4>(3,symm(3,sx_choose("bits",8)),sx_choose("lev",3)-1,T?9:13,false); }
