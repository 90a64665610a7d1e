// C14: block tri- and penta-diagonal direct solvers
#include "sx.h"
#include <vector>
#include <cassert>
#include <cmath>
using std::fabs;
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef std::vector<double> V;
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("native_tol_e",8); sx_opt("fold",1); }
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static double H(int i,int j){ int v=(i*7+j*5+i*j*3)%11-5; return i==j?16+v:v*0.25; } // fixed diagonally dominant values
template<int N,class MAT> static void verify(MAT&m,int nb,V&a,V&b){ int n=nb*N; V x=b; m.Decompose(); m.Solve(x); sx_check((int)x.size()==n,"solution size"); for(int i=0;i<n;i++){ double r=0; for(int j=0;j<n;j++) r+=a[i*n+j]*x[j]; sx_eq(r,b[i],"solution satisfies the equations"); } }
static void eliminate(V&a,int n,int k){ for(int j=0;j<n;j++){ a[k*n+j]=0; a[j*n+k]=0; } a[k*n+k]=1; }
// every block matrix of the band whose pivot blocks are the fixed D: A=(L+D)U, the off-diagonal blocks of L and U are real unknowns (every mod-th entry, the others fixed)
template<int N> static V lu(int nb,int w,int mod,int ph){ int n=nb*N; V L(n*n,0),U(n*n,0),a(n*n,0); int c=0; for(int i=0;i<nb;i++) for(int j=0;j<nb;j++){ int d=i-j; if(d<-w||d>w) continue; for(int p=0;p<N;p++) for(int q=0;q<N;q++){ int r=(i*N+p)*n+j*N+q; if(d==0){ static const double D[4][4]={{2,1,0,1},{1,1,0,0},{0,1,-1,0},{1,0,0,2}}; L[r]=D[p][q]; U[r]=p==q; } else { double v=(c++%mod==ph)?sx_real_in(NM("a",c),-2,2):((c*5)%7-3)*0.25; if(d>0) L[r]=v; else U[r]=v; } } } for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double v=0; for(int k=0;k<n;k++) { int d=i/N-k/N,e=k/N-j/N; if(d>=0&&d<=w&&e<=0&&e>=-w) v+=L[i*n+k]*U[k*n+j]; } a[i*n+j]=v; } return a; }
template<int N> static void tri(int nb,int mod,bool bc){ opt(); dfm2::BlockTriDiagonalMatrix<N> m; m.Initialize(nb); m.setZero(); int n=nb*N; V a; if(!bc) a=lu<N>(nb,1,mod,mod>1?sx_choose("phase",mod>3?3:mod):0); else { a.assign(n*n,0); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int d=i/N-j/N; if(d>=-1&&d<=1) a[i*n+j]=H(i,j); } if(N==1) a[1]+=sx_real_in("t",-0.5,0.5); }
  for(int e=0;e+1<nb;e++){ double em[2][2][N][N]; for(int i=0;i<2;i++) for(int j=0;j<2;j++) for(int p=0;p<N;p++) for(int q=0;q<N;q++){ double C=p-2*q+1; double v=a[((e+i)*N+p)*n+(e+j)*N+q]; if(i==1&&j==1&&e+2<nb) v=C; if(i==0&&j==0&&e>0) v-=C; em[i][j][p][q]=v; } m.Merge(e,em); }
  for(int i=0;i<nb;i++) for(int j=0;j<nb;j++){ double*p=m.GetValuePointer(i,j); int d=i-j; sx_check((p!=nullptr)==(d>=-1&&d<=1),"entries exist exactly in the band"); if(p) for(int k=0;k<N*N;k++) sx_eq(p[k],a[(i*N+k/N)*n+j*N+k%N],"assembled entry"); } sx_check(!m.GetValuePointer(-1,0)&&!m.GetValuePointer(0,-1)&&!m.GetValuePointer(nb,nb-1)&&!m.GetValuePointer(nb-1,nb),"no entry outside the matrix");
  if(bc){ int k=sx_choose("fix",n); m.FixBC(k/N,k%N); eliminate(a,n,k); if(sx_choose("two",2)){ k=(k+2)%n; m.FixBC(k/N,k%N); eliminate(a,n,k); } } V b(n); for(int i=0;i<n;i++) b[i]=sx_real(NM("b",i)); verify<N>(m,nb,a,b); }
SX_ENTRY(tri1){ tri<1>(2+sx_choose("nb",T?5:4),1,false); } SX_ENTRY(tri2){ tri<2>(2+sx_choose("nb",2),T?1:2,false); } SX_ENTRY(tri3){ tri<3>(2+sx_choose("nb",2),T?2:3,false); } SX_ENTRY(tri4){ tri<4>(2+sx_choose("nb",2),T?4:5,false); }
SX_ENTRY(tri_bc1){ tri<1>(2+sx_choose("nb",3),1,true); } SX_ENTRY(tri_bc2){ tri<2>(2+sx_choose("nb",2),1,true); } SX_ENTRY(tri_bc3){ tri<3>(3,1,true); }
// all entries unknown
SX_ENTRY(tri1_free){ opt(); int nb=1+sx_choose("nb",3); dfm2::BlockTriDiagonalMatrix<1> m; m.Initialize(nb); m.setZero(); V a(nb*nb,0),b(nb); for(int i=0;i<nb;i++) for(int j=0;j<nb;j++){ double*p=m.GetValuePointer(i,j); if(p) *p=a[i*nb+j]=sx_real(NM("a",i*nb+j)); } for(int i=0;i<nb;i++) b[i]=sx_real(NM("b",i)); verify<1>(m,nb,a,b); }
SX_ENTRY(tri2_free){ opt(); int nb=2; dfm2::BlockTriDiagonalMatrix<2> m; m.Initialize(nb); m.setZero(); V a(16,0),b(4); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ double*p=m.GetValuePointer(i,j); for(int k=0;k<4;k++) p[k]=a[(i*2+k/2)*4+j*2+k%2]=(i==1&&!T)?H(i*2+k/2,j*2+k%2):sx_real(NM("a",(i*2+j)*4+k)); } for(int i=0;i<4;i++) b[i]=sx_real(NM("b",i)); double de=a[0]*a[5]-a[1]*a[4]; sx_assume((de>=0.01)|(de<=-0.01)); double I[4]={a[5]/de,-a[1]/de,-a[4]/de,a[0]/de},Sc[4]; for(int i=0;i<2;i++) for(int j=0;j<2;j++){ double v=a[(2+i)*4+2+j]; for(int k=0;k<2;k++) for(int l=0;l<2;l++) v-=a[(2+i)*4+k]*I[k*2+l]*a[l*4+2+j]; Sc[i*2+j]=v; } double d2=Sc[0]*Sc[3]-Sc[1]*Sc[2]; sx_assume((d2>=0.01)|(d2<=-0.01)); verify<2>(m,nb,a,b); }
template<int N> static void penta(int nb,int mod,bool bc){ opt(); dfm2::BlockPentaDiagonalMatrix<N> m; m.Initialize(nb); m.setZero(); sx_check((int)m.nblk()==nb,"number of blocks"); int n=nb*N; V a; if(!bc) a=lu<N>(nb,2,mod,mod>1?sx_choose("phase",mod>3?3:mod):0); else { a.assign(n*n,0); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int d=i/N-j/N; if(d>=-2&&d<=2) a[i*n+j]=H(i,j); } if(N==1) a[1]+=sx_real_in("t",-0.5,0.5); }
  for(int e=0;e+2<nb;e++){ double em[3][3][N][N]; bool last=e+3==nb; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int p=0;p<N;p++) for(int q=0;q<N;q++){ double v=0; if(last||i==0||j==0) v=a[((e+i)*N+p)*n+(e+j)*N+q]; if(!last&&i==2&&j==1) v=p+2*q; if(e>0&&i==1&&j==0) v-=p+2*q; em[i][j][p][q]=v; } m.Merge(e,em); } { double blk[N*N]; for(int k=0;k<N*N;k++){ blk[k]=0.25*k-0.5; a[(1*N+k/N)*n+2*N+k%N]+=blk[k]; } m.MergeBlock(1,2,blk); for(int k=0;k<N*N;k++){ blk[k]*=-1; a[(1*N+k/N)*n+2*N+k%N]+=blk[k]; } m.MergeBlock(1,2,blk); }
  for(int i=0;i<nb;i++) for(int j=0;j<nb;j++){ double*p=m.GetValuePointer(i,j); int d=i-j; sx_check((p!=nullptr)==(d>=-2&&d<=2),"entries exist exactly in the band"); if(p) for(int k=0;k<N*N;k++) sx_eq(p[k],a[(i*N+k/N)*n+j*N+k%N],"assembled entry"); } sx_check(!m.GetValuePointer(-1,0)&&!m.GetValuePointer(0,-1)&&!m.GetValuePointer(nb,nb-1)&&!m.GetValuePointer(nb-1,nb),"no entry outside the matrix");
  if(bc){ int k=sx_choose("fix",n); m.FixBC(k/N,k%N); eliminate(a,n,k); } V b(n); for(int i=0;i<n;i++) b[i]=sx_real(NM("b",i)); verify<N>(m,nb,a,b); }
SX_ENTRY(penta1){ penta<1>(4+sx_choose("nb",3),2,false); } SX_ENTRY(penta2){ penta<2>(4+sx_choose("nb",2),T?3:4,false); } SX_ENTRY(penta3){ penta<3>(4,T?6:9,false); } SX_ENTRY(penta4){ penta<4>(T?5:4,T?13:19,false); }
SX_ENTRY(penta_bc1){ penta<1>(4+sx_choose("nb",2),1,true); } SX_ENTRY(penta_bc2){ penta<2>(4,1,true); } SX_ENTRY(penta_bc3){ penta<3>(4,1,true); }
SX_ENTRY(penta_system){ opt(); const int N=4; dfm2::LinearSystemSolver_BlockPentaDiagonal<N> s; int nb=4,n=nb*N; s.Initialize(nb); sx_check((int)s.ndof()==n,"degrees of freedom"); int rep=1+sx_choose("repeat",2); for(int it=0;it<rep;it++){ s.BeginMerge(); V a(n*n,0),b(n); double t=0.25; int pos=sx_choose(NM("pos",it),3); static const unsigned ip[2][3]={{0,1,2},{3,1,2}}; for(int e=0;e<2;e++){ double em[3][3][4][4]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int p=0;p<4;p++) for(int q=0;q<4;q++){ double v=H(ip[e][i]*N+p,ip[e][j]*N+q)+(i==pos&&j==(pos+1)%3&&p==2&&q==1?t:0); em[i][j][p][q]=v; a[(ip[e][i]*N+p)*n+ip[e][j]*N+q]+=v; } s.Merge<3,3,4,4>(ip[e],ip[e],em); } if(sx_choose(NM("small",it),2)){ double em[1][1][3][3]; unsigned k=3; for(int p=0;p<3;p++) for(int q=0;q<3;q++){ em[0][0][p][q]=p==q?3:0.5*(p-q); a[(k*N+p)*n+k*N+q]+=em[0][0][p][q]; } s.Merge<1,1,3,3>(&k,&k,em); } s.AddValueToDiagonal(2,1,5); a[9*n+9]+=5; for(int i=0;i<n;i++){ b[i]=sx_real(NM(it?"c":"b",i)); s.vec_r[i]=b[i]; } if(it==0){ int k=sx_choose("fix",4); if(k<3){ s.dof_bcflag[k*5]=1; s.dof_bcflag[15]=1; } } for(int i=0;i<n;i++) if(s.dof_bcflag[i]){ eliminate(a,n,i); b[i]=0; } s.Solve(); for(int i=0;i<n;i++){ double r=0; for(int j=0;j<n;j++) r+=a[i*n+j]*s.vec_x[j]; sx_eq(r,b[i],"system solution"); } } }
SX_ENTRY(penta_rect){ opt(); const int N=3; dfm2::LinearSystemSolver_BlockPentaDiagonal<N> s; s.Initialize(4); s.BeginMerge(); unsigned r[2]={1,2},c[1]={2}; double em[2][1][2][3]; for(int i=0;i<2;i++) for(int p=0;p<2;p++) for(int q=0;q<3;q++) em[i][0][p][q]=sx_real(NM("e",i*6+p*3+q)); s.Merge<2,1,2,3>(r,c,em); for(int i=0;i<2;i++){ double*p=s.dia.GetValuePointer(r[i],2); for(int k=0;k<9;k++) sx_eq(p[k],k<6?em[i][0][k/3][k%3]:0,"rectangular element block"); } }
// block inverse
template<unsigned N> static void inv(){ opt(); double a[N*N],b[N*N]; for(unsigned i=0;i<N*N;i++) b[i]=a[i]=N>=4?H(i/N,i%N)+(i<N?sx_real_in(NM("a",i),-0.25,0.25):0):sx_real(NM("a",i)); bool ok=dfm2::Inverse_Matrix<double,N>(b); if(!ok){ double p=N==2?a[0]*a[3]-a[1]*a[2]:a[0]; if(N<=2) sx_check(p<=1e-9&&p>=-1e-9,"inverse fails only for a vanishing pivot"); return; } for(unsigned i=0;i<N;i++) for(unsigned j=0;j<N;j++){ double r=0; for(unsigned k=0;k<N;k++) r+=a[i*N+k]*b[k*N+j]; sx_eq(r,i==j,"block inverse"); } }
SX_ENTRY(inv1){ inv<1>(); } SX_ENTRY(inv2){ inv<2>(); } SX_ENTRY(inv3){ inv<3>(); } SX_ENTRY(inv4){ inv<4>(); }
SX_ENTRY(matn){ opt(); double a[9],b[9],c[9],d[9],x[3],y[3]; for(int i=0;i<9;i++){ a[i]=sx_real(NM("a",i)); b[i]=sx_real(NM("b",i)); c[i]=d[i]=sx_real(NM("c",i)); } for(int i=0;i<3;i++){ x[i]=sx_real(NM("x",i)); y[i]=sx_real(NM("y",i)); } dfm2::Sub_MatMat<double,3>(c,a,b); double e[9]; dfm2::MatMat<double,3>(e,a,b); double z[3],w[3]={y[0],y[1],y[2]}; dfm2::MatVec<double,3,3>(z,a,x); dfm2::Sub_MatVec<double,3,3>(w,a,x); for(int i=0;i<3;i++){ double v=0; for(int j=0;j<3;j++){ double r=0; for(int k=0;k<3;k++) r+=a[i*3+k]*b[k*3+j]; sx_eq(e[i*3+j],r,"matrix product"); sx_eq(c[i*3+j],d[i*3+j]-r,"subtracted product"); v+=a[i*3+j]*x[j]; } sx_eq(z[i],v,"matrix-vector product"); sx_eq(w[i],y[i]-v,"subtracted matrix-vector product"); } }
