// C21: eigen, singular-value and polar decompositions of 3x3 matrices
#include "sx.h"
#include <cmath>
#include <cassert>
#include <array>
#include "delfem2/svd3.h"
#include "delfem2/mat3.h"
namespace dfm2=delfem2; static const int T=SX_TIER;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); sx_opt("max_ite",0); sx_opt("fork_select",1); }
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
static void mm(double*C,const double*A,const double*B,bool ta=false,bool tb=false){ for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=(ta?A[k*3+i]:A[i*3+k])*(tb?B[j*3+k]:B[k*3+j]); C[i*3+j]=s; } }
static double det3(const double*m){ return m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); }
static void full(double*A,const double*s){ A[0]=s[0]; A[4]=s[1]; A[8]=s[2]; A[5]=A[7]=s[3]; A[2]=A[6]=s[4]; A[1]=A[3]=s[5]; }
static void near(double a,double b,double e,const char*m){ double d=a-b; sx_check((d<e)&(d>-e),m); }
// one rotation diagonalises a matrix with one off-diagonal pair; every entry of the pair's block and the third diagonal are free
SX_ENTRY(eig_block){ optl(); int k=sx_choose("pair",3); double s[6]; for(int i=0;i<6;i++) s[i]=0; static const int AA[3][2]={{1,2},{0,2},{0,1}}; int a=AA[k][0],b=AA[k][1]; s[a]=sx_choose("base",2)?2:-1; s[b]=sx_choose("other",2)?1:-3; s[k]=3; s[3+k]=sx_real_in("o",-4,4); sx_assume((s[3+k]>0.01)|(s[3+k]<-0.01)); double u[9],l[3],A[9],L[9],B[9]; full(A,s); bool r=dfm2::EigenSym3(u,l,s,1); sx_check(r,"non-zero matrix"); for(int i=0;i<9;i++) L[i]=i%4==0?u[i/3*3]*0+l[i/4]:0; double c[9],d[9]; mm(c,A,u); for(int i=0;i<3;i++) for(int j=0;j<3;j++) sx_eq(c[3*i+j],u[3*i+j]*l[j],"eigenvectors"); mm(d,u,u,true); for(int i=0;i<9;i++) sx_eq(d[i],i%4==0?1.:0.,"orthonormal"); (void)L;(void)B; }
// after one rotation u is a rotation and the values are the Rayleigh quotients
SX_ENTRY(eig_rayleigh){ optl(); int k=sx_choose("free",6),b=sx_choose("base",3); static const double B[3][6]={{2,1,-1,0.5,0.25,-0.75},{1,1,3,-0.5,1,0.25},{-2,0.5,1,0.25,-0.5,1}}; double s[6]; for(int i=0;i<6;i++) s[i]=B[b][i]; s[k]=sx_real_in("e",-2,2); double u[9],l[3],A[9],c[9],d[9]; full(A,s); sx_check(dfm2::EigenSym3(u,l,s,1),"non-zero matrix"); mm(d,u,u,true); for(int i=0;i<9;i++) sx_eq(d[i],i%4==0?1.:0.,"orthonormal"); sx_eq(det3(u),1,"rotation"); mm(c,A,u); mm(d,u,c,true); for(int i=0;i<3;i++) sx_eq(l[i],d[4*i],"diagonal of the rotated matrix"); }
static void rot(double*R,int k){ static const double q[6][4]={{0,0,0,1},{0.5,0.5,0.5,0.5},{1,2,2,4},{2,-1,4,2},{0,0,3,4},{-4,2,1,2}}; double x=q[k][0],y=q[k][1],z=q[k][2],w=q[k][3],n=x*x+y*y+z*z+w*w; R[0]=(w*w+x*x-y*y-z*z)/n; R[1]=2*(x*y-w*z)/n; R[2]=2*(x*z+w*y)/n; R[3]=2*(x*y+w*z)/n; R[4]=(w*w-x*x+y*y-z*z)/n; R[5]=2*(y*z-w*x)/n; R[6]=2*(x*z-w*y)/n; R[7]=2*(y*z+w*x)/n; R[8]=(w*w-x*x-y*y+z*z)/n; }
static const double SG[9][3]={{3,2,1},{1,2,3},{2,2,1},{1,3,3},{1,1,1},{4,-1,2},{1,-2,-3},{2,1,0},{0,3,0}};
// two scales of a set of matrices with known factors (repeated, negative and zero singular values included)
SX_ENTRY(eig_converge){ optl(); sx_opt("ieee",1); double R[9],A[9],c[9],L[9],u[9],l[3],s[6]; rot(R,sx_choose("axes",6)); const double*g=SG[sx_choose("values",9)]; double t=sx_choose("scale",2)?0.1:8; for(int i=0;i<9;i++) L[i]=i%4==0?g[i/4]:0; mm(c,R,L); mm(A,c,R,false,true); for(int i=0;i<9;i++) A[i]*=t; s[0]=A[0]; s[1]=A[4]; s[2]=A[8]; s[3]=A[5]; s[4]=A[2]; s[5]=A[1]; sx_check(dfm2::EigenSym3(u,l,s,20),"non-zero matrix"); mm(c,A,u); for(int i=0;i<3;i++) for(int j=0;j<3;j++) near(c[3*i+j],u[3*i+j]*l[j],1e-6,"A u = l u"); mm(c,u,u,true); for(int i=0;i<9;i++) near(c[i],i%4==0?1.:0.,1e-9,"orthonormal"); }
SX_ENTRY(svd){ optl(); sx_opt("ieee",1); double P[9],Q[9],M[9],c[9],L[9],U[9],G[3],V[9]; rot(P,sx_choose("left",6)); rot(Q,sx_choose("right",T?6:3)); const double*g=SG[sx_choose("values",9)]; double t=sx_choose("scale",2)?0.1:8; for(int i=0;i<9;i++) L[i]=i%4==0?g[i/4]:0; mm(c,P,L); mm(M,c,Q,false,true); double N[9]; for(int i=0;i<9;i++) N[i]=M[i]*t; dfm2::Svd3(U,G,V,N,20); for(int i=0;i<9;i++) c[i]=U[i]*G[i%3]; double d[9]; mm(d,c,V,false,true); for(int i=0;i<9;i++) near(d[i],N[i],1e-6,"U G V^T = M"); mm(d,U,U,true); for(int i=0;i<9;i++) near(d[i],i%4==0?1.:0.,1e-6,"U orthonormal"); near(det3(U),1,1e-6,"U is a rotation"); mm(d,V,V,true); for(int i=0;i<9;i++) near(d[i],i%4==0?1.:0.,1e-6,"V orthonormal"); near(det3(V),1,1e-6,"V is a rotation"); sx_check((G[0]>=G[1])&(G[1]>=-1e-9)&(G[1]>=G[2]-1e-6)&(G[1]>=-G[2]-1e-6),"sorted singular values"); }
SX_ENTRY(polar){ optl(); sx_opt("ieee",1); double P[9],Q[9],S[9],c[9],L[9],M[9],R[9]; rot(P,sx_choose("rot",6)); rot(Q,sx_choose("axes",T?6:3)); const double*g=SG[sx_choose("values",5)]; double t=sx_choose("scale",2)?0.1:8; for(int i=0;i<9;i++) L[i]=i%4==0?g[i/4]:0; mm(c,Q,L); mm(S,c,Q,false,true); mm(M,P,S); for(int i=0;i<9;i++) M[i]*=t; dfm2::GetRotPolarDecomp(R,M,30); for(int i=0;i<9;i++) near(R[i],P[i],1e-6,"rotation of the polar decomposition"); }
// orthogonal columns: singular values of any sign and order, zero included, are decided exactly
SX_ENTRY(svd_columns){ optl(); double P[9],M[9],U[9],G[3],V[9],g[3],d[9]; rot(P,sx_choose("left",T?6:3)); if(sx_choose("mirror",2)) for(int i=0;i<3;i++) P[3*i+1]=-P[3*i+1]; int z=sx_choose("zero",5); all(g,3,"g",-4,4); for(int i=0;i<3;i++){ if(z==i||(z==3&&i)) g[i]=0; else sx_assume((g[i]>0.01)|(g[i]<-0.01)); } for(int i=0;i<9;i++) M[i]=P[i]*g[i%3]; dfm2::Svd3(U,G,V,M,3); for(int i=0;i<9;i++){ double s=0; for(int k=0;k<3;k++) s+=U[i/3*3+k]*G[k]*V[i%3*3+k]; sx_eq(s,M[i],"U G V^T = M"); } mm(d,U,U,true); for(int i=0;i<9;i++) sx_eq(d[i],i%4==0?1.:0.,"U orthonormal"); sx_eq(det3(U),1,"U is a rotation"); mm(d,V,V,true); for(int i=0;i<9;i++) sx_eq(d[i],i%4==0?1.:0.,"V orthonormal"); sx_eq(det3(V),1,"V is a rotation"); sx_check((G[0]>=G[1])&(G[1]>=0)&(G[1]>=G[2])&(G[1]>=-G[2]),"sorted singular values"); }
SX_ENTRY(polar_columns){ optl(); double P[9],M[9],R[9],g[3]; rot(P,sx_choose("rot",6)); all(g,3,"g",0.01,4); for(int i=0;i<9;i++) M[i]=P[i]*g[i%3]; dfm2::GetRotPolarDecomp(R,M,3); for(int i=0;i<9;i++) sx_eq(R[i],P[i],"rotation of the polar decomposition"); }
// first-order variation: U^T dM V = dS - [u]S + S[v] for the reported rotation increments u, v
SX_ENTRY(svd_diff){ optl(); double P[9],Q[9],g[3]; rot(P,sx_choose("left",6)); rot(Q,sx_choose("right",6)); all(g,3,"g",-4,4); for(int i=0;i<3;i++) for(int j=0;j<i;j++){ double a=g[i]-g[j],b=g[i]+g[j]; sx_assume((a>0.01)|(a<-0.01)); sx_assume((b>0.01)|(b<-0.01)); } dfm2::CMat3d U(P),V(Q),S(g[0],g[1],g[2]); double D[9][3][3]; dfm2::Svd3Differential(D,U,S,V); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double w[3],v[3]; for(int k=0;k<3;k++){ w[k]=D[k][i][j]; v[k]=D[6+k][i][j]; } for(int a=0;a<3;a++) for(int b=0;b<3;b++){ double l=P[3*i+a]*Q[3*j+b],r; if(a==b) r=D[3+a][i][j]; else { int c=3-a-b,sg=(b-a+3)%3==1?-1:1; r=-sg*w[c]*g[b]+sg*v[c]*g[a]; } sx_eq(r,l,"derivative of the factors"); } } }
