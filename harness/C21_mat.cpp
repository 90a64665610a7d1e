// C21: small matrix algebra
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstring>
#include <algorithm>
#include "delfem2/mat2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/matn.h"
namespace dfm2=delfem2; static const int T=SX_TIER;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("float_sqrt",1); }
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
// reference products on n x n row-major arrays
static void mm(double*C,const double*A,const double*B,int n,bool ta=false,bool tb=false){ for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double s=0; for(int k=0;k<n;k++) s+=(ta?A[k*n+i]:A[i*n+k])*(tb?B[j*n+k]:B[k*n+j]); C[i*n+j]=s; } }
static void same(const double*a,const double*b,int n,const char*m){ for(int i=0;i<n;i++) sx_eq(a[i],b[i],m); }
static void ident(const double*a,const double*b,int n,const char*m){ double C[64]; mm(C,a,b,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) sx_eq(C[i*n+j],i==j?1.:0.,m); }
static double det3(const double*m){ return m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); }
static void cross(double*r,const double*a,const double*b){ r[0]=a[1]*b[2]-a[2]*b[1]; r[1]=a[2]*b[0]-a[0]*b[2]; r[2]=a[0]*b[1]-a[1]*b[0]; }
// ------------------------------------------------------------------ 2x2
SX_ENTRY(mat2){ opt(); double a[4],b[4],x[2],c[4],y[2],s=sx_real_in("s",0.5,4); all(a,4,"a"); all(b,4,"b"); all(x,2,"x"); dfm2::CMat2d A(a[0],a[1],a[2],a[3]),B(b[0],b[1],b[2],b[3]);
  mm(c,a,b,2); dfm2::CMat2d P=A*B; same(P.p,c,4,"product"); double d[4]; dfm2::MatMat2(d,a,b); same(d,c,4,"product"); dfm2::MatVec2(y,a,x); sx_eq(y[0],a[0]*x[0]+a[1]*x[1],"matvec"); sx_eq(y[1],a[2]*x[0]+a[3]*x[1],"matvec"); double z[2]; A.multiply_vec2(z,x); same(z,y,2,"matvec");
  dfm2::CMat2d S=A+B,D=A-B,N=-A,K=s*A,Q=A; Q/=s; for(int i=0;i<4;i++){ sx_eq(S.p[i],a[i]+b[i],"sum"); sx_eq(D.p[i],a[i]-b[i],"difference"); sx_eq(N.p[i],-a[i],"negation"); sx_eq(K.p[i],s*a[i],"scale"); sx_eq(Q.p[i]*s,a[i],"division"); }
  dfm2::CMat2d t=A.transpose(),u=A; u.transposeInPlace(); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ sx_eq(t(i,j),A(j,i),"transpose"); sx_eq(u(i,j),A(j,i),"transpose in place"); sx_eq(A(i,j),A[i*2+j],"access"); } sx_eq(A.determinant(),a[0]*a[3]-a[1]*a[2],"determinant"); dfm2::CMat2d o=dfm2::CMat2d::outer_product(x,y); for(int i=0;i<2;i++) for(int j=0;j<2;j++) sx_eq(o(i,j),x[i]*y[j],"outer product"); double g[4],h[4]; dfm2::gramian2(g,a); mm(h,a,a,2,true); same(g,h,4,"gramian"); double w[4],L[4]={x[0],0,0,x[1]},e[4]; dfm2::VLVt2(w,x[0],x[1],a); mm(e,a,L,2); mm(h,e,a,2,false,true); same(w,h,4,"V L V^T"); dfm2::CMat2d I(2.0); sx_check(I.p[0]==2&&I.p[1]==0&&I.p[2]==0&&I.p[3]==2,"diagonal"); A.setZero(); for(int i=0;i<4;i++) sx_check(A.p[i]==0,"zero"); }
SX_ENTRY(inverse2){ opt(); double a[4],b[4]; all(a,4,"a"); double d=a[0]*a[3]-a[1]*a[2]; bool r=dfm2::InverseMat2(b,a); bool big=sx_fork((d>=1e-10)|(d<=-1e-10)); sx_check(r==big,"reports singularity"); if(r){ ident(a,b,2,"inverse"); ident(b,a,2,"inverse"); } }
// rotation of a known polar factor: M=R(t)S with S symmetric positive definite
static void rot2(double*R,double t){ double q=1+t*t; R[0]=R[3]=(1-t*t)/q; R[2]=2*t/q; R[1]=-R[2]; }
SX_ENTRY(polar2_class){ opt(); double R[4],S[4],t=sx_real_in("t",-3,3); rot2(R,t); S[0]=sx_real_in("s0",0.5,4); S[3]=sx_real_in("s3",0.5,4); S[1]=S[2]=sx_real_in("s1",-0.375,0.375); double m[4]; mm(m,R,S,2); dfm2::CMat2d M(m[0],m[1],m[2],m[3]),r,s; dfm2::polar_decomposition(r,s,M); double c[4]; mm(c,r.p,s.p,2); for(int i=0;i<4;i++) sx_eq(c[i],m[i],"R S = M"); mm(c,r.p,r.p,2,true); sx_eq(c[0],1,"rotation"); sx_eq(c[1],0,"rotation"); sx_eq(c[3],1,"rotation"); sx_eq(s.p[1],s.p[2],"symmetric factor"); sx_check(r.p[0]*R[0]+r.p[2]*R[2]>0,"the positive factor"); sx_eq(r.determinant(),1,"determinant"); }
SX_ENTRY(svd2){ opt(); double R[4],S[4]; static const double TT[4]={0,0.5,-2,3}; rot2(R,TT[sx_choose("rot",T?4:2)]); int k=sx_choose("free",3); S[0]=2; S[3]=1; S[1]=0.5; if(k==0) S[0]=sx_real_in("s",0.5,4); if(k==1) S[3]=sx_real_in("s",0.5,4); if(k==2) S[1]=sx_real_in("s",-1,1); S[2]=S[1]; sx_assume((S[1]>0.001)|(S[1]<-0.001)); double m[4]; mm(m,R,S,2); dfm2::CMat2d M(m[0],m[1],m[2],m[3]),U,G,V; dfm2::svd(U,G,V,M); double c[4],d[4]; double g[4]={G.p[0],G.p[1],G.p[2],G.p[3]}; mm(c,U.p,g,2); mm(d,M.p,V.p,2); sx_eq(g[1],0,"diagonal"); sx_eq(g[2],0,"diagonal"); for(int i=0;i<4;i++) sx_eq(d[i],c[i],"M V = U G"); ident(U.p,U.transpose().p,2,"U orthonormal"); ident(V.p,V.transpose().p,2,"V orthonormal"); sx_check(g[0]>=g[3],"sorted"); }
SX_ENTRY(polar2){ opt(); double R[4]; static const double TT[4]={0,0.5,-2,3}; rot2(R,TT[sx_choose("rot",4)]); double l0=sx_real_in("l0",0.5,8),l1=sx_choose("l1",2)?1:3; double L[4]={l0,0,0,l1},m[4],r[4]; mm(m,R,L,2); sx_assume((l0>l1+0.1)|(l0<l1-0.1)); dfm2::RotationalComponentOfMatrix2(r,m); for(int i=0;i<4;i++) sx_eq(r[i],R[i],"rotation of the polar decomposition"); }
SX_ENTRY(polar2_scale){ opt(); double R[4],Q[4]; static const double TT[6]={0,0.5,-2,3,1,-0.25}; rot2(R,TT[sx_choose("rot",6)]); rot2(Q,TT[sx_choose("axes",6)]); static const double LL[5][2]={{2,1},{1,3},{4,0.25},{0.5,8},{1.0625,1}}; int w=sx_choose("stretch",5); double s=sx_real_in("s",0.25,8),L[4]={LL[w][0],0,0,LL[w][1]},a[4],S[4],m[4],r[4]; mm(a,Q,L,2); mm(S,a,Q,2,false,true); mm(m,R,S,2); for(int i=0;i<4;i++) m[i]*=s; dfm2::RotationalComponentOfMatrix2(r,m); for(int i=0;i<4;i++){ double e=r[i]-R[i]; sx_check((e<1e-9)&(e>-1e-9),"rotation of the polar decomposition"); } }
SX_ENTRY(polar2_iso){ opt(); double R[4]; static const double TT[4]={0,0.5,-2,3}; rot2(R,TT[sx_choose("rot",4)]); double s=sx_real_in("s",0.5,4),m[4],r[4]; for(int i=0;i<4;i++) m[i]=R[i]*s; dfm2::RotationalComponentOfMatrix2(r,m); for(int i=0;i<4;i++) sx_eq(r[i],R[i],"scaled rotation"); }
// ------------------------------------------------------------------ 3x3 free functions
SX_ENTRY(mat3_func){ optl(); double a[9],b[9],c[9],d[9],x[3],y[3],z[3],s=sx_real("al"),t=sx_real("be"); all(a,9,"a"); all(b,9,"b"); all(x,3,"x"); all(y,3,"y");
  dfm2::MatMat3(c,a,b); mm(d,a,b,3); same(c,d,9,"AB"); dfm2::MatMatT3(c,a,b); mm(d,a,b,3,false,true); same(c,d,9,"A B^T"); dfm2::MatTMat3(c,a,b); mm(d,a,b,3,true); same(c,d,9,"A^T B"); double e[9]; for(int i=0;i<9;i++) e[i]=0.5*i-1+x[i%3]; for(int i=0;i<9;i++) c[i]=e[i]; dfm2::MatTMat3_ScaleAdd(c,a,b,s,t); for(int i=0;i<9;i++) sx_eq(c[i],t*e[i]+s*d[i],"alpha A^T B + beta C");
  dfm2::Transpose_Mat3(c,a); for(int i=0;i<9;i++) sx_eq(c[i],a[i%3*3+i/3],"transpose"); sx_eq(dfm2::Det_Mat3(a),det3(a),"determinant");
  dfm2::MatVec3(z,a,x); for(int i=0;i<3;i++) sx_eq(z[i],a[3*i]*x[0]+a[3*i+1]*x[1]+a[3*i+2]*x[2],"A x"); double w[3]; dfm2::MatTVec3(w,a,x); for(int i=0;i<3;i++) sx_eq(w[i],a[i]*x[0]+a[i+3]*x[1]+a[i+6]*x[2],"A^T x"); double v[3]; dfm2::VecMat3(v,x,a); same(v,w,3,"x^T A"); double p[3],q[3]; for(int i=0;i<3;i++) p[i]=q[i]=y[i]; dfm2::MatVec3_ScaleAdd(p,a,x,s,t); dfm2::MatTVec3_ScaleAdd(q,a,x,s,t); for(int i=0;i<3;i++){ sx_eq(p[i],t*y[i]+s*z[i],"scaled A x"); sx_eq(q[i],t*y[i]+s*w[i],"scaled A^T x"); }
  double sp[9],cr[3],sx3[3]; dfm2::Mat3_Spin(sp,x); cross(cr,x,y); dfm2::MatVec3(sx3,sp,y); same(sx3,cr,3,"spin matrix is the cross product"); for(int i=0;i<9;i++) c[i]=a[i]; dfm2::Mat3_Spin_ScaleAdd(c,x,s,t); for(int i=0;i<9;i++) sx_eq(c[i],t*a[i]+s*sp[i],"scaled spin"); for(int i=0;i<9;i++) c[i]=a[i]; dfm2::Mat3_Identity_ScaleAdd(c,s,t); for(int i=0;i<9;i++) sx_eq(c[i],t*a[i]+(i%4==0?s:0.),"scaled identity"); dfm2::Mat3_Identity(c,s); auto id=dfm2::Mat3_Identity<double>(s); for(int i=0;i<9;i++){ sx_eq(c[i],i%4==0?s:0.,"identity"); sx_eq(id[i],c[i],"identity"); } double sm[6]; for(int i=0;i<6;i++) sm[i]=a[i]; double f=0; static const int mp[9]={0,5,4,5,1,3,4,3,2}; for(int i=0;i<9;i++) f+=sm[mp[i]]*sm[mp[i]]; sx_eq(dfm2::SquareNormFrobenius_SymMat3(sm),f,"Frobenius norm"); dfm2::Copy_Mat3(c,b); same(c,b,9,"copy"); auto m3=dfm2::Mat3Vec3<dfm2::CVec3d>(a,dfm2::CVec3d(x[0],x[1],x[2])); for(int i=0;i<3;i++) sx_eq(m3[i],z[i],"A x"); }
SX_ENTRY(inverse3){ optl(); double a[9],b[9]; all(a,9,"a"); double d=det3(a); sx_assume((d>0.01)|(d<-0.01)); dfm2::Inverse_Mat3(b,a); ident(a,b,3,"inverse"); double c[9]; for(int i=0;i<9;i++) c[i]=a[i]; dfm2::Inverse_Mat3(c); same(c,b,9,"in-place inverse"); dfm2::CMat3d A(a),I=A.Inverse(); same(I.p_,b,9,"class inverse"); A.SetInverse(); same(A.p_,b,9,"class in-place inverse"); double e[9]; for(int i=0;i<9;i++) e[i]=a[i]; sx_check((dfm2::Inverse_Matrix<double,3>(e)),"regular"); same(e,b,9,"inverse of size three"); }
SX_ENTRY(mat3_vec){ optl(); double a[3],b[3]; all(a,3,"a"); all(b,3,"b"); dfm2::CVec3d A(a[0],a[1],a[2]),B(b[0],b[1],b[2]),C=A.cross(B); auto o=dfm2::Mat3_OuterProduct(A,B); auto s=dfm2::Mat3_Spin(A); auto t=dfm2::Mat3_From3Bases(A,B,C); auto cc=dfm2::Mat3_CrossCross(A); auto ir=dfm2::Mat3_IrotPoint<dfm2::CVec3d,double>(A); double ss[9],q=a[0]*a[0]+a[1]*a[1]+a[2]*a[2]; mm(ss,s.data(),s.data(),3); double cr[3]; cross(cr,a,b); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ sx_eq(o[3*i+j],a[i]*b[j],"outer product"); sx_eq(t[3*i+j],j==0?a[i]:j==1?b[i]:cr[i],"bases are columns"); sx_eq(cc[3*i+j],ss[3*i+j],"cross cross"); sx_eq(ir[3*i+j],-ss[3*i+j],"point inertia"); sx_eq(cc[3*i+j],a[i]*a[j]-(i==j?q:0.),"double cross product"); } double y[3]; for(int i=0;i<3;i++){ y[i]=s[3*i]*b[0]+s[3*i+1]*b[1]+s[3*i+2]*b[2]; sx_eq(y[i],cr[i],"spin"); } auto sp=dfm2::Vec3_SpinVectorFromMat3<std::array<double,9>,double>(s); for(int i=0;i<3;i++) sx_eq(sp[i],a[i],"spin vector of a spin matrix"); double m[9]; all(m,9,"m"); std::array<double,9> mv; for(int i=0;i<9;i++) mv[i]=m[i]; auto ax=dfm2::Vec3_SpinVectorFromMat3<std::array<double,9>,double>(mv); for(int i=0;i<3;i++) sx_eq(ax[i],0.5*(m[(i+2)%3*3+(i+1)%3]-m[(i+1)%3*3+(i+2)%3]),"axial vector"); }
SX_ENTRY(projection){ opt(); double a[3]; all(a,3,"a"); double q=a[0]*a[0]+a[1]*a[1]+a[2]*a[2]; sx_assume(q>0.01); dfm2::CVec3d A(a[0],a[1],a[2]); auto P=dfm2::Mat3_NormalProjection(A),M=dfm2::Mat3_Mirror(A); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ sx_eq(q*P[3*i+j],(i==j?q:0.)-a[i]*a[j],"projection off the normal"); sx_eq(q*M[3*i+j],(i==j?q:0.)-2*a[i]*a[j],"mirror"); } }
SX_ENTRY(affine2){ optl(); double A[9],x[2],y[2],t[2],th=sx_real_in("th",-3,3); all(A,9,"a"); all(x,2,"x"); all(t,2,"t"); double w=A[6]*x[0]+A[7]*x[1]+A[8]; sx_assume((w>0.01)|(w<-0.01)); dfm2::Vec2_Mat3Vec2_Homography(y,A,x); auto z=dfm2::Vec2_Mat3Vec2_Homography(A,x); for(int i=0;i<2;i++){ sx_eq(y[i]*w,A[3*i]*x[0]+A[3*i+1]*x[1]+A[3*i+2],"homography"); sx_eq(z[i],y[i],"homography"); } dfm2::Vec2_Mat3Vec2_AffineDirection(y,A,x); for(int i=0;i<2;i++) sx_eq(y[i],A[3*i]*x[0]+A[3*i+1]*x[1],"direction"); double M[9],N[9],p[2]; dfm2::Mat3_AffineTranslation(M,t); dfm2::Vec2_Mat3Vec2_Homography(p,M,x); for(int i=0;i<2;i++) sx_eq(p[i],x[i]+t[i],"translation"); dfm2::Mat3_AffineRotation(N,th); dfm2::Vec2_Mat3Vec2_Homography(p,N,x); sx_eq(p[0],cos(th)*x[0]-sin(th)*x[1],"rotation"); sx_eq(p[1],sin(th)*x[0]+cos(th)*x[1],"rotation"); }
// ------------------------------------------------------------------ 3x3 class
SX_ENTRY(mat3_class){ opt(); double a[9],b[9],x[3],s=sx_real_in("s",0.5,4); all(a,9,"a"); all(b,9,"b"); all(x,3,"x"); dfm2::CMat3d A(a),B(b); double d[9]; mm(d,a,b,3); dfm2::CMat3d P=A*B; same(P.p_,d,9,"product"); dfm2::CMat3d S=A+B,D=A-B,K=s*A,K2=A*s,Q=A/s,N=-A; for(int i=0;i<9;i++){ sx_eq(S.p_[i],a[i]+b[i],"sum"); sx_eq(D.p_[i],a[i]-b[i],"difference"); sx_eq(K.p_[i],s*a[i],"scale"); sx_eq(K2.p_[i],s*a[i],"scale"); sx_eq(Q.p_[i]*s,a[i],"division"); sx_eq(N.p_[i],-a[i],"negation"); }
  dfm2::CVec3d X(x[0],x[1],x[2]),Y=A*X,Z=X*A; auto V=A.MatVec(x); double W[3]; A.MatVecTrans(x,W); for(int i=0;i<3;i++){ double r=a[3*i]*x[0]+a[3*i+1]*x[1]+a[3*i+2]*x[2],c=a[i]*x[0]+a[i+3]*x[1]+a[i+6]*x[2]; sx_eq(Y.p[i],r,"A x"); sx_eq(V[i],r,"A x"); sx_eq(Z.p[i],c,"x A"); sx_eq(W[i],c,"A^T x"); }
  dfm2::CMat3d t=A.transpose(),sy=A.Sym(),sk=dfm2::CMat3d::Skew(X),o=dfm2::CMat3d::OuterProduct(x,a); double fr=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ sx_eq(t(i,j),a[3*j+i],"transpose"); sx_eq(sy(i,j),0.5*(a[3*i+j]+a[3*j+i]),"symmetric part"); sx_eq(o(i,j),x[i]*a[j],"outer product"); sx_eq(A(i,j),A[3*i+j],"access"); sx_eq(A.Get(i,j),a[3*i+j],"access"); fr+=a[3*i+j]*a[3*i+j]; } double cr[3]; cross(cr,x,a); for(int i=0;i<3;i++) sx_eq(sk(i,0)*a[0]+sk(i,1)*a[1]+sk(i,2)*a[2],cr[i],"skew"); sx_eq(A.determinant(),det3(a),"determinant"); sx_eq(A.trace(),a[0]+a[4]+a[8],"trace"); sx_eq(A.squaredNorm(),fr,"squared norm");
  double m[16]; A.AffineMatrixTrans(m); for(int i=0;i<4;i++) for(int j=0;j<4;j++) sx_eq(m[4*i+j],i<3&&j<3?a[3*j+i]:i==j?1.:0.,"transposed affine matrix"); for(int i=0;i<16;i++) m[i]=i; A.CopyToMat4(m); for(int i=0;i<4;i++) for(int j=0;j<4;j++) sx_eq(m[4*i+j],i<3&&j<3?a[3*i+j]:4*i+j,"copy into a 4x4"); double c[9],e[9]; A.CopyTo(c); same(c,a,9,"copy"); A.GetElements(c); same(c,a,9,"copy"); A.CopyToScale(c,s); for(int i=0;i<9;i++){ sx_eq(c[i],s*a[i],"scaled copy"); e[i]=b[i]; } A.AddToScale(e,s); for(int i=0;i<9;i++) sx_eq(e[i],b[i]+s*a[i],"scaled addition"); dfm2::CMat3d G; G.SetMat4(m); same(G.p_,a,9,"from a 4x4"); std::array<double,9> ar=A; same(ar.data(),a,9,"array"); double sm[6]; for(int i=0;i<6;i++) sm[i]=b[i]; G.SetSymetric(sm); static const int mp[9]={0,5,4,5,1,3,4,3,2}; for(int i=0;i<9;i++) sx_eq(G.p_[i],sm[mp[i]],"symmetric matrix"); dfm2::CMat3d dg(x[0],x[1],x[2]),sc(s),id=dfm2::CMat3d::Identity(s),ze=dfm2::CMat3d::Zero(); for(int i=0;i<9;i++){ sx_eq(dg.p_[i],i%4==0?x[i/4]:0.,"diagonal"); sx_eq(sc.p_[i],i%4==0?s:0.,"scalar"); sx_eq(id.p_[i],i%4==0?s:0.,"identity"); sx_check(ze.p_[i]==0,"zero"); }
  A+=A; for(int i=0;i<9;i++) sx_eq(A.p_[i],2*a[i],"aliased addition"); B=B*B; mm(d,b,b,3); same(B.p_,d,9,"aliased product"); }
// ------------------------------------------------------------------ 4x4
SX_ENTRY(mat4){ optl(); double a[16],b[16],c[16],d[16],x[4],y[4],z[4]; all(a,16,"a"); all(b,16,"b"); all(x,4,"x"); dfm2::MatMat4(c,a,b); mm(d,a,b,4); same(c,d,16,"product"); dfm2::MatVec4(y,a,x); dfm2::VecMat4(z,x,a); for(int i=0;i<4;i++){ double r=0,s=0; for(int j=0;j<4;j++){ r+=a[4*i+j]*x[j]; s+=a[4*j+i]*x[j]; } sx_eq(y[i],r,"A x"); sx_eq(z[i],s,"x A"); } double u[3],v[3]; dfm2::Mat4Vec3(u,a,x); dfm2::Vec3Mat4(v,x,a); auto w=dfm2::Mat4Vec3<dfm2::CVec3d>(a,dfm2::CVec3d(x[0],x[1],x[2])); double h[3]; dfm2::Vec3_Mat4Vec3_Affine(h,a,x); for(int i=0;i<3;i++){ double r=0,s=0; for(int j=0;j<3;j++){ r+=a[4*i+j]*x[j]; s+=a[4*j+i]*x[j]; } sx_eq(u[i],r,"linear part"); sx_eq(w[i],r,"linear part"); sx_eq(v[i],s,"transposed linear part"); sx_eq(h[i],r+a[4*i+3],"affine map"); } dfm2::Transpose_Mat4(c,a); for(int i=0;i<16;i++) sx_eq(c[i],a[i%4*4+i/4],"transpose"); double t[3]; for(int i=0;i<3;i++) t[i]=x[i]; double r9[9]; for(int i=0;i<9;i++) r9[i]=b[i]; dfm2::Mat4_AffineTrans_RotTransl(c,r9,t); dfm2::Mat4_Mat3(d,r9); for(int i=0;i<4;i++) for(int j=0;j<4;j++){ sx_eq(c[4*j+i],i<3&&j<3?r9[3*i+j]:i<3?t[i]:j==3?1.:0.,"transposed affine of rotation and translation"); sx_eq(d[4*i+j],i<3&&j<3?r9[3*i+j]:i==j?1.:0.,"3x3 block"); } dfm2::Copy_Mat4(c,a); same(c,a,16,"copy"); dfm2::Translate_Mat4Affine(c,t); for(int i=0;i<16;i++) sx_eq(c[i],a[i]+(i%4==3&&i<12?t[i/4]:0.),"translate"); }
SX_ENTRY(homography){ optl(); double a[16],x[3]; all(a,16,"a"); all(x,3,"x"); double w=a[12]*x[0]+a[13]*x[1]+a[14]*x[2]+a[15],v=a[3]*x[0]+a[7]*x[1]+a[11]*x[2]+a[15]; sx_assume((w>0.01)|(w<-0.01)); sx_assume((v>0.01)|(v<-0.01)); auto p=dfm2::Vec3_Mat4Vec3_Homography(a,x); auto q=dfm2::Vec2_Mat4Vec3_Homography(a,x); double r[3]; dfm2::Vec3_Vec3Mat4_Homography(r,x,a); dfm2::CMat4d A(a); auto m=A.MultVec3_Homography(x); auto n=A.Vec2_MultVec3_Homography(x); auto l=A.MultVec3(x); for(int i=0;i<3;i++){ double s=a[4*i+3],t=a[12+i]; for(int j=0;j<3;j++){ s+=a[4*i+j]*x[j]; t+=a[4*j+i]*x[j]; } sx_eq(p[i]*w,s,"homography"); sx_eq(m[i],p[i],"homography"); if(i<2){ sx_eq(q[i],p[i],"homography"); sx_eq(n[i],p[i],"homography"); } sx_eq(r[i]*v,t,"row-vector homography"); sx_eq(l[i],s-a[4*i+3],"linear part"); } }
SX_ENTRY(inverse4){ opt(); static const double B[5][16]={{4,1,0,-1,1,3,1,0,0,1,5,1,-1,0,1,4},{0,1,0,0,0,0,0,1,2,0,0,0,0,0,-1,0},{1,2,3,4,2,4,1,0,0,1,1,3,5,0,2,1},{-1,0,0,2,0,-2,0,1,0,0,-1,3,0,0,0,1},{0,2,0,0,1,0,0,0,0,0,0,3,0,0,4,0}}; int k=sx_choose("base",5),f=sx_choose("entry",16); double a[16],b[16]; for(int i=0;i<16;i++) a[i]=B[k][i]; a[f]+=sx_real_in("e",-0.5,0.5); 
  double m=0; for(int j=0;j<4;j++){ double s[9]; int n=0; for(int r=1;r<4;r++) for(int c=0;c<4;c++) if(c!=j) s[n++]=a[4*r+c]; m+=(j%2?-1:1)*a[j]*det3(s); } sx_assume((m>0.01)|(m<-0.01));
  if(T||k!=2||f%4==0){ dfm2::Inverse_Mat4(b,a); ident(a,b,4,"inverse"); dfm2::CMat4d A(a),I=A.Inverse(); same(I.mat,b,16,"class inverse"); auto c=dfm2::Inverse_Mat4<double>(a); same(c.data(),b,16,"array inverse"); } }
SX_ENTRY(mat4_class){ optl(); double a[16],b[16],d[16],x[3]; all(a,16,"a"); all(b,16,"b"); all(x,3,"x"); dfm2::CMat4d A(a),B(b); mm(d,a,b,4); dfm2::CMat4d P=A*B,S=A+B,D=A-B,t=A.transpose(); same(P.mat,d,16,"product"); for(int i=0;i<16;i++){ sx_eq(S.mat[i],a[i]+b[i],"sum"); sx_eq(D.mat[i],a[i]-b[i],"difference"); sx_eq(t.mat[i],a[i%4*4+i/4],"transpose"); sx_eq(A(i/4,i%4),a[i],"access"); } std::array<double,16> ar=A; same(ar.data(),a,16,"array"); double c[16]; A.CopyTo(c); same(c,a,16,"copy"); auto g=A.GetMat3(); auto tr=A.GetTranslationComponent(); for(int i=0;i<3;i++){ sx_eq(tr[i],a[4*i+3],"translation"); for(int j=0;j<3;j++) sx_eq(g[3*i+j],a[4*i+j],"linear part"); }
  double m9[9]; for(int i=0;i<9;i++) m9[i]=b[i]; dfm2::CMat4d M=dfm2::CMat4d::Mat3(m9),I=dfm2::CMat4d::Identity(),AS=dfm2::CMat4d::AffineScale(x[0]),SX=dfm2::CMat4d::ScaleXYZ(x[0],x[1],x[2]),SK=dfm2::CMat4d::Skew(x),TR=dfm2::CMat4d::Translation(x),T2=dfm2::CMat4d::Translation(std::array<double,3>{x[0],x[1],x[2]}),F,S2,Z,AX=dfm2::CMat4d::AffineAxisTransform({b[0],b[1],b[2]},{b[3],b[4],b[5]},{b[6],b[7],b[8]}); F.SetAffineTranslate(x[0],x[1],x[2]); S2.SetScale(x[0],x[1],x[2]); Z.setZero(); dfm2::CMat4d J(a); J.SetIdentity(); double sk[9]; dfm2::Mat3_Spin(sk,x); double AT[16],AC[16]; dfm2::Mat4_AffineTranslation(AT,x[0],x[1],x[2]); dfm2::Mat4_AffineScale(AC,x[0]); auto AU=dfm2::Mat4_AffineTranslation<double>(x[0],x[1],x[2]); double AI[16]; dfm2::Mat4_Identity(AI);
  for(int i=0;i<4;i++) for(int j=0;j<4;j++){ int k=4*i+j; bool q=i<3&&j<3; double e=i==j?1.:0.,tt=j==3&&i<3?x[i]:e; sx_eq(M.mat[k],q?m9[3*i+j]:e,"embedded 3x3"); sx_eq(I.mat[k],e,"identity"); sx_eq(J.mat[k],e,"identity"); sx_eq(AI[k],e,"identity"); sx_check(Z.mat[k]==0,"zero"); sx_eq(AS.mat[k],i==j?(i<3?x[0]:1.):0.,"scale"); sx_eq(AC[k],AS.mat[k],"scale"); sx_eq(SX.mat[k],i==j?(i<3?x[i]:1.):0.,"axis scale"); sx_eq(S2.mat[k],SX.mat[k],"axis scale"); sx_eq(SK.mat[k],q?sk[3*i+j]:e,"skew"); sx_eq(TR.mat[k],tt,"translation"); sx_eq(T2.mat[k],tt,"translation"); sx_eq(F.mat[k],tt,"translation"); sx_eq(AT[k],tt,"translation"); sx_eq(AU[k],tt,"translation"); sx_eq(AX.mat[k],q?b[3*j+i]:e,"axis transform"); } A=A*A; mm(d,a,a,4); same(A.mat,d,16,"aliased product"); }
// ------------------------------------------------------------------ projections
SX_ENTRY(ortho){ optl(); double lo[3],hi[3],P[16]; for(int i=0;i<3;i++){ lo[i]=sx_real(NM("lo",i)); hi[i]=sx_real(NM("hi",i)); sx_assume(hi[i]>lo[i]+0.01); } dfm2::Mat4_AffineProjectionOrtho(P,lo[0],hi[0],lo[1],hi[1],lo[2],hi[2]); dfm2::CMat4d Q=dfm2::CMat4d::AffineOrthogonalProjection(lo[0],hi[0],lo[1],hi[1],lo[2],hi[2]); same(Q.mat,P,16,"class"); auto a=dfm2::Vec3_Mat4Vec3_Homography(P,lo); auto b=dfm2::Vec3_Mat4Vec3_Homography(P,hi); for(int i=0;i<3;i++){ sx_eq(a[i],-1,"lower corner"); sx_eq(b[i],1,"upper corner"); } for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(i!=j) sx_check(P[4*i+j]==0,"axes stay parallel"); }
SX_ENTRY(frustum){ optl(); double f=sx_real_in("fov",0.25,2.5),as=sx_real_in("asp",0.25,4),z0=sx_real_in("z0",-8,-0.5),z1=sx_real_in("z1",-8,-0.25); sx_assume(z1>z0+0.1); double P[16]; dfm2::Mat4_AffineProjectionFrustum(P,f,as,z0,z1); double t=tan(f/2); sx_assume(t>0.01); for(int k=0;k<2;k++){ double z=k?z1:z0; for(int s=-1;s<2;s+=2) for(int r=-1;r<2;r+=2){ double x[3]={r*as*t*-z,s*t*-z,z}; auto y=dfm2::Vec3_Mat4Vec3_Homography(P,x); sx_eq(y[0],r,"side plane"); sx_eq(y[1],s,"top plane"); sx_eq(y[2],k?1.:-1.,"near and far plane"); } } }
SX_ENTRY(lookat){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("check_ms",8000); int b=sx_choose("base",3),f=sx_choose("free",3); static const double E[3][3]={{0,0,0},{1,2,3},{-1,0.5,2}},Q[3][3]={{0,0,-2},{2,0,0},{0.5,1,1}},U[3][3]={{0,1,0},{0.25,1,0},{0,0.5,1}}; double e[3],c[3],u[3]; for(int i=0;i<3;i++){ e[i]=E[b][i]; c[i]=Q[b][i]; u[i]=U[b][i]; } double*w=f==0?e:f==1?c:u; int ax=sx_choose("axis",3); w[ax]+=sx_real_in("d",-0.25,0.25); double M[16]; dfm2::Mat4_AffineLookAt(M,e[0],e[1],e[2],c[0],c[1],c[2],u[0],u[1],u[2]); double R[9]; for(int i=0;i<9;i++) R[i]=M[i/3*4+i%3]; double d[9]; mm(d,R,R,3,false,true); for(int i=0;i<9;i++) sx_eq(d[i],i%4==0?1.:0.,"rotation part orthonormal"); auto o=dfm2::Vec3_Mat4Vec3_Homography(M,e); for(int i=0;i<3;i++) sx_eq(o[i],0,"eye is the origin"); auto p=dfm2::Vec3_Mat4Vec3_Homography(M,c); sx_eq(p[0],0,"centre on the axis"); sx_eq(p[1],0,"centre on the axis"); sx_check(p[2]<0,"centre in front"); double uu[3]; for(int i=0;i<3;i++) uu[i]=R[3*i]*u[0]+R[3*i+1]*u[1]+R[3*i+2]*u[2]; sx_eq(uu[0],0,"up has no side component"); sx_check(uu[1]>0,"up is up"); }
SX_ENTRY(ray){ opt(); int w=4,h=2; int iw=sx_choose("iw",w),ih=sx_choose("ih",h); double P[16],I[16]; dfm2::Mat4_Identity(P); double x=sx_real_in("x",-1,1); P[3]=x; P[0]=2; P[10]=-0.5; dfm2::Mat4_Identity(I); I[0]=0.5; I[3]=-0.5*x; I[10]=-2; auto r=dfm2::RayFromInverseMvpMatrix<double>(I,iw,ih,w,h); double px=-1+2.*(iw+0.5)/w,py=-1+2.*(ih+0.5)/h; sx_eq(r.first[0],0.5*(px-x),"origin on the near plane"); sx_eq(r.first[1],py,"origin on the near plane"); sx_eq(r.first[2],-2,"origin on the near plane"); sx_eq(r.second[0],0,"direction"); sx_eq(r.second[1],0,"direction"); sx_eq(r.second[2],1,"unit direction to the far plane"); }
// ------------------------------------------------------------------ general n
template<unsigned N> static void gen(){ double a[N*N],b[N*N],c[N*N],d[N*N],x[N],y[N]; all(a,N*N,"a"); all(b,N*N,"b"); all(x,N,"x"); dfm2::MatMat<double,N>(c,a,b); mm(d,a,b,N); same(c,d,N*N,"product"); double e[N*N]; for(unsigned i=0;i<N*N;i++) e[i]=a[N*N-1-i]; dfm2::Sub_MatMat<double,N>(e,a,b); for(unsigned i=0;i<N*N;i++) sx_eq(e[i],a[N*N-1-i]-d[i],"subtracted product"); dfm2::MatVec<double,N,N>(y,a,x); double z[N]; for(unsigned i=0;i<N;i++) z[i]=b[i]; dfm2::Sub_MatVec<double,N,N>(z,a,x); for(unsigned i=0;i<N;i++){ double s=0; for(unsigned j=0;j<N;j++) s+=a[i*N+j]*x[j]; sx_eq(y[i],s,"matvec"); sx_eq(z[i],b[i]-s,"subtracted matvec"); } }
SX_ENTRY(matn){ optl(); gen<1>(); gen<2>(); gen<3>(); gen<4>(); double A[6],x[3],y[2]; all(A,6,"r"); all(x,3,"v"); dfm2::MatVec<double,2,3>(y,A,x); for(int i=0;i<2;i++) sx_eq(y[i],A[3*i]*x[0]+A[3*i+1]*x[1]+A[3*i+2]*x[2],"rectangular matvec"); }
SX_ENTRY(inverse_n){ opt(); int k=sx_choose("n",3); if(k==0){ double a=sx_real("a"); sx_assume((a>0.01)|(a<-0.01)); double b=a; sx_check((dfm2::Inverse_Matrix<double,1>(&b)),"regular"); sx_eq(a*b,1,"inverse"); } else if(k==1){ double a[4],b[4]; all(a,4,"a"); double d=a[0]*a[3]-a[1]*a[2]; for(int i=0;i<4;i++) b[i]=a[i]; bool r=dfm2::Inverse_Matrix<double,2>(b); bool big=sx_fork((d>=1e-10)|(d<=-1e-10)); sx_check(r==big,"reports singularity"); if(r) ident(a,b,2,"inverse"); } else { double a[16],b[16]; static const double B[16]={4,1,0,-1,1,3,1,0,0,1,5,1,-1,0,1,4}; int f=sx_choose("entry",16); for(int i=0;i<16;i++) a[i]=B[i]; a[f]+=sx_real_in("e",-0.5,0.5); for(int i=0;i<16;i++) b[i]=a[i]; bool r=dfm2::Inverse_Matrix<double,4>(b); sx_check(r,"regular"); ident(a,b,4,"inverse"); } }
