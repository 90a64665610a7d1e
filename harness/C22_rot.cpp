// C22: rotations
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstring>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
namespace dfm2=delfem2; static const int T=SX_TIER;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("sqrt_square",1); }
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
static void mm(double*C,const double*A,const double*B,int n,bool ta=false,bool tb=false){ for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double s=0; for(int k=0;k<n;k++) s+=(ta?A[k*n+i]:A[i*n+k])*(tb?B[j*n+k]:B[k*n+j]); C[i*n+j]=s; } }
static void same(const double*a,const double*b,int n,const char*m){ for(int i=0;i<n;i++) sx_eq(a[i],b[i],m); }
static double det3(const double*m){ return m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); }
static void cross(double*r,const double*a,const double*b){ r[0]=a[1]*b[2]-a[2]*b[1]; r[1]=a[2]*b[0]-a[0]*b[2]; r[2]=a[0]*b[1]-a[1]*b[0]; }
static void mv(double*r,const double*m,const double*x){ for(int i=0;i<3;i++) r[i]=m[3*i]*x[0]+m[3*i+1]*x[1]+m[3*i+2]*x[2]; }
static void orthonormal(const double*m,const char*msg){ double c[9]; mm(c,m,m,3,true); for(int i=0;i<9;i++) sx_eq(c[i],i%4==0?1.:0.,msg); sx_eq(det3(m),1,"determinant one"); }
// every unit quaternion but -1, by stereographic projection
static void unitq(double*q,const double*s){ double d=1+s[0]*s[0]+s[1]*s[1]+s[2]*s[2]; for(int i=0;i<3;i++) q[i]=2*s[i]/d; q[3]=(2-d)/d; }
// reference rotation by an angle with cosine c and sine s about the unit axis n
static void rodr(double*m,const double*n,double c,double s){ double k[9]={0,-n[2],n[1],n[2],0,-n[0],-n[1],n[0],0}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[3*i+j]=(i==j?c:0.)+(1-c)*n[i]*n[j]+s*k[3*i+j]; }
// reference rotation q v q*
static void qmul(double*r,const double*p,const double*q){ double c[3]; cross(c,p,q); for(int i=0;i<3;i++) r[i]=p[3]*q[i]+q[3]*p[i]+c[i]; r[3]=p[3]*q[3]-p[0]*q[0]-p[1]*q[1]-p[2]*q[2]; }
static int axis(double*n){ int k=sx_choose("axis",T?8:6); static const int den[8]={1,1,1,3,3,7,5,1},num[8][3]={{1,0,0},{0,1,0},{0,0,1},{1,2,2},{-2,1,2},{2,-3,6},{0,3,-4},{0,-1,0}}; for(int i=0;i<3;i++) n[i]=(double)num[k][i]/den[k]; return k; }
// ------------------------------------------------------------------ quaternion algebra
SX_ENTRY(product){ optl(); double p[4],q[4],r[4],s[4]; all(p,4,"p"); all(q,4,"q"); dfm2::QuatQuat(r,p,q); qmul(s,p,q); same(r,s,4,"product"); auto a=dfm2::Mult_QuatQuat(p,q); same(a.data(),s,4,"product"); dfm2::CQuatd P(p),Q(q); auto R=P*Q; same(R.p,s,4,"class product"); auto C=P.conjugate(); for(int i=0;i<4;i++) sx_eq(C.p[i],i<3?-p[i]:p[i],"conjugate"); auto S=P+Q,D=P-Q,K=P*2.5; for(int i=0;i<4;i++){ sx_eq(S.p[i],p[i]+q[i],"sum"); sx_eq(D.p[i],p[i]-q[i],"difference"); sx_eq(K.p[i],2.5*p[i],"scale"); } sx_eq(dfm2::Dot_Quat(p,q),p[0]*q[0]+p[1]*q[1]+p[2]*q[2]+p[3]*q[3],"dot"); auto N=P*C; double n2=p[0]*p[0]+p[1]*p[1]+p[2]*p[2]+p[3]*p[3]; sx_eq(N.p[3],n2,"q q* is the squared norm"); for(int i=0;i<3;i++) sx_eq(N.p[i],0,"q q* is real"); dfm2::Quat_Identity(r); double t[4]; dfm2::QuatQuat(t,r,p); same(t,p,4,"identity"); auto I=dfm2::CQuatd::Identity(); dfm2::CQuatd z; same(I.p,r,4,"identity"); same(z.p,r,4,"default is identity"); dfm2::CQuatd w(p[3],p[0],p[1],p[2]); same(w.p,p,4,"scalar first"); dfm2::Copy_Quat(t,q); same(t,q,4,"copy"); w.CopyTo(t); same(t,p,4,"copy"); auto F=P.cast<double>(); same(F.p,p,4,"cast"); }
SX_ENTRY(norm){ opt(); double p[4],r[4],t[4]; all(p,4,"p"); double n2=p[0]*p[0]+p[1]*p[1]+p[2]*p[2]+p[3]*p[3]; sx_assume(n2>0.01); double l=dfm2::Length_Quat(p); sx_eq(l*l,n2,"length"); sx_check(l>=0,"length"); dfm2::CQuatd P(p); sx_eq(P.norm(),l,"norm"); dfm2::Inverse_Quat(r,p); dfm2::QuatQuat(t,p,r); for(int i=0;i<4;i++) sx_eq(t[i],i==3?1.:0.,"inverse"); for(int i=0;i<4;i++) r[i]=p[i]; dfm2::Normalize_Quat(r); P.normalize(); for(int i=0;i<4;i++){ sx_eq(r[i]*l,p[i],"normalised"); sx_eq(P.p[i],r[i],"normalised"); } dfm2::CQuatd S(p); S.SetSmallerRotation(); double s=S.p[0]*p[0]+S.p[1]*p[1]+S.p[2]*p[2]+S.p[3]*p[3]; sx_check(S.p[3]>=0,"smaller rotation"); sx_check((s<=n2+1e-9)&(s>=-n2-1e-9),"same rotation"); sx_eq(s*s,n2*n2,"same rotation"); }
SX_ENTRY(slerp){ opt(); double a[3],b[3],s[4],t[4],n[3]; axis(n); double h=sx_real_in("h",0.0625,8),g=sx_choose("start",2)?0.5:-2; double d=1+g*g,e=1+h*h; for(int i=0;i<3;i++) s[i]=(i==1?2*g/d:0.); s[3]=(1-g*g)/d; double r[4]; for(int i=0;i<3;i++) r[i]=n[i]*2*h/e; r[3]=(1-h*h)/e; qmul(t,s,r); (void)a; (void)b; dfm2::CQuatd q0(s),q1(t); auto z=dfm2::SphericalLinearInterp(q0,q1,0.0); same(z.p,s,4,"starts at the first"); auto o=dfm2::SphericalLinearInterp(q0,q1,1.0); same(o.p,t,4,"ends at the second"); auto m=dfm2::SphericalLinearInterp(q0,q1,0.5); double l=0,d0=0,d1=0; for(int i=0;i<4;i++){ l+=m.p[i]*m.p[i]; d0+=m.p[i]*s[i]; d1+=m.p[i]*t[i]; } sx_eq(l,1,"unit"); sx_eq(d0,d1,"halfway"); auto id=dfm2::SphericalLinearInterp(q0,q0,0.25); same(id.p,s,4,"same end points"); }
// ------------------------------------------------------------------ quaternion and matrix
SX_ENTRY(matrix){ optl(); double s[3],q[4],x[3],m[9],y[3],z[3],v[4],qc[4],t[4],u[4]; all(s,3,"s"); all(x,3,"x"); unitq(q,s); dfm2::Mat3_Quat(m,q); orthonormal(m,"orthonormal"); for(int i=0;i<3;i++){ v[i]=x[i]; qc[i]=-q[i]; } v[3]=0; qc[3]=q[3]; qmul(t,q,v); qmul(u,t,qc); mv(y,m,x); same(y,u,3,"matrix acts as q v q*"); dfm2::QuatVec(z,q,x); same(z,u,3,"quaternion acts as q v q*"); auto w=dfm2::QuatVec3<dfm2::CVec3d>(q,dfm2::CVec3d(x[0],x[1],x[2])); same(w.data(),u,3,"quaternion acts as q v q*"); dfm2::CQuatd Q(q); auto w2=Q.RotateVector(dfm2::CVec3d(x[0],x[1],x[2])); same(w2.data(),u,3,"class rotation"); double k[3]; dfm2::QuatConjVec(k,q,z); same(k,x,3,"conjugate undoes the rotation"); auto M=dfm2::CMat3d::Quat(q); same(M.p_,m,9,"class matrix"); dfm2::CMat3d M2; M2.SetRotMatrix_Quaternion(q); same(M2.p_,m,9,"class matrix"); double a[16],b[16]; dfm2::Mat4_AffineQuaternion(a,q); dfm2::Mat4_AffineQuaternionConjugate(b,q); auto A=dfm2::CMat4d::Quat(q); double g[16]; double tr[3]={x[0],x[1],x[2]}; dfm2::Mat4_ScaleRotTrans(g,1.5,q,tr); for(int i=0;i<4;i++) for(int j=0;j<4;j++){ sx_eq(a[4*i+j],i<3&&j<3?m[3*i+j]:i==j?1.:0.,"4x4 matrix"); sx_eq(b[4*i+j],a[4*j+i],"conjugate is the transpose"); sx_eq(A.mat[4*i+j],a[4*i+j],"class 4x4"); sx_eq(g[4*i+j],i<3?(j<3?1.5*m[3*i+j]:tr[i]):i==j?1.:0.,"scale, rotate, translate"); } }
SX_ENTRY(homomorphism){ optl(); double s[3],t[3],p[4],q[4],r[4],a[9],b[9],c[9],d[9]; all(s,3,"s"); all(t,3,"t"); int k=sx_choose("fixed",2); if(k){ s[0]=0.5; t[2]=-2; } unitq(p,s); unitq(q,t); dfm2::QuatQuat(r,p,q); dfm2::Mat3_Quat(a,p); dfm2::Mat3_Quat(b,q); dfm2::Mat3_Quat(c,r); mm(d,a,b,3); same(c,d,9,"products map to products"); }
SX_ENTRY(to_quat){ opt(); double s[3],q[4],m[9],r[4]; int k=sx_choose("line",T?8:5); static const double B[8][3]={{0,0,0},{0.5,1,-0.25},{2,0,1},{0,-3,1},{1,1,1},{-0.5,2,0},{0,0,3},{0.25,-0.5,4}},D[8][3]={{1,2,-1},{1,0,0},{0,1,0},{0,0,1},{1,-1,0.5},{0,1,2},{1,1,0},{2,0,-1}}; double f=sx_real_in("f",-3,3); for(int i=0;i<3;i++) s[i]=B[k][i]+f*D[k][i]; unitq(q,s); dfm2::Mat3_Quat(m,q); dfm2::Quat_Mat3(r,m); double d=0,l=0; for(int i=0;i<4;i++){ d+=q[i]*r[i]; l+=r[i]*r[i]; } sx_eq(l,1,"unit"); sx_eq(d*d,1,"the same rotation"); double n[9]; dfm2::Mat3_Quat(n,r); same(n,m,9,"matrix to quaternion to matrix"); dfm2::CMat3d M(m); auto g=M.GetQuaternion(); for(int i=0;i<4;i++) sx_eq(g[i],r[i],"class conversion"); }
// ------------------------------------------------------------------ axis-angle
SX_ENTRY(axis_angle){ opt(); double n[3],v[3],m[9],r[9],q[4],a=sx_real_in("a",0.0009765625,3); axis(n); for(int i=0;i<3;i++) v[i]=n[i]*a; rodr(r,n,cos(a),sin(a)); dfm2::Mat3_RotMatFromAxisAngleVec(m,v); same(m,r,9,"rotation about the axis"); auto m2=dfm2::Mat3_RotMatFromAxisAngleVec(std::array<double,3>{v[0],v[1],v[2]}); same(m2.data(),r,9,"rotation about the axis"); double g[16]; dfm2::Mat4_AffineRotationCartesian(g,v); for(int i=0;i<4;i++) for(int j=0;j<4;j++) sx_eq(g[4*i+j],i<3&&j<3?r[3*i+j]:i==j?1.:0.,"affine rotation"); dfm2::Quat_CartesianAngle(q,v); double qm[9]; dfm2::Mat3_Quat(qm,q); for(int i=0;i<3;i++) sx_eq(q[i],n[i]*sin(0.5*a),"half-angle axis"); sx_eq(q[3],cos(0.5*a),"half angle"); double c[9]; double ch=cos(0.5*a),sh=sin(0.5*a); rodr(c,n,ch*ch-sh*sh,2*ch*sh); same(qm,c,9,"quaternion of the axis-angle vector"); double x[3]={2,-1,0.5},y[3]; mv(y,r,x); auto w=dfm2::RotateVec3WithAxisAngleVector(dfm2::CVec3d(x[0],x[1],x[2]),dfm2::CVec3d(v[0],v[1],v[2])); for(int i=0;i<3;i++){ double e=w[i]-y[i]; sx_check((e<1e-9)&(e>-1e-9),"rotated vector"); } }
SX_ENTRY(axis_angle_small){ opt(); double v[3],m[9],q[4]; int k=sx_choose("k",3); double s=sx_real_in("s",-1,1); for(int i=0;i<3;i++) v[i]=i==k?s*9.5e-11:0; if(k==2) v[0]=2e-11*s; dfm2::Mat3_RotMatFromAxisAngleVec(m,v); auto m2=dfm2::Mat3_RotMatFromAxisAngleVec(std::array<double,3>{v[0],v[1],v[2]}); double g[16]; dfm2::Mat4_AffineRotationCartesian(g,v); double K[9]={1,-v[2],v[1],v[2],1,-v[0],-v[1],v[0],1}; same(m,K,9,"first order"); same(m2.data(),K,9,"first order"); for(int i=0;i<3;i++) for(int j=0;j<3;j++) sx_eq(g[4*i+j],K[3*i+j],"first order"); dfm2::Quat_CartesianAngle(q,v); for(int i=0;i<3;i++) sx_eq(q[i],0.5*v[i],"first order"); double e=q[3]-1; sx_check((e<1e-15)&(e>-1e-15),"first order"); auto w=dfm2::Quat_CartesianAngle(dfm2::CVec3d(v)); for(int i=0;i<4;i++) sx_eq(w[i],q[i],"class argument"); }
SX_ENTRY(from_matrix){ opt(); double n[3],m[9],v[3],t=sx_real_in("t",-8,8); axis(n); sx_assume((t>0.0625)|(t<-0.0625)); double e=1+t*t,c=(1-t*t)/e,s=2*t/e; rodr(m,n,c,s); dfm2::AxisAngleVectorCartesian_Mat3(v,m); double L=2*atan(t); (void)L; double th=acos(c); for(int i=0;i<3;i++) sx_eq(v[i],t>0?n[i]*th:-n[i]*th,"axis times angle"); dfm2::CMat3d M(m); auto u=dfm2::Vec3_AxisAngleVecFromMat3<dfm2::CMat3d,double>(M); for(int i=0;i<3;i++) sx_eq(u[i],v[i],"both extractions agree"); }
SX_ENTRY(from_matrix_small){ opt(); double n[3],m[9],v[3],t=sx_real_in("t",-0.001,0.001); axis(n); double e=1+t*t,c=(1-t*t)/e,s=2*t/e; rodr(m,n,c,s); dfm2::AxisAngleVectorCartesian_Mat3(v,m); for(int i=0;i<3;i++) sx_eq(v[i],s*n[i],"first-order axis-angle"); }
SX_ENTRY(rodrigues){ optl(); double n[3],m[9],v[3],t=sx_real_in("t",-8,8); axis(n); double e=1+t*t,c=(1-t*t)/e,s=2*t/e; rodr(m,n,c,s); for(int i=0;i<3;i++) v[i]=2*t*n[i]; auto A=dfm2::Mat4_AffineRotationRodriguez(v[0],v[1],v[2]); auto M=dfm2::Mat3_RotMatFromRodriguesVector(std::array<double,3>{v[0],v[1],v[2]}); for(int i=0;i<4;i++) for(int j=0;j<4;j++) sx_eq(A[4*i+j],i<3&&j<3?m[3*i+j]:i==j?1.:0.,"vector 2 tan(angle/2) n"); same(M.data(),m,9,"vector 2 tan(angle/2) n"); double a[16],r[16]; all(a,16,"a"); for(int i=0;i<16;i++) r[i]=a[i]; dfm2::Rotate_Mat4AffineRodriguez(r,v); double d[16]; mm(d,A.data(),a,4); same(r,d,16,"rotation multiplied from the left"); }
SX_ENTRY(rodrigues_any){ optl(); double v[3]; all(v,3,"v"); auto M=dfm2::Mat3_RotMatFromRodriguesVector(std::array<double,3>{v[0],v[1],v[2]}); orthonormal(M.data(),"orthonormal"); auto C=dfm2::Mat3_RotMatFromConformalRotationVector(std::array<double,3>{v[0],v[1],v[2]}); orthonormal(C.data(),"orthonormal"); double y[3]; mv(y,M.data(),v); same(y,v,3,"keeps its axis"); mv(y,C.data(),v); same(y,v,3,"keeps its axis"); }
// conformal rotation vector is 4 tan(angle/4) n
SX_ENTRY(crv){ opt(); double n[3],m[9],v[3],t=sx_real_in("t",-0.96875,0.96875); axis(n); sx_assume((t>0.03125)|(t<-0.03125)); double e=1+t*t,ch=(1-t*t)/e,sh=2*t/e,c=ch*ch-sh*sh,s=2*ch*sh; rodr(m,n,c,s); for(int i=0;i<3;i++) v[i]=4*t*n[i]; auto M=dfm2::Mat3_RotMatFromConformalRotationVector(std::array<double,3>{v[0],v[1],v[2]}); same(M.data(),m,9,"vector 4 tan(angle/4) n"); double r[3]; dfm2::AxisAngleVectorCRV_Mat3(r,m); auto N=dfm2::Mat3_RotMatFromConformalRotationVector(std::array<double,3>{r[0],r[1],r[2]}); same(N.data(),m,9,"matrix to vector to matrix"); }
// ------------------------------------------------------------------ angles
SX_ENTRY(bryant){ optl(); double x=sx_real_in("x",-3,3),y=sx_real_in("y",-3,3),z=sx_real_in("z",-3,3),q[4],m[9]; dfm2::Quat_Bryant(q,x,y,z); auto a=dfm2::Quat_Bryant(x,y,z); same(a.data(),q,4,"array version"); double qx[4]={sin(0.5*x),0,0,cos(0.5*x)},qy[4]={0,sin(0.5*y),0,cos(0.5*y)},qz[4]={0,0,sin(0.5*z),cos(0.5*z)},t[4],u[4]; qmul(t,qy,qx); qmul(u,qz,t); same(q,u,4,"z after y after x"); dfm2::Mat3_Quat(m,q); orthonormal(m,"orthonormal"); }
SX_ENTRY(bryant_mat){ opt(); static const double F[4]={0.5,-1.25,2,-3}; int k=sx_choose("free",3); double an[3]; for(int i=0;i<3;i++) an[i]=F[sx_choose("other",2)+i%3]; an[k]=sx_real_in("x",0.001,3); dfm2::CMat3d M; M.SetRotMatrix_BryantAngle(an[0],an[1],an[2]); double R[3][9]; for(int i=0;i<3;i++){ double n[3]={0,0,0}; n[i]=1; rodr(R[i],n,cos(an[i]),sin(an[i])); } double c[9],d[9]; mm(c,R[1],R[0],3); mm(d,R[2],c,3); for(int i=0;i<9;i++){ double e=M.p_[i]-d[i]; sx_check((e<1e-9)&(e>-1e-9),"z after y after x"); } }
static void euler(std::array<int,3> ax){ opt(); double q[4],u[4]={0,0,0,1}; std::array<double,3> r; for(int i=0;i<3;i++) r[i]=sx_real_in(NM("r",i),-3,3); dfm2::Quaternion_EulerAngle(q,r,ax); for(int i=0;i<3;i++){ double d[4]={0,0,0,cos(0.5*r[i])}; d[ax[i]]=sin(0.5*r[i]); double t[4]; qmul(t,u,d); for(int j=0;j<4;j++) u[j]=t[j]; } same(q,u,4,"product of the three axis rotations"); }
SX_ENTRY(euler_quat){ int i=sx_choose("i",3),j=sx_choose("j",3),k=sx_choose("k",3); euler({i,j,k}); }
SX_ENTRY(euler_mat){ opt(); int w=sx_choose("order",2),f=sx_choose("free",3); static const double H[6]={0,0.5,-0.25,2,-3,1}; double h[3]; int o=sx_choose("other",T?4:2); for(int i=0;i<3;i++) h[i]=i==1?(o%2?0.5:-0.25):H[(o*2+i)%6]; h[f]=f==1?sx_real_in("h",-0.9375,0.9375):sx_real_in("h",-6,6); std::array<int,3> ax=w?std::array<int,3>{2,0,1}:std::array<int,3>{2,1,0}; double m[9]={1,0,0,0,1,0,0,0,1}; for(int i=0;i<3;i++){ double n[3]={0,0,0},r[9],t[9],e=1+h[i]*h[i]; n[ax[i]]=1; rodr(r,n,(1-h[i]*h[i])/e,2*h[i]/e); mm(t,m,r,3); for(int j=0;j<9;j++) m[j]=t[j]; } double ea[3]; dfm2::EulerAngle_Mat3(ea,m,ax); for(int i=0;i<3;i++){ double e=1+h[i]*h[i]; sx_eq(cos(ea[i]),(1-h[i]*h[i])/e,"angle"); sx_eq(sin(ea[i]),2*h[i]/e,"angle"); } }
// ------------------------------------------------------------------ frames
SX_ENTRY(frame){ opt(); double n[3]; int k=sx_choose("dir",4); double t=sx_real_in("t",-4,4),e=1+t*t,c=(1-t*t)/e,s=2*t/e; double a[3]={k==0?c:k==1?0.6*c:k==2?s:0.8*s,k==0?s:k==1?s:k==2?0:0.6*s,k==0?0:k==1?0.8*c:k==2?c:c}; for(int i=0;i<3;i++) n[i]=a[i]; sx_assume((n[0]*n[0]+n[2]*n[2]>1e-6)); dfm2::CVec3d x,y,z(n); dfm2::FrameFromVectorZ(x,y,z); double m[9]={x.p[0],y.p[0],n[0],x.p[1],y.p[1],n[1],x.p[2],y.p[2],n[2]}; orthonormal(m,"right-handed orthonormal frame"); }
SX_ENTRY(frame_y){ opt(); double s=sx_choose("sign",2)?1:-1; dfm2::CVec3d x,y,z(0,s,0); dfm2::FrameFromVectorZ(x,y,z); double m[9]={x.p[0],y.p[0],0,x.p[1],y.p[1],s,x.p[2],y.p[2],0}; orthonormal(m,"right-handed orthonormal frame"); }
SX_ENTRY(minimum){ opt(); int k=sx_choose("axis",T?8:6); double n[3]; static const int num[8][3]={{1,0,0},{0,1,0},{0,0,1},{1,2,2},{-2,1,2},{2,-3,6},{0,3,-4},{0,-1,0}}; static const int per[8][3]={{0,3,4},{3,0,-4},{4,3,0},{2,1,-2},{1,-2,2},{3,6,2},{5,0,0},{1,0,0}}; static const int den[8]={1,1,1,3,3,7,5,1},pd[8]={5,5,5,3,3,7,5,1}; for(int i=0;i<3;i++) n[i]=num[k][i]; double p[3],o[3]; for(int i=0;i<3;i++) p[i]=per[k][i]; cross(o,n,p); double t=sx_real_in("t",-6,6); sx_assume((t>0.001)|(t<-0.001)); (void)den; (void)pd; double nn=n[0]*n[0]+n[1]*n[1]+n[2]*n[2],nl=den[k]; double V[3],v[3]; 
  // v is V turned by 2 atan t about n
  double e=1+t*t,c=(1-t*t)/e,s=2*t/e,ax[3]={n[0]/nl,n[1]/nl,n[2]/nl},R[9]; (void)nn; rodr(R,ax,c,s); for(int i=0;i<3;i++) V[i]=p[i]; mv(v,R,V); double sc=sx_choose("long",2)?2:1; for(int i=0;i<3;i++) v[i]*=sc; auto M=dfm2::Mat3_MinimumRotation(dfm2::CVec3d(V),dfm2::CVec3d(v)); same(M.data(),R,9,"turns about the common normal"); }
SX_ENTRY(antiparallel){ opt(); int k=sx_choose("dir",T?8:6); double l=sx_real_in("l",0.5,4); double V[3],v[3],n[3]; static const int num[8][3]={{1,0,0},{0,1,0},{0,0,1},{1,2,2},{-2,1,2},{2,-3,6},{0,3,-4},{0,-1,0}}; for(int i=0;i<3;i++){ V[i]=num[k][i]; v[i]=-l*num[k][i]; n[i]=num[k][i]; } auto M=dfm2::Mat3_MinimumRotation(dfm2::CVec3d(V),dfm2::CVec3d(v)); orthonormal(M.data(),"rotation"); mv(v,M.data(),n); for(int i=0;i<3;i++) sx_eq(v[i],-n[i],"reverses the vector"); sx_eq(M[0]+M[4]+M[8],-1,"half turn"); }
SX_ENTRY(parallel){ opt(); int k=sx_choose("dir",T?8:6); double l=sx_real_in("l",0.5,4); double V[3],v[3]; static const int num[8][3]={{1,0,0},{0,1,0},{0,0,1},{1,2,2},{-2,1,2},{2,-3,6},{0,3,-4},{0,-1,0}}; for(int i=0;i<3;i++){ V[i]=num[k][i]; v[i]=l*num[k][i]; } auto M=dfm2::Mat3_MinimumRotation(dfm2::CVec3d(V),dfm2::CVec3d(v)); for(int i=0;i<9;i++) sx_eq(M[i],i%4==0?1.:0.,"identity"); }
