// C34: bone hierarchies, skinning, BioVision motion files, pose sensitivities
#include "sx.h"
#include "memstream.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstring>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/rig_geo3.h"
#include "delfem2/rig_bvh.h"
#include "delfem2/rigopt.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned U; typedef std::vector<double> VD; typedef std::vector<U> VU;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",6000000); sx_opt("steps_are_violation",1); }
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
static void unitq(double*q,int k){ double a[3]; all(a,3,k==0?"qa":k==1?"qb":k==2?"qc":"qd",-1,1); double s=a[0]*a[0]+a[1]*a[1]+a[2]*a[2]; for(int i=0;i<3;i++) q[i]=2*a[i]/(1+s); q[3]=(1-s)/(1+s); }
static const double QC[5][4]={{0,0,0,1},{0.5,0.5,0.5,0.5},{0.6,0,0,0.8},{0,-0.8,0,0.6},{0.1,-0.7,0.5,0.5}};
static void rotm(double*R,const double*q){ double x=q[0],y=q[1],z=q[2],w=q[3]; double m[9]={1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w),2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w),2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)}; for(int i=0;i<9;i++) R[i]=m[i]; }
static void mv(double*o,const double*R,const double*x,double s=1){ double t[3]; for(int i=0;i<3;i++) t[i]=s*(R[3*i]*x[0]+R[3*i+1]*x[1]+R[3*i+2]*x[2]); for(int i=0;i<3;i++) o[i]=t[i]; }
static void tree(int*par,int n){ par[0]=-1; for(int i=1;i<n;i++) par[i]=sx_choose(NM("par",i),i); }
// the image of x (in the frame of bone b) under the chain of parents, by the definition
static void chain(double*o,const std::vector<dfm2::CRigBone>&B,int b,const double*x){ for(int i=0;i<3;i++) o[i]=x[i]; while(b>=0){ double R[9]; rotm(R,B[b].quatRelativeRot); mv(o,R,o,B[b].scale); for(int i=0;i<3;i++) o[i]+=B[b].transRelative[i]; b=B[b].ibone_parent; } }
static void app(double*o,const double*m,const double*x){ double t[3]; for(int i=0;i<3;i++) t[i]=m[4*i]*x[0]+m[4*i+1]*x[1]+m[4*i+2]*x[2]+m[4*i+3]; for(int i=0;i<3;i++) o[i]=t[i]; }
static std::vector<dfm2::CRigBone> skeleton(int n,int*par,bool sc){ VD jp(n*3); VU pa(n); for(int i=0;i<n;i++){ pa[i]=par[i]<0?UINT_MAX:(U)par[i]; for(int d=0;d<3;d++) jp[3*i+d]=sx_real_in(NM("j",3*i+d),-2,2); } std::vector<dfm2::CRigBone> B; dfm2::InitBones_JointPosition(B,n,pa.data(),jp.data()); (void)sc; return B; }
SX_ENTRY(hierarchy){ optl(); const int n=4; int par[4]; tree(par,n); std::vector<dfm2::CRigBone> B(n); int sy=sx_choose("free",n); for(int i=0;i<n;i++){ B[i].ibone_parent=par[i]; if(i==sy) unitq(B[i].quatRelativeRot,0); else for(int k=0;k<4;k++) B[i].quatRelativeRot[k]=QC[1+i][k]; B[i].scale=i==sy?sx_real_in("s",0.25,4):1+0.5*i; for(int d=0;d<3;d++) B[i].transRelative[d]=sx_real_in(NM("t",3*i+d),-2,2); } dfm2::UpdateBoneRotTrans(B); double x[3]; all(x,3,"x"); for(int i=0;i<n;i++){ double a[3],b[3]; app(a,B[i].affmat3Global,x); chain(b,B,i,x); for(int d=0;d<3;d++) sx_eq(a[d],b[d],"bone matrix is the product along its ancestors"); const double*m=B[i].affmat3Global; sx_eq(m[12],0,"affine"); sx_eq(m[13],0,"affine"); sx_eq(m[14],0,"affine"); sx_eq(m[15],1,"affine"); auto r=B[i].RootPosition(); double o[3]={0,0,0}; chain(b,B,i,o); for(int d=0;d<3;d++) sx_eq(r[d],b[d],"joint position"); } }
SX_ENTRY(rest_pose){ optl(); const int n=4; int par[4]; tree(par,n); auto B=skeleton(n,par,false); double x[3]; all(x,3,"x"); for(int i=0;i<n;i++){ double y[3]; B[i].DeformSkin(y,x); auto r=B[i].RootPosition(); sx_check(B[i].ibone_parent==par[i],"parent"); for(int d=0;d<3;d++){ sx_eq(y[d],x[d],"rest pose leaves every point in place"); sx_eq(r[d],sx_real_in("dummy",0,0)*0+(-B[i].invBindMat[4*d+3]),"joint position"); } } }
// ------------------------------------------------------------------ skinning
SX_ENTRY(skinning){ optl(); const int n=3,np=2; int par[3]; tree(par,n); auto B=skeleton(n,par,false); int sy=sx_choose("free",n); for(int i=0;i<n;i++){ if(i==sy) unitq(B[i].quatRelativeRot,0); else for(int k=0;k<4;k++) B[i].quatRelativeRot[k]=QC[1+i][k]; } B[0].SetTranslation(1,-2,0.5); dfm2::UpdateBoneRotTrans(B); VD X0(np*3),W(np*n),X1; for(int i=0;i<np*3;i++) X0[i]=sx_real_in(NM("x",i),-2,2); for(int i=0;i<np*n;i++) W[i]=sx_real_in(NM("w",i),0.125,2);
  dfm2::Skinning_LBS(X1,X0,B,W); sx_check(X1.size()==X0.size(),"size"); double y[2][3][3]; for(int p=0;p<np;p++) for(int b=0;b<n;b++){ double l[3]; for(int d=0;d<3;d++) l[d]=X0[3*p+d]+B[b].invBindMat[4*d+3]; chain(y[p][b],B,b,l); double z[3]; B[b].DeformSkin(z,X0.data()+3*p); for(int d=0;d<3;d++) sx_eq(z[d],y[p][b][d],"point moved by one bone"); }
  for(int p=0;p<np;p++) for(int d=0;d<3;d++){ double s=0; for(int b=0;b<n;b++) s+=W[p*n+b]*y[p][b][d]; sx_eq(X1[3*p+d],s,"weighted sum of the bone images"); }
  // sparse weights, two slots per point
  int s0[4]={0,2,1,1}; if(sx_choose("slots",2)){ s0[0]=1; s0[1]=0; s0[2]=2; s0[3]=0; } VD ws(4); VU ids(4); for(int k=0;k<4;k++){ ids[k]=s0[k]; ws[k]=W[k]; } VD X2; dfm2::SkinningSparse_LBS(X2,X0,B,ws,ids); for(int p=0;p<np;p++) for(int d=0;d<3;d++){ double s=0; for(int k=0;k<2;k++) s+=ws[2*p+k]*y[p][s0[2*p+k]][d]; sx_eq(X2[3*p+d],s,"sparse weighted sum"); }
  // four local weights, normalised; zero weights ignored
  VD lw(8,0.); VU lj(8,0); lw[0]=W[0]; lj[0]=2; lw[2]=W[1]; lj[2]=0; lj[1]=77; lw[5]=W[2]; lj[5]=1; lw[7]=W[3]; lj[7]=2; lj[4]=99; double X3[6]; dfm2::Skinning_LBS_LocalWeight(X3,X0.data(),np,B,lw.data(),lj.data()); for(int d=0;d<3;d++){ sx_eq(X3[d],(W[0]*y[0][2][d]+W[1]*y[0][0][d])/(W[0]+W[1]),"local weights normalised"); sx_eq(X3[3+d],(W[2]*y[1][1][d]+W[3]*y[1][2][d])/(W[2]+W[3]),"local weights normalised"); }
  VD ref; dfm2::Rig_SkinReferncePositionsBoneWeighted(ref,B,X0,W); sx_check((int)ref.size()==np*n*4,"size"); for(int p=0;p<np;p++) for(int d=0;d<3;d++){ double s=0; for(int b=0;b<n;b++) for(int k=0;k<4;k++) s+=ref[p*n*4+b*4+k]*B[b].affmat3Global[4*d+k]; sx_eq(s,X1[3*p+d],"weighted reference positions reproduce the skinning"); } }
// rigid motion of the root moves the skin rigidly
SX_ENTRY(rigid){ optl(); const int n=3; int par[3]; tree(par,n); auto B=skeleton(n,par,false); double q[4],t[3]; unitq(q,0); all(t,3,"t"); double o[3]; for(int d=0;d<3;d++) o[d]=-B[0].invBindMat[4*d+3]; for(int k=0;k<4;k++) B[0].quatRelativeRot[k]=q[k]; B[0].SetTranslation(t[0],t[1],t[2]); dfm2::UpdateBoneRotTrans(B); VD X0(3),W{0.5,0.125,0.375},X1; all(X0.data(),3,"x"); dfm2::Skinning_LBS(X1,X0,B,W); double R[9],d[3]={X0[0]-o[0],X0[1]-o[1],X0[2]-o[2]}; rotm(R,q); mv(d,R,d); for(int k=0;k<3;k++) sx_eq(X1[k],d[k]+t[k],"rigid root motion moves the skin rigidly"); }
SX_ENTRY(as_default){ optl(); const int n=4; int par[4]; tree(par,n); auto B=skeleton(n,par,false); int sy=sx_choose("free",n); for(int i=0;i<n;i++){ if(i==sy) unitq(B[i].quatRelativeRot,0); else for(int k=0;k<4;k++) B[i].quatRelativeRot[k]=QC[1+i][k]; } dfm2::UpdateBoneRotTrans(B); double x[3],y[4][3],jp[4][3]; all(x,3,"x"); for(int i=0;i<n;i++){ B[i].DeformSkin(y[i],x); auto r=B[i].RootPosition(); for(int d=0;d<3;d++) jp[i][d]=r[d]; } dfm2::SetCurrentBoneRotationAsDefault(B); for(int i=0;i<n;i++){ double z[3]; B[i].DeformSkin(z,x); auto r=B[i].RootPosition(); for(int d=0;d<3;d++){ sx_eq(z[d],y[i][d],"shape unchanged by making the pose the default"); sx_eq(r[d],jp[i][d],"joints unchanged by making the pose the default"); sx_check(B[i].quatRelativeRot[d]==0,"rotations reset"); } sx_check(B[i].quatRelativeRot[3]==1,"rotations reset"); } }
SX_ENTRY(joint_relative){ optl(); const int n=4; int par[4]; tree(par,n); VD Q(4*n),J(3*n),M(16*n,7.); int sy=sx_choose("free",n); for(int i=0;i<n;i++){ if(i==sy) unitq(&Q[4*i],0); else for(int k=0;k<4;k++) Q[4*i+k]=QC[1+i][k]; for(int d=0;d<3;d++) J[3*i+d]=sx_real_in(NM("j",3*i+d),-2,2); } double t[3],x[3]; all(t,3,"t"); all(x,3,"x"); std::vector<int> P(par,par+n); dfm2::SetMat4AffineBone_FromJointRelativeRotation(M,t,Q,P,J); for(int i=0;i<n;i++){ double a[3],o[3]={x[0],x[1],x[2]}; app(a,&M[16*i],x); int b=i; while(b>0){ double R[9]; rotm(R,&Q[4*b]); for(int d=0;d<3;d++) o[d]-=J[3*b+d]; mv(o,R,o); for(int d=0;d<3;d++) o[d]+=J[3*b+d]; b=par[b]; } double R[9]; rotm(R,&Q[0]); mv(o,R,o); for(int d=0;d<3;d++) sx_eq(a[d],o[d]+t[d],"each joint turns about its own position, then its ancestors'"); } }
SX_ENTRY(bryant){ optl(); dfm2::CRigBone b; double r[3]; all(r,3,"r",-3,3); b.SetRotationBryant(r[0],r[1],r[2]); double R[9]; rotm(R,b.quatRelativeRot); double x[3]={0,0,0},y[3]; x[sx_choose("axis",3)]=1; mv(y,R,x); double c[3],s[3]; for(int i=0;i<3;i++){ c[i]=2*cos(r[i]*0.5)*cos(r[i]*0.5)-1; s[i]=2*cos(r[i]*0.5)*sin(r[i]*0.5); } double z[3]={x[0],c[0]*x[1]-s[0]*x[2],s[0]*x[1]+c[0]*x[2]}; double w[3]={c[1]*z[0]+s[1]*z[2],z[1],-s[1]*z[0]+c[1]*z[2]}; double v[3]={c[2]*w[0]-s[2]*w[1],s[2]*w[0]+c[2]*w[1],w[2]}; for(int i=0;i<3;i++) sx_eq(y[i],v[i],"rotation about x, then y, then z"); }
// ------------------------------------------------------------------ weight matrices
SX_ENTRY(weights){ opt(); const int nr=2,nc=3; double A[6]; static const double V[3]={0,0.25,0.5}; for(int i=0;i<6;i++) A[i]=V[sx_choose(NM("a",i),3)]; int free=sx_choose("free",6); A[free]=sx_real_in("f",0.05,1); sx_assume((A[free]<0.0999)|(A[free]>0.1001)); VD W; VU I; if(sx_choose("used",2)){ W.assign(6,9.); I.assign(6,2); } dfm2::SparsifyMatrixRow(W,I,A,nr,nc,0.1); sx_check(W.size()==I.size()&&W.size()%nr==0,"sizes"); int m=(int)W.size()/nr; for(int r=0;r<nr;r++){ double s[3]={0,0,0}; int cnt=0; for(int k=0;k<m;k++){ sx_check(I[r*m+k]<(U)nc,"column in range"); if(I[r*m+k]<(U)nc) s[I[r*m+k]]+=W[r*m+k]; } for(int c=0;c<nc;c++){ bool big=sx_fork(A[r*nc+c]>=0.1); if(big) cnt++; sx_eq(s[c],big?A[r*nc+c]:0.,"sparse row holds exactly the entries above the threshold"); } sx_check(cnt<=m,"enough slots"); } }
SX_ENTRY(transpose){ optl(); const int nr=2,nc=3; VD A(6),At; all(A.data(),6,"a"); dfm2::Transpose_Mat(At,A,nr,nc); for(int i=0;i<nr;i++) for(int j=0;j<nc;j++) sx_check(At[j*nr+i]==A[i*nc+j],"transpose"); VD X(9),P; all(X.data(),9,"x"); VD W(6); all(W.data(),6,"w"); dfm2::Points3_WeighttranspPosition(P,W,X); sx_check(P.size()==6,"size"); for(int b=0;b<2;b++) for(int d=0;d<3;d++) sx_eq(P[3*b+d],W[b]*X[d]+W[2+b]*X[3+d]+W[4+b]*X[6+d],"weighted positions"); VU id{2,0,1,1}; VD w{W[0],W[1],W[2],W[3]}; dfm2::Points3_WeightsparsePosition(P,2,w,id,X); for(int b=0;b<2;b++) for(int d=0;d<3;d++) sx_eq(P[3*b+d],w[2*b]*X[3*id[2*b]+d]+w[2*b+1]*X[3*id[2*b+1]+d],"sparse weighted positions"); }
// ------------------------------------------------------------------ sensitivities
SX_ENTRY(sensitivity){ optl(); const int n=3; int par[3]; tree(par,n); std::vector<dfm2::CRigBone> B(n); for(int i=0;i<n;i++){ B[i].ibone_parent=par[i]; for(int k=0;k<4;k++) B[i].quatRelativeRot[k]=QC[1+i][k]; B[i].scale=1+0.5*i; for(int d=0;d<3;d++) B[i].transRelative[d]=sx_real_in(NM("t",3*i+d),-2,2); } unitq(B[sx_choose("free",n)].quatRelativeRot,0); dfm2::UpdateBoneRotTrans(B); VD L; dfm2::Rig_Sensitivity_Skeleton(L,B); const int ns=3*n+3; sx_check((int)L.size()==ns*n*12,"size"); if((int)L.size()!=ns*n*12) return; double e=sx_real_in("eps",-1,1);
  int k=sx_choose("dof",ns); auto C=B; if(k<3*n){ double dq[4]={0,0,0,cos(e*0.5)},z[4]; dq[k%3]=sin(e*0.5); dfm2::QuatQuat(z,dq,B[k/3].quatRelativeRot); for(int i=0;i<4;i++) C[k/3].quatRelativeRot[i]=z[i]; } else C[0].transRelative[k-3*n]+=e; dfm2::UpdateBoneRotTrans(C);
  for(int b=0;b<n;b++) for(int i=0;i<12;i++){ double d=sx_d(C[b].affmat3Global[i],e); double g=sx_at(d,e,0); sx_eq(L[k*n*12+b*12+i],g,"sensitivity is the derivative of the bone matrix"); } }
SX_ENTRY(skin_sensitivity){ optl(); const int n=3; int par[3]; tree(par,n); auto B=skeleton(n,par,false); for(int i=0;i<n;i++) for(int k=0;k<4;k++) B[i].quatRelativeRot[k]=QC[1+i][k]; dfm2::UpdateBoneRotTrans(B); VD L; dfm2::Rig_Sensitivity_Skeleton(L,B); double x[3]; all(x,3,"x"); VD W{0.5,0.5,0.25,0.75}; VU I{0,2,1,2}; VD dP; dfm2::Sensitivity_RigSkinPoint(dP,1,x,B,L,2,W,I); const int ns=3*n+3; sx_check((int)dP.size()==3*ns,"size"); int k=sx_choose("dof",ns); double e=sx_real_in("eps",-1,1); auto C=B; if(k<3*n){ double dq[4]={0,0,0,cos(e*0.5)},z[4]; dq[k%3]=sin(e*0.5); dfm2::QuatQuat(z,dq,B[k/3].quatRelativeRot); for(int i=0;i<4;i++) C[k/3].quatRelativeRot[i]=z[i]; } else C[0].transRelative[k-3*n]+=e; dfm2::UpdateBoneRotTrans(C); VD X{0,0,0,x[0],x[1],x[2]},Y; dfm2::SkinningSparse_LBS(Y,X,C,W,I); for(int i=0;i<3;i++){ double d=sx_d(Y[3+i],e); double g=sx_at(d,e,0); sx_eq(dP[i*ns+k],g,"sensitivity of a skin point"); }
  dfm2::CTarget t; t.ib=sx_choose("bone",n); t.pos=dfm2::CVec3d(x); VD w,dw; dfm2::Rig_WdW_Target(w,dw,B,t,L); sx_check(w.size()==2&&(int)dw.size()==2*ns,"size"); auto r=B[t.ib].RootPosition(); for(int i=0;i<2;i++){ sx_eq(w[i],x[i]-r[i],"residual of the target"); double d=sx_d(C[t.ib].affmat3Global[4*i+3],e); double g=sx_at(d,e,0); sx_eq(dw[i*ns+k],-g,"derivative of the residual"); } }
// ------------------------------------------------------------------ BioVision files
static const char* CH[6]={"Xposition","Yposition","Zposition","Xrotation","Yrotation","Zrotation"};
static double OFS[5][3]={{0,0,0},{1,-2,0.5},{0.25,3,0},{-1.5,0,2},{2,2,-1}};
struct Spec { int n; int par[5]; int nch[5]; int ch[5][6]; bool end[5]; };
static int order(const Spec&s,int b,int*out,int k){ out[k++]=b; for(int c=b+1;c<s.n;c++) if(s.par[c]==b) k=order(s,c,out,k); return k; }
static void put(std::ofstream&f,const Spec&s,int b,int depth,const char*nl){ auto ind=[&](int d){ for(int i=0;i<d;i++) f << "\t"; }; ind(depth); if(b==0) f << "ROOT b0" << nl; else if(s.end[b]) f << "End Site" << nl; else f << "JOINT b" << b << nl; ind(depth); f << "{" << nl; ind(depth+1); f << "OFFSET " << OFS[b][0] << " " << OFS[b][1] << " " << OFS[b][2] << nl; if(!s.end[b]){ ind(depth+1); f << "CHANNELS " << s.nch[b]; for(int i=0;i<s.nch[b];i++) f << " " << CH[s.ch[b][i]]; f << nl; } for(int c=b+1;c<s.n;c++) if(s.par[c]==b) put(f,s,c,depth+1,nl); ind(depth); f << "}" << nl; }
static Spec spec(){ Spec s; s.n=4; s.par[0]=-1; static const int PAR[6][3]={{0,1,2},{0,0,0},{0,1,0},{0,0,1},{0,0,2},{0,1,1}}; int k=sx_choose("tree",6); for(int i=0;i<3;i++) s.par[i+1]=PAR[k][i]; for(int b=0;b<4;b++){ bool leaf=true; for(int c=0;c<4;c++) if(s.par[c]==b) leaf=false; s.end[b]=leaf; } int o=sx_choose("order",3); static const int RO[3][3]={{5,3,4},{3,4,5},{4,5,3}}; for(int b=0;b<4;b++){ s.nch[b]=b==0?6:3; for(int i=0;i<6;i++) s.ch[b][i]=b==0?(i<3?(i+o)%3:RO[o][i-3]):RO[(o+b)%3][i%3]; } return s; }
static void pose(const Spec&s,const int*ord,const std::vector<dfm2::CRigBone>&B,const double*val,const double*tr,const char*lab){ // reference chain by channels; tr: translation of the root
  int at[5],k=0; for(int i=0;i<s.n;i++){ int b=ord[i]; at[b]=k; if(!s.end[b]) k+=s.nch[b]; } double x[3]={0.5,-1,0.25};
  for(int i=0;i<s.n;i++){ int b=ord[i]; double o[3]={x[0],x[1],x[2]}; int c=b; while(c>=0){ if(!s.end[c]) for(int j=s.nch[c]-1;j>=0;j--){ int t=s.ch[c][j]; if(t<3) continue; double a=val[at[c]+j]*M_PI/180.0,h=a*0.5,ca=2*cos(h)*cos(h)-1,sa=2*sin(h)*cos(h); int u=(t-3+1)%3,v=(t-3+2)%3; double p=ca*o[u]-sa*o[v],q=sa*o[u]+ca*o[v]; o[u]=p; o[v]=q; } for(int d=0;d<3;d++) o[d]+=c==0?tr[d]:OFS[c][d]; c=s.par[c]; } double y[3]; app(y,B[i].affmat3Global,x); for(int d=0;d<3;d++) sx_eq(y[d],o[d],lab); } }
static void expect(const Spec&s,const int*ord,const dfm2::BioVisionHierarchy&h){ sx_check((int)h.bones.size()==s.n,"bone count"); if((int)h.bones.size()!=s.n) return; int nc=0; for(int i=0;i<s.n;i++){ int b=ord[i]; char nm[3]={'b',(char)('0'+b),0}; sx_check(h.bones[i].name==(s.end[b]?"Site":nm),"bone name"); int p=-1; for(int j=0;j<s.n;j++) if(ord[j]==s.par[b]) p=j; sx_check(h.bones[i].ibone_parent==p,"parent of the bone"); double o[3]={0,0,0}; for(int c=b;c>=0;c=s.par[c]) for(int d=0;d<3;d++) o[d]+=OFS[c][d]; auto r=h.bones[i].RootPosition(); for(int d=0;d<3;d++){ sx_eq(r[d],o[d],"rest position is the sum of offsets"); if(b) sx_eq(h.bones[i].transRelative[d],OFS[b][d],"offset from the parent"); } if(!s.end[b]) for(int j=0;j<s.nch[b];j++,nc++){ sx_check(nc<(int)h.channels.size(),"channel present"); if(nc<(int)h.channels.size()){ auto&c=h.channels[nc]; sx_check((int)c.ibone==i&&c.iaxis==s.ch[b][j]%3&&c.isrot==(s.ch[b][j]>=3),"channel"); } } } sx_check((int)h.channels.size()==nc,"channel count"); }
static void bvh(const char*nl,int blanks){ opt(); sxio::dec()=1; Spec s=spec(); int ord[5]; order(s,0,ord,0); int nc=0; for(int b=0;b<s.n;b++) if(!s.end[b]) nc+=s.nch[b]; const int nf=2; double v[2][24]; for(int f=0;f<nf;f++) for(int c=0;c<nc;c++) v[f][c]=((c*7+f*11)%13-6)*0.5+f; { std::ofstream f("m.bvh"); f << "HIERARCHY" << nl; if(blanks) f << nl; put(f,s,0,0,nl); if(blanks) f << "  " << nl; f << "MOTION" << nl << "Frames: " << nf << nl << "Frame Time: " << 0.025 << nl; for(int k=0;k<nf;k++){ for(int c=0;c<nc;c++) f << v[k][c] << " "; f << nl; } f.close(); }
  dfm2::BioVisionHierarchy h("m.bvh"); sx_check(h.nframe==nf,"frame count"); sx_eq(h.frame_time,0.025,"frame time"); sx_check((int)h.frame_channel.size()==nf*nc,"motion size"); if((int)h.frame_channel.size()!=nf*nc) return; for(int k=0;k<nf;k++) for(int c=0;c<nc;c++) sx_eq(h.frame_channel[k*nc+c],v[k][c],"motion value"); expect(s,ord,h);
  h.Save("n.bvh"); dfm2::BioVisionHierarchy g; g.Open("n.bvh"); sx_check(g.nframe==nf,"frame count after saving"); sx_eq(g.frame_time,0.025,"frame time after saving"); expect(s,ord,g); sx_check(g.frame_channel.size()==h.frame_channel.size(),"motion after saving"); for(size_t i=0;i<g.frame_channel.size()&&i<h.frame_channel.size(); i++) sx_eq(g.frame_channel[i],h.frame_channel[i],"motion after saving"); }
SX_ENTRY(bvh_file){ bvh("\n",0); }
SX_ENTRY(bvh_crlf){ bvh("\r\n",0); }
SX_ENTRY(bvh_blank){ bvh("\n",1); }
SX_ENTRY(bvh_pose){ opt(); sxio::dec()=1; Spec s=spec(); int ord[5]; order(s,0,ord,0); int nc=0; for(int b=0;b<s.n;b++) if(!s.end[b]) nc+=s.nch[b]; { std::ofstream f("m.bvh"); f << "HIERARCHY\n"; put(f,s,0,0,"\n"); f << "MOTION\nFrames: 0\nFrame Time: 0.025\n"; f.close(); } dfm2::BioVisionHierarchy h("m.bvh"); sx_check((int)h.channels.size()==nc&&(int)h.bones.size()==s.n,"sizes"); if((int)h.channels.size()!=nc||(int)h.bones.size()!=s.n) return; double v[24]; for(int c=0;c<nc;c++) v[c]=0; std::vector<int> rc; double tr[3]={0,0,0}; bool box=sx_choose("box",2); int at=0; for(int i=0;i<s.n;i++){ int b=ord[i]; if(s.end[b]) continue; for(int j=0;j<s.nch[b];j++){ int t=s.ch[b][j]; if(t<3){ v[at+j]=box?t*0.75-1:sx_real_in(NM("p",t),-3,3); tr[t]=v[at+j]; } else rc.push_back(at+j); } at+=s.nch[b]; } if(!box){ int c0=sx_choose("c0",(int)rc.size()-1), c1=c0+1+sx_choose("c1",T?(int)rc.size()-1-c0:std::min(3,(int)rc.size()-1-c0)); v[rc[c0]]=sx_real_in("a0",-170,170); v[rc[c1]]=sx_real_in("a1",-170,170); }
  dfm2::SetPose_BioVisionHierarchy(h.bones,h.channels,v); pose(s,ord,h.bones,v,tr,"posed bone follows its channels in order"); auto bb=box?h.MinMaxXYZ():std::vector<double>(6); sx_check(bb.size()==6,"size"); for(int i=0;i<(box?s.n:0);i++){ auto r=h.bones[i].RootPosition(); for(int d=0;d<3;d++){ sx_le(bb[d],r[d],"bounding box"); sx_le(r[d],bb[3+d],"bounding box"); } }
  dfm2::SetPose_BioVisionHierarchy(h.bones,h.channels,v); pose(s,ord,h.bones,v,tr,"setting the pose twice is the same"); double z[3]={0,0,0}; VD zero(24,0.); h.ClearPose(); pose(s,ord,h.bones,zero.data(),z,"cleared pose is the rest pose"); }
SX_ENTRY(bvh_missing){ opt(); dfm2::BioVisionHierarchy h; h.Open("nothing"); sx_check(h.bones.empty()&&h.channels.empty()&&h.nframe==0,"missing file leaves nothing"); }
