// C33: cameras, camera files, screen-space derivative, gizmos
#include "sx.h"
#include "memstream.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstring>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/cam_projection.h"
#include "delfem2/cam_modelview.h"
#include "delfem2/cvcamera.h"
#include "delfem2/metashape_camera.h"
#include "delfem2/gizmo_geo3.h"
namespace dfm2=delfem2; static const int T=SX_TIER;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",4); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",1); sx_opt("float_sqrt",1); }
static void all(double*c,int n,const char*nm,double lo=-4,double hi=4){ for(int i=0;i<n;i++) c[i]=sx_real_in(NM(nm,i),lo,hi); }
template<class A> static void hom(double*y,const A&m,const double*x){ double w=0; for(int i=0;i<3;i++){ y[i]=m[4*i+3]; for(int j=0;j<3;j++) y[i]+=m[4*i+j]*x[j]; } w=m[15]; for(int j=0;j<3;j++) w+=m[12+j]*x[j]; for(int i=0;i<3;i++) y[i]/=w; }
// ------------------------------------------------------------------ projection from +Z
SX_ENTRY(ortho){ optl(); double h=sx_real_in("h",0.25,4),asp=sx_real_in("asp",0.25,4),fov=sx_real_in("fov",5,90); sx_assume(std::tan(((float)fov*(2.f*(float)M_PI)/360.f)*0.5f)>0.01); dfm2::Projection_LookOriginFromZplus c((float)h,false,(float)fov); auto m=((const dfm2::Projection&)c).GetMatrix((float)asp); double y[3];
  for(int s=-1;s<2;s++) for(int r=-1;r<2;r++){ double x[3]={s*h*asp,r*h,0}; hom(y,m,x); sx_eq(y[0],s,"horizontal extent is height times aspect"); sx_eq(y[1],r,"vertical extent is the view height"); sx_eq(y[2],0,"origin plane in the middle of the depth range"); }
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(i!=j) sx_check(m[4*i+j]==0,"axes stay parallel"); sx_check(m[12]==0&&m[13]==0&&m[14]==0,"no perspective division"); sx_lt(0,m[10]*m[15],"nearer to the eye is larger depth"); }
SX_ENTRY(perspective){ optl(); double h=sx_real_in("h",0.25,4),asp=sx_real_in("asp",0.25,4),fov=sx_real_in("fov",5,90); dfm2::Projection_LookOriginFromZplus c((float)h,true,(float)fov); auto m=c.GetMatrix((float)asp); double y[3];
  double t=std::tan(((float)fov*(2.f*(float)M_PI)/360.f)*0.5f); sx_assume(t>0.01); double depth=h/t;
  for(int s=-1;s<2;s++) for(int r=-1;r<2;r++){ double x[3]={s*h*asp,r*h,0}; hom(y,m,x); sx_eq(y[0],s,"horizontal extent at the origin"); sx_eq(y[1],r,"vertical extent at the origin"); }
  for(int k=0;k<2;k++){ double z=k?depth-depth*0.01:depth-depth*2; for(int s=-1;s<2;s+=2) for(int r=-1;r<2;r+=2){ double q=(depth-z)*t; double x[3]={s*q*asp,r*q,z}; hom(y,m,x); sx_eq(y[0],s,"side planes"); sx_eq(y[1],r,"top and bottom planes"); sx_eq(y[2],k?1.:-1.,"near and far planes"); } } }
// ------------------------------------------------------------------ trackball
static void unitq(double*q,const char*n){ double a[3]; all(a,3,n,-1,1); double s=a[0]*a[0]+a[1]*a[1]+a[2]*a[2]; for(int i=0;i<3;i++) q[i]=2*a[i]/(1+s); q[3]=(1-s)/(1+s); }
SX_ENTRY(trackball){ optl(); dfm2::ModelView_Trackball v; double q[4],x[3],a[3]; unitq(q,"q"); all(x,3,"x"); all(a,3,"a"); for(int i=0;i<4;i++) v.quaternion[i]=(float)q[i]; for(int i=0;i<3;i++) v.anchor[i]=(float)a[i]; auto m=((const dfm2::ModelView&)v).GetMatrix(); double y[3]; for(int i=0;i<3;i++){ y[i]=m[4*i]*a[0]+m[4*i+1]*a[1]+m[4*i+2]*a[2]+m[4*i+3]; sx_eq(y[i],0,"anchor is the centre of rotation"); }
  double R[9]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) R[3*i+j]=m[4*i+j]; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double d=0; for(int k=0;k<3;k++) d+=R[3*i+k]*R[3*j+k]; sx_eq(d,i==j?1.:0.,"rotation part orthonormal"); } sx_check(m[12]==0&&m[13]==0&&m[14]==0&&m[15]==1,"affine");
  double d[3]={x[0]-a[0],x[1]-a[1],x[2]-a[2]}, z[3]; double q2[4]={q[0],q[1],q[2],q[3]}; dfm2::QuatVec(z,q2,d); for(int i=0;i<3;i++) sx_eq(m[4*i]*x[0]+m[4*i+1]*x[1]+m[4*i+2]*x[2]+m[4*i+3],z[i],"rotation about the anchor"); }
SX_ENTRY(trackball_drag){ opt(); sx_opt("sqrt_square",1); static const double D[6][3]={{3,4,5},{-3,4,5},{1,0,1},{0,-1,1},{-5,-12,13},{0,0,1}}; int k=sx_choose("dir",6); double s=k==5?0:sx_real_in("s",0.125,3); dfm2::ModelView_Trackball v; double q[4]={0,0,0,1}; if(sx_choose("start",2)){ q[0]=0.5; q[1]=-0.5; q[2]=0.5; q[3]=0.5; } for(int i=0;i<4;i++) v.quaternion[i]=(float)q[i];
  if(sx_choose("fixed",2)==1&&k!=5) s=0.75;
  double dx=D[k][0]/D[k][2]*s,dy=D[k][1]/D[k][2]*s; ((dfm2::ModelView&)v).Rot_Camera((float)dx,(float)dy); double n=0; for(int i=0;i<4;i++) n+=v.quaternion[i]*(double)v.quaternion[i]; sx_eq(n,1,"quaternion stays unit");
  if(k==5){ for(int i=0;i<4;i++) sx_eq(v.quaternion[i],q[i],"no drag, no rotation"); return; }
  double ux=-D[k][1]/D[k][2],uy=D[k][0]/D[k][2],c=cos(s*0.5),w=sin(s*0.5); double e[4]; /* (u w, c) * q */ double p[4]={ux*w,uy*w,0,c};
  e[0]=p[3]*q[0]+p[0]*q[3]+p[1]*q[2]-p[2]*q[1]; e[1]=p[3]*q[1]-p[0]*q[2]+p[1]*q[3]+p[2]*q[0]; e[2]=p[3]*q[2]+p[0]*q[1]-p[1]*q[0]+p[2]*q[3]; e[3]=p[3]*q[3]-p[0]*q[0]-p[1]*q[1]-p[2]*q[2]; for(int i=0;i<4;i++) sx_eq(v.quaternion[i],e[i],"rotation about the screen axis perpendicular to the drag, by its length, after the former rotation"); }
// ------------------------------------------------------------------ orbit cameras
template<class V> static void orbit(int up){ opt(); sx_opt("sqrt_square",1); V v; double th=sx_real_in("th",-3,3),ps=sx_real_in("ps",-1.25,1.25); sx_assume(cos(ps)>0.1); v.theta=(float)th; v.psi=(float)ps; auto m=v.GetMatrix(); double o[3]={m[3],m[7],m[11]}; sx_eq(o[0],0,"origin on the axis"); sx_eq(o[1],0,"origin on the axis"); sx_eq(o[2],-1,"origin at unit distance in front");
  for(int i=0;i<3;i++) for(int j=0;j<=i;j++){ double d=0; for(int q=0;q<3;q++) d+=m[4*i+q]*m[4*j+q]; sx_eq(d,i==j?1.:0.,"rotation part orthonormal"); }
  sx_eq(m[up],0,"up axis has no sideways component"); sx_eq(m[4+up],cos(ps),"up axis points up by the cosine of the elevation"); sx_eq(m[8+up],sin(ps),"elevation"); int a=up==1?0:0,b=up==1?2:1; sx_eq(m[8+a],sin(th)*cos(ps),"azimuth"); sx_eq(m[8+b],cos(th)*cos(ps),"azimuth"); sx_check(m[12]==0&&m[13]==0&&m[14]==0&&m[15]==1,"affine");
  v.theta=0.5f; v.psi=0.25f; v.Rot_Camera(0.25f,0.125f); sx_eq(v.psi,0.125,"drag changes the elevation"); sx_eq(std::fabs(v.theta-0.5),0.25,"drag changes the azimuth"); }
SX_ENTRY(ytop){ orbit<dfm2::ModelView_Ytop>(1); }
SX_ENTRY(ztop){ orbit<dfm2::ModelView_Ztop>(2); }
// ------------------------------------------------------------------ calibrated cameras
SX_ENTRY(interior){ optl(); double sw=sx_real_in("sw",0.5,8),f=sx_real_in("f",0.5,8); unsigned w=4+2*sx_choose("w",3),h=3+sx_choose("h",3); float K[9]; dfm2::SetCameraInteriorMat(K,w,h,(float)sw,(float)f); double x[3]; all(x,3,"x"); sx_assume(x[2]<-0.1); double p[3]; for(int i=0;i<3;i++) p[i]=K[3*i]*x[0]+K[3*i+1]*x[1]+K[3*i+2]*x[2]; double fp=f*w/sw; sx_eq(p[0]/p[2],w*0.5+fp*x[0]/-x[2],"pixel column"); sx_eq(p[1]/p[2],h*0.5-fp*x[1]/-x[2],"pixel row, downwards"); }
SX_ENTRY(calibration){ optl(); sx_opt("native_tol_e",5); double x[3]; all(x,3,"x"); sx_assume(x[2]>0.1); double c[2],f=sx_real_in("f",0.5,8),k[5]; all(k,5,"k",-1,1); all(c,2,"c"); double uv[2]; dfm2::ProjectionCameraWithCalibration<double>(uv,x,c[0],c[1],f,k[0],k[1],k[2],k[3],k[4],6,4); double a=x[0]/x[2],b=x[1]/x[2],r=a*a+b*b; double d=1+k[0]*r+k[1]*r*r+k[2]*r*r*r; sx_eq(uv[0],3+c[0]+f*(a*d+k[3]*(r+2*a*a)+2*k[4]*a*b),"distorted pixel column"); sx_eq(uv[1],2+c[1]+f*(b*d+k[4]*(r+2*b*b)+2*k[3]*a*b),"distorted pixel row");
  dfm2::ProjectionCameraWithCalibration<double>(uv,x,c[0],c[1],f,0,0,0,0,0,6,4); auto P=dfm2::Mat4_CameraInternal_MetashapePinhole((float)f,(float)c[0],(float)c[1],6,4); double y[3]; hom(y,P,x); sx_eq(y[0],uv[0],"pinhole matrix is the undistorted camera"); sx_eq(y[1],uv[1],"pinhole matrix is the undistorted camera"); sx_eq(y[2],1/x[2],"reciprocal depth");
  auto S=dfm2::Mat4_Image2Screen(6,4,(float)f); double e[3]={0,0,1}; hom(y,S,e); sx_eq(y[0],-1,"left of the image"); sx_eq(y[1],1,"top of the image"); sx_eq(y[2],f,"depth scale"); double g[3]={6,4,0}; hom(y,S,g); sx_eq(y[0],1,"right of the image"); sx_eq(y[1],-1,"bottom of the image"); }
SX_ENTRY(screen_derivative){ optl(); sx_opt("native_tol_e",6); double m[16],p[3]; for(int i=0;i<16;i++) m[i]=(i*7%5)-2+(i%3)*0.5; int k=sx_choose("row",3); static const int R[3]={0,4,12}; for(int i=0;i<4;i++) m[R[k]+i]=sx_real_in(NM("m",i),-2,2); for(int i=0;i<3;i++) p[i]=sx_real(NM("p",i)); double c[2],dc[2][3]; double w=m[12]*p[0]+m[13]*p[1]+m[14]*p[2]+m[15]; sx_assume((w>0.1)|(w<-0.1)); dfm2::CdC_ScreenCoordinate<dfm2::CVec3d,double>(c,dc,m,p); double y[3]; hom(y,m,p); for(int i=0;i<2;i++){ sx_eq(c[i],y[i],"screen coordinate"); for(int j=0;j<3;j++){ double d=sx_d(y[i],p[j]); sx_eq(dc[i][j],d,"derivative of the screen coordinate"); } } }
SX_ENTRY(read_camera){ opt(); sx_opt("max_steps",4000000); int n=sx_choose("n",3); double v[2][21]; std::ofstream fo("cam"); fo << n << "\n"; for(int i=0;i<n;i++){ fo << i << " " << (i?"camera_b":"a") << "\n"; for(int j=0;j<21;j++){ v[i][j]=sx_real_in(NM(i?"w":"v",j),-4,4); fo << v[i][j] << (j%3==2?"\n":" "); } } fo.close(); std::vector<dfm2::CCvCamera> a; a.resize(1); sx_check(dfm2::ReadCamera(a,"cam"),"file read"); sx_check((int)a.size()==n,"camera count"); for(int i=0;i<n;i++){ sx_check(!strcmp(a[i].name,i?"camera_b":"a"),"camera name"); for(int j=0;j<9;j++){ sx_eq(a[i].K[j],v[i][j],"interior matrix"); sx_eq(a[i].R[j],v[i][12+j],"rotation"); } for(int j=0;j<3;j++) sx_eq(a[i].t[j],v[i][9+j],"translation"); } sx_check(!dfm2::ReadCamera(a,"nothing"),"missing file reported"); }
static const double ROT[5][9]={{1,0,0,0,1,0,0,0,1},{0.6,0,0.8,0,1,0,-0.8,0,0.6},{1,0,0,0,-0.6,-0.8,0,0.8,-0.6},{0,-1,0,1,0,0,0,0,1},{2/3.,-1/3.,2/3.,2/3.,2/3.,-1/3.,-1/3.,2/3.,2/3.}};
SX_ENTRY(metashape){ opt(); dfm2::MetashapeCamConfig g; g.aSensor.resize(2); for(int i=0;i<2;i++){ auto&s=g.aSensor[i]; s.f=(float)(i?sx_real_in("f",0.5,8):1.); s.cx=0.25f; s.cy=-0.5f; s.width=8; s.height=4; } g.aCamera.resize(2); int r=sx_choose("rot",5); double t[3],x[3]; all(t,3,"t"); for(int i=0;i<3;i++) x[i]=i-1+(i==sx_choose("ax",3)?0.:0.5); x[0]=sx_real_in("x",-4,4); for(int i=0;i<3;i++){ for(int j=0;j<3;j++) g.aCamera[1].transform(i,j)=(float)ROT[r][3*i+j]; g.aCamera[1].transform(i,3)=(float)t[i]; } g.aCamera[1].id_sensor=1; g.aCamera[0].id_sensor=0;
  auto mm=dfm2::CameraTransformationMVP(g,1); dfm2::CMat4f P=mm.second*mm.first; double c[3]; for(int i=0;i<3;i++){ c[i]=0; for(int j=0;j<3;j++) c[i]+=ROT[r][3*j+i]*(x[j]-t[j]); } sx_assume(c[2]>0.25); double f=g.aSensor[1].f,y[3]; hom(y,P.mat,x); double px=f*c[0]/c[2]+0.25+4,py=f*c[1]/c[2]-0.5+2; sx_eq(y[0],px/8*2-1,"screen column of the camera image"); sx_eq(y[1],1-py/4*2,"screen row of the camera image"); double e[3]; hom(e,mm.first.mat,x); sx_eq(e[0],c[0],"camera coordinates"); sx_eq(e[1],-c[1],"y flipped"); sx_eq(e[2],-c[2],"looking down -z"); }
// nearest camera direction: azimuth differences wrap around
SX_ENTRY(snap){ opt(); sx_opt("ieee",1); static const double AZ[6]={3.0,-3.0,0.25,1.5,-1.25,-0.25}; dfm2::MetashapeCamConfig g; g.aSensor.resize(1); g.aSensor[0].f=1; g.aSensor[0].cx=g.aSensor[0].cy=0; g.aSensor[0].width=g.aSensor[0].height=4; auto set=[](dfm2::CMat4f&m,double a){ m.SetIdentity(); m(0,0)=(float)cos(a); m(0,2)=(float)sin(a); m(2,0)=-(float)sin(a); m(2,2)=(float)cos(a); };
  int n=2; g.aCamera.resize(n+1); double az[2]; for(int i=0;i<n;i++){ az[i]=AZ[sx_choose(NM("c",i),6)]; dfm2::CMat4f M; set(M,az[i]); g.aCamera[i].transform=M; g.aCamera[i].id_sensor=0; } dfm2::CMat4f M; set(M,0.5); g.aCamera[n].transform=M; g.aCamera[n].id_sensor=sx_choose("inactive",2)?-1:5; double q=AZ[sx_choose("q",6)]+0.0625;
  // model view whose eye direction has azimuth q: rotation transposed, flipped as the cameras are
  dfm2::CMat4f Z(1,0,0,0,0,-1,0,0,0,0,-1,0,0,0,0,1),Q; set(Q,q); dfm2::CMat4f mv=Z*Q.Inverse(); unsigned k=dfm2::SnapCamera(mv,g); sx_check(k<(unsigned)n,"an active camera is chosen"); double d[2]; for(int i=0;i<n;i++){ d[i]=std::fabs(q-az[i]); if(d[i]>M_PI) d[i]=2*M_PI-d[i]; } if(k<(unsigned)n) sx_check(d[k]<=d[1-k]+1e-3,"nearest camera direction"); }
// ------------------------------------------------------------------ gizmos
SX_ENTRY(gizmo_affine){ optl(); dfm2::CGizmo_Affine<double> g; double q[4],p[3],t[3],x[3]; unitq(q,"q"); all(p,3,"p"); all(t,3,"t"); all(x,3,"x"); for(int i=0;i<4;i++) g.gizmo_rot.quat[i]=q[i]; g.SetPivot(dfm2::CVec3d(p)); g.gizmo_trnsl.pos=dfm2::CVec3d(t); dfm2::CMat4d m=g.Affine(); double d[3]={x[0]-p[0],x[1]-p[1],x[2]-p[2]},z[3]; dfm2::QuatVec(z,q,d); for(int i=0;i<3;i++) sx_eq(m.mat[4*i]*x[0]+m.mat[4*i+1]*x[1]+m.mat[4*i+2]*x[2]+m.mat[4*i+3],z[i]+t[i],"pivot moved to the position, rotated about it"); }
SX_ENTRY(gizmo_transl){ opt(); int e=sx_choose("elem",3),v=sx_choose("dir",3); dfm2::CGizmo_Transl<double> g; g.ielem_picked=e; double p[3],s0[3],s1[3]; for(int i=0;i<3;i++){ p[i]=sx_real_in(NM("p",i),-2,2); s0[i]=sx_real_in(NM("s",i),-2,2); s1[i]=sx_real_in(NM("t",i),-2,2); } double d[3]={0,0,0}; d[(e+1)%3]=v==1?0.6:1; d[(e+2)%3]=v==1?0.8:0; if(v==2){ d[e]=1; d[(e+1)%3]=2; d[(e+2)%3]=-2; } g.pos=dfm2::CVec3d(p); g.Drag(s0,s1,d); double de=d[e],dd=0,ds=0; for(int i=0;i<3;i++){ dd+=d[i]*d[i]; ds+=d[i]*(s1[i]-s0[i]); } double mv=((s1[e]-s0[e])*dd-de*ds)/(dd-de*de); for(int i=0;i<3;i++) sx_eq(g.pos[i],p[i]+(i==e?mv:0.),"moves along the axis as the nearest point of the picking line does"); g.ielem_picked=-1; dfm2::CVec3d b=g.pos; g.Drag(s1,s0,d); for(int i=0;i<3;i++) sx_eq(g.pos[i],b[i],"nothing picked, nothing moves"); }
SX_ENTRY(gizmo_transl_pick){ opt(); dfm2::CGizmo_Transl<double> g; g.size=1; int e=sx_choose("elem",3); double u=sx_real_in("u",-1.5,1.5),o=sx_real_in("o",-0.75,0.75); double s[3],d[3]={0,0,0}; g.pos=dfm2::CVec3d(0.25,-0.5,1); s[e]=u; s[(e+1)%3]=o; s[(e+2)%3]=5; d[(e+2)%3]=-1; for(int i=0;i<3;i++) s[i]+=g.pos[i]; const double tol=0.1; g.Pick(true,s,d,tol);
  double du=u>1?u-1:u<-1?-1-u:0; double ux=std::fabs(u); double da=du*du+o*o; double oo=std::fabs(o); double db=(oo>1?oo-1:0); db=db*db+u*u; double dc=u*u+o*o; double t2=tol*tol; bool any=(da<t2-1e-6)|(db<t2-1e-6)|(dc<t2-1e-6), none=(da>t2+1e-6)&(db>t2+1e-6)&(dc>t2+1e-6); (void)ux;
  if(sx_fork(any)) sx_check(g.ielem_picked>=0,"an axis within the tolerance is picked"); if(sx_fork(none)) sx_check(g.ielem_picked==-1,"nothing picked away from the axes"); if(sx_fork((da>t2+1e-6))) sx_check(g.ielem_picked!=e,"axis beyond the tolerance not picked"); if(sx_fork((db>t2+1e-6)&(dc>t2+1e-6)&(da<t2-1e-6))) sx_check(g.ielem_picked==e,"the axis hit is the one picked"); g.Pick(false,s,d,tol); sx_check(g.ielem_picked==-1,"released"); }
SX_ENTRY(gizmo_rot){ opt(); sx_opt("ieee",1); sx_opt("native_tol_e",6); static const double A[5]={0.375,1.25,2.5,-1,-2.5}; static const double QS[3][4]={{0,0,0,1},{0.5,0.5,-0.5,0.5},{0.6,0,0,0.8}}; int e=sx_choose("elem",3); double a0=A[sx_choose("a0",5)],a1=A[sx_choose("a1",5)]; const double*q=QS[sx_choose("q",3)]; dfm2::CGizmo_Rotation<double> g; for(int i=0;i<4;i++) g.quat[i]=q[i]; g.size=1.25; g.pos=dfm2::CVec3d(0.5,-1,2); double ax[3][3]; for(int k=0;k<3;k++){ double b[3]={0,0,0}; b[k]=1; dfm2::QuatVec(ax[k],q,b); } double*n=ax[e],*u=ax[(e+1)%3],*v=ax[(e+2)%3]; double s0[3],s1[3],d[3]; for(int i=0;i<3;i++){ s0[i]=g.pos[i]+g.size*(cos(a0)*u[i]+sin(a0)*v[i])+4*n[i]; s1[i]=g.pos[i]+g.size*(cos(a1)*u[i]+sin(a1)*v[i])+4*n[i]; d[i]=-n[i]; }
  g.Pick(true,s0,d,0.1); sx_check(g.ielem_picked==e,"ring under the picking ray is picked"); g.ielem_picked=e; g.Drag(s0,s1,d); double w=a1-a0; double p[4]={n[0]*sin(w/2),n[1]*sin(w/2),n[2]*sin(w/2),cos(w/2)},z[4]; dfm2::QuatQuat(z,p,q); double sg=0; for(int i=0;i<4;i++) sg+=z[i]*g.quat[i]; sg=sg<0?-1:1; for(int i=0;i<4;i++) sx_eq(g.quat[i],sg*z[i],"rotates about the picked ring by the dragged angle"); g.Pick(false,s0,d,0.1); sx_check(g.ielem_picked==-1,"released"); double far[3]={s0[0]+n[0]*0,s0[1],s0[2]}; for(int i=0;i<3;i++) far[i]=g.pos[i]+3*u[i]+3*v[i]+4*n[i]; g.Pick(true,far,d,0.1); sx_check(g.ielem_picked==-1,"nothing picked far away"); }
// screen-space handles
static void cams(float*mv,float*pj,int k){ static const float M[2][16]={{1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1},{0,-1,0,0.5f, 1,0,0,-0.25f, 0,0,1,-4, 0,0,0,1}},P[2][16]={{0.5f,0,0,0, 0,0.5f,0,0, 0,0,0.25f,0, 0,0,0,1},{2,0,0,0, 0,2,0,0, 0,0,-1.5f,-1, 0,0,-1,0}}; for(int i=0;i<16;i++){ mv[i]=M[k][i]; pj[i]=P[k][i]; } }
static void scr(double*o,const float*mv,const float*pj,const double*x){ double y[4],z[4]; for(int i=0;i<4;i++){ y[i]=mv[4*i+3]; for(int j=0;j<3;j++) y[i]+=mv[4*i+j]*x[j]; } for(int i=0;i<4;i++){ z[i]=0; for(int j=0;j<4;j++) z[i]+=pj[4*i+j]*y[j]; } o[0]=z[0]/z[3]; o[1]=z[1]/z[3]; }
SX_ENTRY(screen_handle){ opt(); float mv[16],pj[16]; int c=sx_choose("cam",2); cams(mv,pj,c); double p[3]={0.25,0.5,0.5},s[2]; s[0]=sx_real_in("s",-1,1); s[1]=sx_choose("sy",3)*0.25; double o[2]; scr(o,mv,pj,p); double dd=(s[0]-o[0])*(s[0]-o[0])+(s[1]-o[1])*(s[1]-o[1]); dfm2::CVec2d sp(s[0],s[1]); dfm2::CVec3d P(p); bool b=dfm2::isPickPoint(sp,P,mv,pj,0.25); if(sx_fork(dd<0.0624)) sx_check(b,"point within the tolerance is picked"); if(sx_fork(dd>0.0626)) sx_check(!b,"point beyond the tolerance is not picked");
  dfm2::CVec3d ax(0,1,0); double a[2],e[2],x0[3]={p[0],p[1]+0.5,p[2]},x1[3]={p[0],p[1]-0.5,p[2]}; scr(a,mv,pj,x0); scr(e,mv,pj,x1); bool h=dfm2::isPick_AxisHandler(sp,P,ax,0.5,mv,pj,0.25); double l=(a[0]-e[0])*(a[0]-e[0])+(a[1]-e[1])*(a[1]-e[1]); double t=((s[0]-e[0])*(a[0]-e[0])+(s[1]-e[1])*(a[1]-e[1]))/l; if(sx_fork(t<0)) t=0; else if(sx_fork(t>1)) t=1; double f0=e[0]+t*(a[0]-e[0])-s[0],f1=e[1]+t*(a[1]-e[1])-s[1],ff=f0*f0+f1*f1; if(sx_fork(ff<0.0624)) sx_check(h,"axis within the tolerance is picked"); if(sx_fork(ff>0.0626)) sx_check(!h,"axis beyond the tolerance is not picked");
  dfm2::CVec2d s1(s[0]+0.125,s[1]-0.25); auto dr=dfm2::drag_AxisHandler(sp,s1,P,ax,0.5,mv,pj); double r=((a[0]-e[0])*0.125+(a[1]-e[1])*-0.25)/l*0.5; sx_eq(dr.x,0,"drag along the axis"); sx_eq(dr.y,r,"drag along the axis"); sx_eq(dr.z,0,"drag along the axis"); }
SX_ENTRY(ray_circle){ opt(); double rad=1.25,o=sx_real_in("o",-3,3); dfm2::CVec3d ax(0.6,0,0.8),org(1,2,3),ux(0.8,0,-0.6); double w=sx_choose("w",3)*0.5; dfm2::CVec3d src=org+ux*o+dfm2::CVec3d(0,w,0)+ax*2.0, dir(0.6,0,0.8); bool b=dfm2::isPickCircle(ax,org,rad,src,dir,0.25); double r2=o*o+w*w; bool in=(r2<1.5*1.5-1e-3)&(r2>1.0+1e-3), out=(r2>1.5*1.5+1e-3)|(r2<1.0-1e-3); if(sx_fork(in)) sx_check(b,"ring hit"); if(sx_fork(out)) sx_check(!b,"ring missed"); }
SX_ENTRY(quad){ opt(); float mv[16],pj[16]; int c=sx_choose("cam",2); cams(mv,pj,c); static const double Q[4][3]={{0,0,0.5},{1,0,0.5},{1,1,0.5},{0,1,0.5}}; double s[4][2]; dfm2::CVec3d p[4]; for(int i=0;i<4;i++){ scr(s[i],mv,pj,Q[i]); p[i]=dfm2::CVec3d(Q[i]); } double u=sx_real_in("u",-0.5,1.5); double v=sx_choose("v",4)*0.375-0.125; dfm2::CVec2d sp(s[0][0]+u*(s[1][0]-s[0][0])+v*(s[3][0]-s[0][0]),s[0][1]+u*(s[1][1]-s[0][1])+v*(s[3][1]-s[0][1])); int side=sx_choose("side",2); dfm2::CVec3d pd(0,0,side?1.:-1.); bool b=dfm2::isPickQuad(p[0],p[1],p[2],p[3],sp,pd,mv,pj,1e-3); bool in=(u>0.01)&(u<0.99)&(v>0.01)&(v<0.99); bool out=(u<-0.01)|(u>1.01)|(v<-0.01)|(v>1.01); if(sx_fork(in)) sx_check(b==(side==0),"inside and facing the viewer"); if(sx_fork(out)) sx_check(!b,"outside the quad"); }
