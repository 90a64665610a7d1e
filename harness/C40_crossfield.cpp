// C40: smoothing of four-fold symmetric direction fields on surfaces
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstdint>
#include <vector>
#include <algorithm>
#include <random>
namespace std{ struct sx_rdev{ unsigned operator()(){ return 1; } }; struct sx_mt{ sx_mt(unsigned){} }; template<class I> void sx_shuffle(I b,I e,sx_mt&){ for(long n=e-b;n>1;n--){ long k=sx_choose("perm",(int)n); auto t=b[k]; b[k]=b[n-1]; b[n-1]=t; } } }
#define random_device sx_rdev
#define mt19937 sx_mt
#define shuffle sx_shuffle
#include "delfem2/4rotsym.h"
#undef random_device
#undef mt19937
#undef shuffle
#include "delfem2/msh_affine_transformation.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef dfm2::CVec3d V3; typedef std::vector<double> VD; typedef std::vector<U> VU;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",7); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",4000000); sx_opt("steps_are_violation",1); }
static V3 rot(const V3&n,const V3&o,int k){ V3 p=n.cross(o); return k==0?o:k==1?p:k==2?o*-1.0:p*-1.0; }
// unit tangent at normal n: half-angle parametrisation of the angle against a rational frame
static const double F[3][9]={{0,0,1, 1,0,0, 0,1,0},{0.6,0,0.8, 0,1,0, -0.8,0,0.6},{2./7,3./7,6./7, 3./7,-6./7,2./7, 6./7,2./7,-3./7}};
static V3 dirc(int f,double c,double s){ V3 a(F[f]+3),b(F[f]+6); return a*c+b*s; }
static void unit(double&c,double&s,const char*nm){ double t=sx_real_in(nm,-1,1); double d=1+t*t; c=(1-t*t)/d; s=2*t/d; }
static const double PY[6][2]={{1,0},{0.6,0.8},{0.8,-0.6},{5./13,12./13},{-8./17,15./17},{-20./29,-21./29}};
SX_ENTRY(nearest){ opt(); int f0=sx_choose("n0",T?3:2),f1=sx_choose("n1",T?3:2); double c,s; unit(c,s,"t"); int k=sx_choose("o1",T?6:4); V3 n0(F[f0]),n1(F[f1]); V3 o0=dirc(f0,c,s),o1=dirc(f1,PY[k][0],PY[k][1]); double w=sx_choose("w",3); V3 p0=n0.cross(o0),p1=n1.cross(o1); double m=-9; int a=0,b=0; V3 e0[2]={o0,p0},e1[4]={o1,p1,o1*-1.0,p1*-1.0}; for(int i=0;i<2;i++) for(int j=0;j<4;j++){ double d=e0[i].dot(e1[j]); if(a+b+i+j>0){ sx_assume((d>m+1e-6)|(d<m-1e-6)|((i==a)&(j==b))); } if(i+j==0||sx_fork(d>m)){ m=d; a=i; b=j; } } V3 x=e0[a]*w+e1[b]; x=x-n0*x.dot(n0); sx_assume(x.squaredNorm()>1e-3); if(a==1) x=x.cross(n0);
  U id=9; V3 r=dfm2::FindNearestOrientation(id,o0,n0,o1,n1,w); sx_check(id==(U)((a+4-b)%4),"turns between the two fields"); double l=r.squaredNorm(); sx_eq(l,1,"unit direction"); double rn=r.dot(n0); sx_eq(rn,0,"tangent to the surface"); double d=r.dot(x),xx=x.squaredNorm(); sx_le(0,d,"blend of the best matching pair of directions"); sx_eq(d*d,xx,"blend of the best matching pair of directions"); }
SX_ENTRY(nearest_plane){ opt(); double c,s; unit(c,s,"t"); int k=sx_choose("o1",T?6:4); int f=sx_choose("n",2); V3 n(F[f]); V3 o0=dirc(f,c,s),o1=dirc(f,PY[k][0],PY[k][1]); U id=9; V3 r=dfm2::FindNearestOrientation(id,o0,n,o1,n,0.); sx_check(id<4,"a number of quarter turns"); if(id>3) return; V3 e=rot(n,o1,(4-id)%4); for(int i=0;i<3;i++) sx_eq(r.p[i],e.p[i],"with no weight the other direction turned by the reported quarter turns"); double d=o0.dot(r); for(int i=0;i<4;i++) sx_le(o0.dot(rot(n,o1,i)),d,"no other of the four directions is nearer"); }
struct G{ VU ind,adj; int n; };
static G graph(int k){ if(!T&&k==1) k=3; if(k==0) return {{0,1,2},{1,0},2}; if(k==1) return {{0,1,3,4},{1,0,2,1},3}; if(k==2) return {{0,2,4,6},{1,2,0,2,0,1},3}; return {{0,0,1,2},{2,1},3}; }
static void eqf(const VD&a,const VD&b,const char*l){ for(U i=0;i<a.size();i++) sx_eq(a[i],b[i],l); }
// sequential reference: each vertex takes the blend with its neighbours, in the order given
static void refv(VD&o,const VD&n,const G&g,int ip,const VU&order,double w){ V3 x(o.data()+3*ip),N(n.data()+3*ip); for(U q:order){ U j=g.adj[g.ind[ip]+q]; U id; x=dfm2::FindNearestOrientation(id,x,N,V3(o.data()+3*j),V3(n.data()+3*j),w); w+=1; } for(int k=0;k<3;k++) o[3*ip+k]=x.p[k]; }
static VD field(const G&g,VD&n){ VD o; double c,s; unit(c,s,"t"); int k=sx_choose("turn",T?4:2); for(int i=0;i<g.n;i++){ int f=i%2; V3 x= i==1?dirc(f,c,s):dirc(f,PY[(k+i)%6][0],PY[(k+i)%6][1]); for(int j=0;j<3;j++){ o.push_back(x.p[j]); n.push_back(F[f][j]); } } return o; }
static VU seq(int n){ VU v; for(int i=0;i<n;i++) v.push_back(i); return v; }
SX_ENTRY(smooth){ opt(); G g=graph(sx_choose("graph",T?4:2)); VD n; VD o=field(g,n),r=o; dfm2::Smooth4RotSym(o,n,g.ind,g.adj); for(int i=0;i<g.n;i++) refv(r,n,g,i,seq(g.ind[i+1]-g.ind[i]),0); sx_check(o.size()==r.size(),"one direction per vertex"); eqf(o,r,"every vertex takes the blend of its neighbours"); }
SX_ENTRY(smooth_random){ opt(); G g=graph(sx_choose("graph",T?3:2)); VD n; VD o=field(g,n),b=o; VU perm=seq(g.n); dfm2::Smooth4RotSym_RandomPermutation(o,perm,n,g.ind,g.adj); std::vector<int> seen(g.n,0); for(U p:perm){ sx_check((int)p<g.n,"order lists the vertices"); if((int)p>=g.n) return; seen[p]++; } for(int i=0;i<g.n;i++) sx_check(seen[i]==1,"order lists each vertex once"); for(int i=0;i<g.n;i++){ V3 x(o.data()+3*i),N(n.data()+3*i); double l=x.squaredNorm(),d=x.dot(N); sx_eq(l,1,"unit directions"); sx_eq(d,0,"tangent directions"); }
  if(g.n==2||g.ind[3]==4){ VD r=b; for(U p:perm){ if(g.ind[p+1]-g.ind[p]>1) return; refv(r,n,g,p,seq(g.ind[p+1]-g.ind[p]),0); for(int k=0;k<3;k++) sx_eq(o[3*p+k],r[3*p+k],"every vertex takes the blend of its neighbours"); } } }
SX_ENTRY(smooth2){ opt(); G g=graph(sx_choose("graph",T?4:2)); VD o,n,r; double c,s; unit(c,s,"t"); int k=sx_choose("turn",T?4:2); for(int i=0;i<g.n;i++){ double a=i==1?c:PY[(k+i)%6][0],b=i==1?s:PY[(k+i)%6][1]; o.push_back(a); o.push_back(b); r.push_back(a); r.push_back(b); r.push_back(0); n.push_back(0); n.push_back(0); n.push_back(1); } dfm2::Smooth4RotSym2(o.data(),g.n,g.ind.data(),g.adj.data()); for(int i=0;i<g.n;i++) refv(r,n,g,i,seq(g.ind[i+1]-g.ind[i]),1); for(int i=0;i<g.n;i++) for(int q=0;q<2;q++) sx_eq(o[2*i+q],r[3*i+q],"planar fields are smoothed with the previous direction counted once"); }
SX_ENTRY(smooth_aligned){ opt(); G g=graph(sx_choose("graph",T?3:2)); VD o,n; double c,s; unit(c,s,"t"); int f=sx_choose("n",T?2:1)+(T?0:1); V3 N(F[f]); for(int i=0;i<g.n;i++){ V3 x=rot(N,dirc(f,c,s),i==0&&!T?0:sx_choose(NM("k",i),4)); for(int j=0;j<3;j++){ o.push_back(x.p[j]); n.push_back(F[f][j]); } } VD b=o; if(sx_choose("random",2)){ VU p=seq(g.n); dfm2::Smooth4RotSym_RandomPermutation(o,p,n,g.ind,g.adj); } else dfm2::Smooth4RotSym(o,n,g.ind,g.adj); eqf(o,b,"a field that is constant up to quarter turns is kept"); }
