// C26: generated primitive meshes and the primitive signed distance functions
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <vector>
#include <algorithm>
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_geodesic_polyhedron.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef std::vector<U> VU; typedef std::vector<double> VD;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); sx_opt("max_steps",60000000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); }
static const double PI=3.14159265358979323846;
static double K(int n){ return n*0.5*std::sin(2*PI/n); }  // area of the regular n-gon on the unit circle
static void near_(double a,double b,double scale,const char*m){ sx_le(a-b,1e-7*scale,m); sx_le(b-a,1e-7*scale,m); }
// ---- topology: indices, directed edges, Euler characteristic, connectedness. Returns the number of boundary edges.
static int topo(const VU&f,int k,int np,int euler,const char*nm){ (void)nm; sx_check(f.size()%k==0,"whole elements"); int nf=(int)f.size()/k; for(U v:f) sx_check(v<(U)np,"index in range"); std::vector<char> E(np*np,0),used(np,0); int ne=0,open=0; for(int i=0;i<nf;i++) for(int j=0;j<k;j++){ int a=f[i*k+j],b=f[i*k+(j+1)%k]; sx_check(a!=b,"element has distinct corners"); sx_check(!E[a*np+b],"a directed edge is used once: the surface is a consistently oriented manifold"); E[a*np+b]=1; used[a]=1; } for(int a=0;a<np;a++) for(int b=0;b<np;b++) if(E[a*np+b]){ if(!E[b*np+a]){ open++; ne+=2; } else ne++; } ne/=2; int nv=0; for(char c:used) nv+=c; sx_check(nv==np,"every point is used"); sx_check(nv-ne+nf==euler,"Euler characteristic"); std::vector<int> g(np); for(int i=0;i<np;i++) g[i]=i; for(bool ch=true;ch;){ ch=false; for(int i=0;i<nf;i++){ int m=np; for(int j=0;j<k;j++) m=std::min(m,g[f[i*k+j]]); for(int j=0;j<k;j++) if(g[f[i*k+j]]!=m){ g[f[i*k+j]]=m; ch=true; } } } for(int i=0;i<np;i++) sx_check(g[i]==0,"surface is connected"); // the elements around each point form one fan
  for(int p=0;p<np;p++){ std::vector<int> nx(np,-1); int cnt=0,st=-1; std::vector<char> in(np,0); for(int i=0;i<nf;i++) for(int j=0;j<k;j++) if((int)f[i*k+j]==p){ int a=f[i*k+(j+1)%k],b=f[i*k+(j+k-1)%k]; nx[a]=b; in[b]=1; cnt++; st=a; } for(int a=0;a<np;a++) if(nx[a]>=0&&!in[a]) st=a; int c=0; for(int a=st;a>=0&&nx[a]>=0&&c<=cnt;){ a=nx[a]; c++; if(a==st) break; } sx_check(c==cnt,"elements around a point form one fan"); } return open; }
static double tv(const VD&X,const U*t){ const double*a=&X[t[0]*3],*b=&X[t[1]*3],*c=&X[t[2]*3]; return (a[0]*(b[1]*c[2]-b[2]*c[1])+a[1]*(b[2]*c[0]-b[0]*c[2])+a[2]*(b[0]*c[1]-b[1]*c[0]))/6; }
static double vol(const VD&X,const VU&t){ double s=0; for(size_t i=0;i<t.size();i+=3) s+=tv(X,&t[i]); return s; }
static double ring(double h,double a,double b){ return h/3*(a*a+a*b+b*b); } // times K(n): volume of a polygonal frustum
// the origin is strictly inside and every triangle faces away from it (star-shaped solids)
static void outward(const VD&X,const VU&t){ for(size_t i=0;i<t.size();i+=3) sx_lt(0,tv(X,&t[i]),"triangle faces outward"); }
SX_ENTRY(sphere){ optl(); int nl=2+sx_choose("nlong",T?6:4),nr=3+sx_choose("nlat",T?6:4); double r=sx_real_in("r",0.125,8); VD X; VU t; dfm2::MeshTri3D_Sphere(X,t,r,nl,nr); int np=(int)X.size()/3; sx_check(np==nr*(nl-1)+2,"number of points"); sx_check((int)t.size()==3*(2*nr*(nl-1)),"number of triangles"); sx_check(topo(t,3,np,2,"sphere")==0,"closed surface"); for(int i=0;i<np;i++) near_(X[i*3]*X[i*3]+X[i*3+1]*X[i*3+1]+X[i*3+2]*X[i*3+2],r*r,r*r,"point on the sphere"); outward(X,t); double V=0; for(int i=0;i<nl;i++) V+=K(nr)*ring(std::cos(PI*i/nl)-std::cos(PI*(i+1)/nl),std::sin(PI*i/nl),std::sin(PI*(i+1)/nl)); near_(vol(X,t),V*r*r*r,r*r*r,"enclosed volume"); }
SX_ENTRY(sphere_degenerate){ opt(); VD X{1,2}; VU t{0,1}; int c=sx_choose("case",4); static const int A[4][2]={{1,5},{0,3},{4,2},{2,0}}; dfm2::MeshTri3D_Sphere(X,t,1.0,A[c][0],A[c][1]); sx_check(X.empty()&&t.empty(),"too coarse a sphere is empty"); dfm2::MeshTri3D_CylinderClosed(X,t,1.0,1.0,c==3?5:c==2?2:c,c==3?0:1); sx_check(X.empty()&&t.empty(),"too coarse a cylinder is empty"); }
SX_ENTRY(cylinder_closed){ optl(); int nr=3+sx_choose("nr",T?5:4),nl=1+sx_choose("nl",T?4:3); double r=sx_real_in("r",0.125,8),l=sx_real_in("l",0.125,8); VD X; VU t; dfm2::MeshTri3D_CylinderClosed(X,t,r,l,nr,nl); int np=(int)X.size()/3; sx_check(np==nr*(nl+1)+2,"number of points"); sx_check(topo(t,3,np,2,"")==0,"closed surface"); for(int i=0;i<np;i++){ int k=i==0?0:i==np-1?nl:(i-1)/nr; sx_eq(X[i*3+1]*2*nl,l*(2*k-nl),"height of the ring"); double q=X[i*3]*X[i*3]+X[i*3+2]*X[i*3+2]; if(i==0||i==np-1) sx_eq(q,0,"cap centre on the axis"); else near_(q,r*r,r*r,"point on the cylinder"); } outward(X,t); near_(vol(X,t),K(nr)*r*r*l,r*r*l,"enclosed volume"); }
SX_ENTRY(cylinder_open){ optl(); int nr=3+sx_choose("nr",T?5:4),nl=1+sx_choose("nl",T?4:3); double r=sx_real_in("r",0.125,8),l=sx_real_in("l",0.125,8); VD X; VU t; dfm2::MeshTri3D_CylinderOpen(X,t,r,l,nr,nl); int np=(int)X.size()/3; sx_check(np==nr*(nl+1),"number of points"); sx_check(topo(t,3,np,0,"")==2*nr,"boundary edges are the two rims"); for(int i=0;i<np;i++){ sx_eq(X[i*3+1]*2*nl,l*(2*(i/nr)-nl),"height of the ring"); near_(X[i*3]*X[i*3]+X[i*3+2]*X[i*3+2],r*r,r*r,"point on the cylinder"); } outward(X,t); near_(vol(X,t),K(nr)*r*r*l*2/3,r*r*l,"cone volume over the side"); }
SX_ENTRY(capsule){ optl(); int nc=3+sx_choose("nc",T?4:2),nr=1+sx_choose("nr",T?4:3),nl=1+sx_choose("nl",3); double r=sx_real_in("r",0.125,8),l=sx_real_in("l",0.125,8); VD X; VU t; if(2*nr+nl-2<1) return; dfm2::MeshTri3_Capsule(X,t,r,l,nc,nr,nl); int np=(int)X.size()/3; sx_check(np==(2*nr+nl-1)*nc+2,"number of points"); sx_check(topo(t,3,np,2,"")==0,"closed surface"); VD Y,R; // profile as multiples: y = a r + b l, radius = c r
  double V3=0,V2=0; std::vector<double> ya,yb,rc; ya.push_back(-1); yb.push_back(-.5); rc.push_back(0); for(int i=0;i<nr;i++){ double th=PI/2*(nr-1-i)/nr; ya.push_back(-std::sin(th)); yb.push_back(-.5); rc.push_back(std::cos(th)); } for(int i=1;i<nl;i++){ ya.push_back(0); yb.push_back(-.5+(double)i/nl); rc.push_back(1); } for(int i=0;i<nr;i++){ double th=PI/2*i/nr; ya.push_back(std::sin(th)); yb.push_back(.5); rc.push_back(std::cos(th)); } ya.push_back(1); yb.push_back(.5); rc.push_back(0); for(size_t i=0;i+1<ya.size();i++){ V3+=K(nc)*ring(ya[i+1]-ya[i],rc[i],rc[i+1]); V2+=K(nc)*ring(yb[i+1]-yb[i],rc[i],rc[i+1]); }
  for(int i=0;i<np;i++){ double q=X[i*3]*X[i*3]+X[i*3+2]*X[i*3+2],y=X[i*3+1]; int k=i==0?0:i==np-1?(int)ya.size()-1:1+(i-1)/nc; near_(y,ya[k]*r+yb[k]*l,r+l,"height of the ring"); near_(q,rc[k]*rc[k]*r*r,r*r,"radius of the ring"); if(k<=nr) near_(q+(y+l/2)*(y+l/2),r*r,r*r+l*l,"point on the lower cap"); else if(k>=nr+nl) near_(q+(y-l/2)*(y-l/2),r*r,r*r+l*l,"point on the upper cap"); else { near_(q,r*r,r*r,"point on the side"); sx_lt(-l/2,y,"side between the caps"); sx_lt(y,l/2,"side between the caps"); } } outward(X,t); near_(vol(X,t),V3*r*r*r+V2*r*r*l,r*r*(r+l),"enclosed volume"); }
SX_ENTRY(cube){ optl(); int n=1+sx_choose("n",T?4:3); VD X; VU t; dfm2::MeshTri3D_Cube(X,t,n); int np=(int)X.size()/3; sx_check(np==6*n*n+2,"number of points"); sx_check((int)t.size()==3*12*n*n,"number of triangles"); sx_check(topo(t,3,np,2,"")==0,"closed surface"); for(int i=0;i<np;i++){ double m=0; for(int d=0;d<3;d++){ double a=std::fabs(X[i*3+d]); m=std::max(m,a); double g=(X[i*3+d]+0.5)*n; near_(g,std::round(g),1,"point on the lattice"); } near_(m,0.5,1,"point on the cube"); } outward(X,t); near_(vol(X,t),1,1,"enclosed volume"); for(size_t i=0;i<t.size();i+=3){ bool flat=false; for(int d=0;d<3;d++){ double a=X[t[i]*3+d]; flat|=std::fabs(std::fabs(a)-0.5)<1e-9&&std::fabs(X[t[i+1]*3+d]-a)<1e-9&&std::fabs(X[t[i+2]*3+d]-a)<1e-9; } sx_check(flat,"triangle lies in a side of the cube"); } }
SX_ENTRY(cubevox){ optl(); double a[3],b[3]; for(int d=0;d<3;d++){ a[d]=sx_real_in(NM("a",d),-8,8); b[d]=a[d]+sx_real_in(NM("w",d),0.125,8); } VD X; VU q; dfm2::MeshQuad3_CubeVox(X,q,a,b); sx_check(X.size()==24,"eight corners"); sx_check(q.size()==24,"six sides"); sx_check(topo(q,4,8,2,"")==0,"closed surface"); VU t; double c[3]={a[0],a[1],a[2]}; for(int i=0;i<6;i++) for(int k:{0,1,2,0,2,3}) t.push_back(q[i*4+k]); VD Y=X; for(int i=0;i<8;i++) for(int d=0;d<3;d++) Y[i*3+d]-=c[d]; double w=1; for(int d=0;d<3;d++) w*=b[d]-a[d]; sx_eq(vol(Y,t),w,"enclosed volume"); for(int i=0;i<8;i++) for(int d=0;d<3;d++) sx_eq(X[i*3+d],(i>>d&1)?b[d]:a[d],"corner of the box"); for(int f=0;f<6;f++) for(int k=0;k<4;k++) sx_check(((q[f*4+k]>>(f/2))&1)==(U)(f%2),"sides in the order -x +x -y +y -z +z"); }
SX_ENTRY(icosahedron){ optl(); bool g=sx_choose("geodesic",2); VD X; VU t; if(g) MeshTri3D_GeodesicPolyhedron(X,t); else dfm2::MeshTri3D_Icosahedron(X,t); int np=(int)X.size()/3; sx_check(np==(g?42:12),"number of points"); sx_check((int)t.size()==3*(g?80:20),"number of triangles"); sx_check(topo(t,3,np,2,"")==0,"closed surface"); double r2=(5+std::sqrt(5.))/2; for(int i=0;i<np;i++) near_(X[i*3]*X[i*3]+X[i*3+1]*X[i*3+1]+X[i*3+2]*X[i*3+2],r2,1,"point on the sphere"); outward(X,t); if(!g){ for(size_t i=0;i<t.size();i++){ int a=t[i],b=t[i/3*3+(i+1)%3]; double l=0; for(int d=0;d<3;d++) l+=(X[a*3+d]-X[b*3+d])*(X[a*3+d]-X[b*3+d]); near_(l,4,1,"edges have length two"); } near_(vol(X,t),5*(3+std::sqrt(5.))/12*8,1,"enclosed volume"); } std::vector<int> deg(np,0); for(U v:t) deg[v]++; for(int i=0;i<np;i++) sx_check(deg[i]==(i<12?5:6),"number of triangles at a point"); }
SX_ENTRY(torus){ optl(); int ng=3+sx_choose("ng",T?5:4),nt=3+sx_choose("nt",T?5:4); double b=sx_real_in("tube",0.125,4),a=b+sx_real_in("d",0.125,8); VD X; VU t; dfm2::MeshTri3_Torus(X,t,a,b,ng,nt); int np=(int)X.size()/3; sx_check(np==ng*nt,"number of points"); sx_check(topo(t,3,np,0,"")==0,"closed surface"); double A=0,B=0; for(int i=0;i<ng;i++) for(int j=0;j<nt;j++){ const double*x=&X[(i*nt+j)*3]; double c=std::cos(2*PI*j/nt); double q=(a+b*c); near_(x[0]*x[0]+x[1]*x[1],q*q,a*a,"distance from the axis"); near_((x[0]*x[0]+x[1]*x[1])-2*a*q+a*a+x[2]*x[2],b*b,a*a,"point on the tube"); }
  for(int j=0;j<nt;j++){ double c0=std::cos(2*PI*j/nt),c1=std::cos(2*PI*(j+1)/nt),h=std::sin(2*PI*(j+1)/nt)-std::sin(2*PI*j/nt); /* h b/3 ((a+b c0)^2+(a+bc0)(a+bc1)+(a+bc1)^2) */ A+=h*(c0+c1); B+=h/3*(c0*c0+c0*c1+c1*c1); } near_(vol(X,t),K(ng)*(A*a*b*b+B*b*b*b),a*a*b,"enclosed volume"); sx_lt(0,vol(X,t),"positive volume");
  for(size_t k=0;k<t.size();k+=3){ int i=(int)(k/6)/nt; double ph=2*PI*(i+0.5)/ng,C[3]={a*std::cos(PI/ng)*std::sin(ph),a*std::cos(PI/ng)*std::cos(ph),0}; VD Y(9); for(int m=0;m<3;m++) for(int d=0;d<3;d++) Y[m*3+d]=X[t[k+m]*3+d]-C[d]; U tt[3]={0,1,2}; sx_lt(0,tv(Y,tt),"triangle faces away from the centre line"); } }
SX_ENTRY(disk){ optl(); int nr=1+sx_choose("nr",T?4:3),nt=3+sx_choose("nt",T?5:4); double r=sx_real_in("r",0.125,8); VD X; VU t; dfm2::MeshTri3D_Disk(X,t,r,nr,nt); int np=(int)X.size()/3; sx_check(np==1+nr*nt,"number of points"); sx_check(topo(t,3,np,1,"")==nt,"boundary edges are the rim"); for(int i=0;i<np;i++){ int k=i==0?0:1+(i-1)/nt; double q=X[i*3]*X[i*3]+X[i*3+2]*X[i*3+2]; near_(q*nr*nr,k*k*r*r,r*r,"point on its ring"); sx_eq(X[i*3+1],0,"flat"); } double A=0; for(size_t i=0;i<t.size();i+=3){ const double*a=&X[t[i]*3],*b=&X[t[i+1]*3],*c=&X[t[i+2]*3]; double s=((b[2]-a[2])*(c[0]-a[0])-(b[0]-a[0])*(c[2]-a[2]))/2; sx_lt(0,s,"triangles have one orientation"); A+=s; } near_(A,K(nt)*r*r,r*r,"area"); }
SX_ENTRY(quad_grid){ optl(); int nx=1+sx_choose("nx",T?5:4),ny=1+sx_choose("ny",T?5:4); VD X; VU q; dfm2::MeshQuad2D_Grid(X,q,nx,ny); int np=(int)X.size()/2; sx_check(np==(nx+1)*(ny+1),"number of points"); sx_check((int)q.size()==4*nx*ny,"number of quads"); sx_check(topo(q,4,np,1,"")==2*(nx+ny),"boundary edges are the rim"); std::vector<char> seen(nx*ny,0); for(size_t i=0;i<q.size();i+=4){ const double*a=&X[q[i]*2]; int x=(int)a[0],y=(int)a[1]; sx_check(x>=0&&x<nx&&y>=0&&y<ny&&!seen[y*nx+x],"one quad per cell"); seen[y*nx+x]=1; static const int D[4][2]={{0,0},{1,0},{1,1},{0,1}}; for(int k=0;k<4;k++) for(int d=0;d<2;d++) sx_eq(X[q[i+k]*2+d],(d?y:x)+D[k][d],"corners of the cell counter-clockwise"); } }
SX_ENTRY(hex_grid){ optl(); int n[3]; for(int d=0;d<3;d++) n[d]=1+sx_choose(NM("n",d),T?4:3); double e=sx_real_in("e",0.125,8); VD X; VU h; if(sx_choose("reuse",2)){ X.assign(7,3.0); h.assign(5,1); } dfm2::MeshHex3_Grid(X,h,n[0],n[1],n[2],e); sx_check((int)X.size()==3*(n[0]+1)*(n[1]+1)*(n[2]+1),"number of points"); sx_check((int)h.size()==8*n[0]*n[1]*n[2],"number of cells"); int c=0; for(int z=0;z<n[2];z++) for(int y=0;y<n[1];y++) for(int x=0;x<n[0];x++,c++){ static const int D[8][3]={{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; int o[3]={x,y,z}; for(int k=0;k<8;k++){ U v=h[c*8+k]; sx_check(v<X.size()/3,"index in range"); sx_check((int)v==((z+D[k][2])*(n[1]+1)+y+D[k][1])*(n[0]+1)+x+D[k][0],"neighbouring cells share their corners"); for(int d=0;d<3;d++) sx_eq(X[v*3+d],(o[d]+D[k][d])*e,"corner of the cell"); } } }
// ------------------------------------------------------------------ signed distance primitives
static double sq(double x){ return x*x; }
SX_ENTRY(sdf_plane){ optl(); double c=sx_real_in("c",-2,2),s=1/(1+c*c),n[3]={(1-c*c)*s*0.6,2*c*s,(1-c*c)*s*0.8},o[3],p[3],m[3]; for(int d=0;d<3;d++){ o[d]=sx_real_in(NM("o",d),-8,8); p[d]=sx_real_in(NM("p",d),-8,8); } dfm2::CPlane<double> P(n,o); double h=P.Projection(m,p[0],p[1],p[2]); double v[3]; for(int d=0;d<3;d++){ sx_eq(m[d],n[d],"normal"); v[d]=p[d]+h*m[d]-o[d]; } sx_eq(v[0]*n[0]+v[1]*n[1]+v[2]*n[2],0,"moving by the depth along the normal reaches the plane"); }
SX_ENTRY(sdf_sphere){ opt(); double r=sx_real_in("r",0.125,8),k=sx_real_in("k",0.125,16); static const double D[3][3]={{2./3,-1./3,2./3},{0.6,0,-0.8},{-6./7,3./7,2./7}}; const double*u=D[sx_choose("dir",3)]; bool out=sx_choose("out",2); VD c; for(int d=0;d<3;d++) c.push_back(sx_real_in(NM("c",d),-8,8)); sx_assume(k<r||k>r); dfm2::CSphere<double> S(r,c,out); double n[3]; double h=S.Projection(n,c[0]+k*u[0],c[1]+k*u[1],c[2]+k*u[2]); sx_eq(h,out?r-k:k-r,"depth is positive inside"); for(int d=0;d<3;d++) sx_eq(n[d],out?u[d]:-u[d],"unit normal"); U io=S.FindInOut(c[0]+k*u[0],c[1]+k*u[1],c[2]+k*u[2]); bool in=sx_fork(k<r); sx_check(io==(in?0u:1u),"inside is 0, outside is 1"); }
// org = point at parameter -s before the hit; the ray meets the sphere / cylinder at the far crossing
SX_ENTRY(ray_sphere){ opt(); sx_opt("float_sqrt",1); double r=sx_real_in("r",0.5,4),x=sx_real_in("x",-8,8),y=sx_real_in("y",-6,6),e=sx_real_in("e",0.25,4); int w=sx_choose("dir",3); VD c={0.5,-1,2}; double d[3]={0,0,0},o[3]={c[0],c[1],c[2]}; d[w]=sx_choose("neg",2)?-e:e; o[w]+=x; o[(w+1)%3]+=y; dfm2::CSphere<double> S(r,c,true); double p[3]={99,99,99}; double g=sq(r)-sq(y); sx_assume((int)(g>1e-3)|(int)(g<-1e-3)); bool hit=S.IntersectionPoint(p,o,d); if(sx_fork(g>0)){ sx_check(hit,"line through the sphere hits it"); near_(sq(p[0]-c[0])+sq(p[1]-c[1])+sq(p[2]-c[2]),r*r,1,"hit point on the sphere"); for(int i=0;i<3;i++) if(i!=w) near_(p[i],o[i],1,"hit point on the line"); double s=(p[w]-c[w])*d[w]; sx_le(0,s,"leaving side of the sphere"); } else sx_check(!hit,"line beside the sphere misses"); }
static const double CD[3][3]={{1,0,0},{0,0.6,0.8},{2,-1,2}},CE[3][2][3]={{{0,1,0},{0,0,1}},{{1,0,0},{0,-0.8,0.6}},{{1./3,2./3,0},{0,0,0}}};
SX_ENTRY(sdf_cylinder){ opt(); double r=sx_real_in("r",0.125,8),k=sx_real_in("k",0.125,16),a=sx_real_in("a",-8,8); int w=sx_choose("dir",3); bool out=sx_choose("out",2); static const double UU[3][3]={{0,0.6,-0.8},{1,0,0},{2./3,2./3,-1./3}}; double cn[3]; for(int d=0;d<3;d++) cn[d]=sx_real_in(NM("c",d),-8,8); sx_assume(k<r||k>r); dfm2::CCylinder<double> S(r,cn,CD[w],out); double p[3],n[3]; for(int d=0;d<3;d++) p[d]=cn[d]+a*CD[w][d]+k*UU[w][d]; double h=S.Projection(n,p[0],p[1],p[2]); near_(h,out?r-k:k-r,1,"depth is positive inside"); for(int d=0;d<3;d++) near_(n[d],out?UU[w][d]:-UU[w][d],1,"unit normal"); U io=S.FindInOut(p[0],p[1],p[2]); bool in=sx_fork(k<r); sx_check(io==(in?0u:1u),"inside is 0, outside is 1"); }
SX_ENTRY(ray_cylinder){ opt(); sx_opt("float_sqrt",1); double r=sx_real_in("r",0.5,4),x=sx_real_in("x",-8,8),y=sx_real_in("y",-6,6); static const double SL[4]={0,0.5,-2,3}; double s=SL[sx_choose("slant",4)],z=sx_real_in("z",-8,8); int w=sx_choose("axis",3); double e=sx_choose("neg",2)?-2:0.5; double cn[3]={0.5,-1,2},dir[3]={0,0,0},d[3]={0,0,0},o[3]={cn[0],cn[1],cn[2]}; dir[w]=sx_choose("long",2)?3:1; int u=(w+1)%3,v=(w+2)%3; d[u]=e; d[w]=s; o[u]+=x; o[v]+=y; o[w]+=z; dfm2::CCylinder<double> S(r,cn,dir,true); double p[3]={99,99,99}; double g=sq(r)-sq(y); sx_assume((int)(g>1e-3)|(int)(g<-1e-3)); bool hit=S.IntersectionPoint(p,o,d); if(sx_fork(g>0)){ sx_check(hit,"line through the cylinder hits it"); near_(sq(p[u]-cn[u])+sq(p[v]-cn[v]),r*r,1,"hit point on the cylinder"); near_(p[v],o[v],1,"hit point on the line"); near_((p[w]-o[w])*e,(p[u]-o[u])*s,100,"hit point on the line"); sx_le(0,(p[u]-cn[u])*e,"leaving side of the cylinder"); } else sx_check(!hit,"line beside the cylinder misses"); }
SX_ENTRY(sdf_torus){ opt(); double R=sx_real_in("R",0.5,4),b=sx_real_in("b",0.0625,0.4375),k=sx_real_in("k",0.03125,0.46875); static const double CP[4][2]={{1,0},{0.6,0.8},{-0.8,0.6},{-5./13,-12./13}}; const double*ph=CP[sx_choose("lon",4)],*th=CP[sx_choose("mer",4)]; dfm2::CTorus<double> S; S.radius_=R; S.radius_tube_=b; double c[3]; for(int d=0;d<3;d++) S.cent_[d]=c[d]=sx_real_in(NM("c",d),-8,8); double q=R+k*th[0],n[3]; sx_assume(k<b||k>b); double h=S.Projection(n,c[0]+q*ph[0],c[1]+q*ph[1],c[2]+k*th[1]); near_(h,b-k,1,"depth is positive inside"); near_(n[0],th[0]*ph[0],1,"unit normal"); near_(n[1],th[0]*ph[1],1,"unit normal"); near_(n[2],th[1],1,"unit normal"); U io=S.FindInOut(c[0]+q*ph[0],c[1]+q*ph[1],c[2]+k*th[1]); bool in=sx_fork(k<b); sx_check(io==(in?0u:1u),"inside is 0, outside is 1"); }
SX_ENTRY(sdf_torus_axis){ opt(); sx_opt("float_sqrt",1); double R=sx_real_in("R",0.5,4),b=sx_real_in("b",0.0625,0.4375),z=sx_real_in("z",-4,4); dfm2::CTorus<double> S; S.radius_=R; S.radius_tube_=b; double n[3]={7,7,7}; double h=S.Projection(n,0,0,z); near_(sq(b-h),R*R+z*z,1,"distance to the ring"); sx_lt(h,0,"the axis is outside"); near_(sq(n[0])+sq(n[1])+sq(n[2]),1,1,"unit normal"); double p[3]={h*n[0],h*n[1],z+h*n[2]}; near_(sq(p[0])+sq(p[1])+R*R-sq(b)+sq(p[2]),2*R*(R-b*R/(b-h)),20,"moving by the depth along the normal reaches the surface"); }
SX_ENTRY(sdf_box){ opt(); sx_opt("float_sqrt",1); dfm2::CBox<double> B; static const double H[3]={1,0.75,2}; B.hwx=H[0]; B.hwy=H[1]; B.hwz=H[2]; int w=sx_choose("line",3); static const double P[6][2]={{0.3,0.4},{-0.5,1.25},{2.5,-0.25},{1.5,2.75},{-0.1,-0.6},{-1.5,0.1}}; const double*q=P[sx_choose("at",6)]; double p[3],x=sx_real_in("x",-4,4); p[w]=x; p[(w+1)%3]=q[0]; p[(w+2)%3]=q[1]; double n[3]; // distance: outside to the clamped point, inside to the nearest side
  double m0=1e9,out=0; bool in=true; for(int d=0;d<3;d++){ double a=p[d]<0?-p[d]:p[d]; if(sx_fork(a>H[d])){ in=false; out+=sq(a-H[d]); } else { double g=H[d]-a; if(sx_fork(g<m0)) m0=g; } sx_assume((a-H[d])>1e-3||(a-H[d])<-1e-3); } double h=B.Projection(n,p[0],p[1],p[2]); if(in){ near_(h,m0,1,"depth is the distance to the nearest side"); } else { sx_lt(h,0,"depth is negative outside"); near_(h*h,out,1,"distance to the box"); } for(int d=0;d<3;d++){ double z=p[d]+h*n[d]; sx_le(z,H[d]+1e-7,"moving by the depth along the normal reaches the box"); sx_le(-z,H[d]+1e-7,"moving by the depth along the normal reaches the box"); } near_(sq(n[0])+sq(n[1])+sq(n[2]),1,1,"unit normal"); }
