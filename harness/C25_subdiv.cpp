// C25: subdivision and mesh conversion
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <array>
#include <vector>
#include <set>
#include <functional>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/mshsubdiv.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/mshmisc.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef dfm2::CVec3d V; typedef unsigned int U; typedef std::vector<U> VU; typedef std::vector<double> VD;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); }
struct M{ int n,k; VU e; };
// base meshes: consistently oriented manifolds
static const std::vector<M>&quads(){ static std::vector<M> Q={ {4,4,{0,1,2,3}}, {6,4,{0,1,2,3,1,4,5,2}}, {9,4,{0,1,4,3,1,2,5,4,3,4,7,6,4,5,8,7}}, {8,4,{0,3,2,1,4,5,6,7,0,1,5,4,1,2,6,5,2,3,7,6,3,0,4,7}}, {7,4,{0,1,2,3,0,3,4,5,0,5,6,1}}, {8,4,{0,1,5,4,1,2,6,5,2,3,7,6,3,0,4,7}}, {9,4,{0,1,2,3,4,5,6,7}}, {11,4,{0,1,2,3,0,3,4,5,0,5,6,7,0,7,8,9,0,9,10,1}} }; return Q; }
static const std::vector<M>&hexes(){ static std::vector<M> Q={ {8,8,{0,1,2,3,4,5,6,7}}, {12,8,{0,1,2,3,4,5,6,7,1,8,9,2,5,10,11,6}}, {18,8,{0,1,4,3,9,10,13,12, 1,2,5,4,10,11,14,13, 3,4,7,6,12,13,16,15, 4,5,8,7,13,14,17,16}}, {16,8,{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}} }; return Q; }
static const std::vector<M>&tets(){ static std::vector<M> Q={ {4,4,{0,1,2,3}}, {5,4,{0,1,2,3,1,2,3,4}}, {5,4,{0,1,2,3,0,1,3,4,0,1,4,2}}, {8,4,{0,1,3,4,2,3,1,6,5,4,6,1,7,6,4,3,1,3,4,6}}, {8,4,{0,1,2,3,4,5,6,7}} }; return Q; }
// relabel vertices and rotate the corner order of each element (rotations keep the orientation)
static M pick(const std::vector<M>&L){ M m=L[sx_choose("mesh",(int)L.size())]; static const int A[4]={1,3,5,7}; int a=A[sx_choose("stride",T?3:2)],b=sx_choose("shift",T?3:1),rev=sx_choose("rev",2); while(m.n%a==0&&a>1) a+=2; for(auto&v:m.e){ v=(a*v+b)%m.n; if(rev) v=m.n-1-v; } return m; }
static const int RT[12][4]={{0,1,2,3},{0,2,3,1},{0,3,1,2},{1,0,3,2},{1,3,2,0},{1,2,0,3},{2,3,0,1},{2,0,1,3},{2,1,3,0},{3,2,1,0},{3,1,0,2},{3,0,2,1}};
static void turn(M&m,int r){ int ne=(int)m.e.size()/m.k; for(int i=0;i<ne;i++){ U t[8]; for(int j=0;j<m.k;j++) t[j]=m.e[i*m.k+j]; int q=r*(i+1); if(m.n&&m.k==4) for(int j=0;j<4;j++) m.e[i*4+j]=t[(j+q)%4]; else for(int j=0;j<8;j++) m.e[i*8+j]=t[j/4*4+(j+q)%4]; } }
static std::set<std::set<U>> keys(const VU&f,int k){ std::set<std::set<U>> s; for(size_t i=0;i<f.size();i+=k) s.insert(std::set<U>(f.begin()+i,f.begin()+i+k)); return s; }
static double q3(const double*a,const double*b,const double*c){ return a[0]*(b[1]*c[2]-b[2]*c[1])+a[1]*(b[2]*c[0]-b[0]*c[2])+a[2]*(b[0]*c[1]-b[1]*c[0]); }
static double tetvol(const double*a,const double*b,const double*c,const double*d){ double u[3],v[3],w[3]; for(int i=0;i<3;i++){ u[i]=b[i]-a[i]; v[i]=c[i]-a[i]; w[i]=d[i]-a[i]; } return q3(u,v,w)/6; }
// ------------------------------------------------------------------ quads
// the directed edges of the children: each at most once; those without partner are the halves of the parent's
static void edges_of(const VU&q,int k,std::set<std::pair<U,U>>&E,const char*m){ for(size_t i=0;i<q.size();i+=k) for(int j=0;j<k;j++){ auto e=std::make_pair(q[i+j],q[i+(j+1)%k]); sx_check(e.first!=e.second,m); sx_check(E.insert(e).second,m); } }
SX_ENTRY(quad){ opt(); M m=pick(quads()); turn(m,sx_choose("turn",4)); VU q1,pi,ps,ef; int nq=(int)m.e.size()/4; dfm2::SubdivTopo_MeshQuad(q1,pi,ps,ef,m.e.data(),nq,m.n); std::set<std::set<U>> ed; for(int i=0;i<nq;i++) for(int j=0;j<4;j++) ed.insert({m.e[i*4+j],m.e[i*4+(j+1)%4]}); int ne=(int)ed.size(),np=m.n; sx_check((int)ps.size()==ne,"one new vertex per edge"); sx_check((int)pi.size()==np+1,"edge list covers every vertex"); sx_check((int)ef.size()==4*ne,"edge table"); sx_check((int)q1.size()==16*nq,"four children per quad");
  auto eid=[&](U a,U b)->U{ for(U e=0;e<(U)ne;e++) if((ef[e*4]==a&&ef[e*4+1]==b)||(ef[e*4]==b&&ef[e*4+1]==a)) return np+e; return UINT_MAX; };
  for(int p=0;p<np;p++) for(U k=pi[p];k<pi[p+1];k++){ sx_check(ef[k*4]==(U)p,"edge table follows the edge list"); sx_check(ef[k*4+1]==ps[k],"edge table follows the edge list"); }
  for(int e=0;e<ne;e++){ std::set<U> f; if(ef[e*4+2]!=UINT_MAX) f.insert(ef[e*4+2]); if(ef[e*4+3]!=UINT_MAX) f.insert(ef[e*4+3]); std::set<U> g; for(int i=0;i<nq;i++) for(int j=0;j<4;j++){ U a=m.e[i*4+j],b=m.e[i*4+(j+1)%4]; if((a==ef[e*4]&&b==ef[e*4+1])||(b==ef[e*4]&&a==ef[e*4+1])) g.insert(i); } sx_check(f==g,"quads touching an edge"); }
  for(int i=0;i<nq;i++){ std::set<std::vector<U>> W; for(int j=0;j<4;j++){ U v=m.e[i*4+j],n=m.e[i*4+(j+1)%4],p=m.e[i*4+(j+3)%4]; std::vector<U> c={v,eid(v,n),(U)(np+ne+i),eid(p,v)}; std::rotate(c.begin(),std::min_element(c.begin(),c.end()),c.end()); W.insert(c); } std::set<std::vector<U>> G; for(int j=0;j<4;j++){ std::vector<U> c(q1.begin()+16*i+4*j,q1.begin()+16*i+4*j+4); std::rotate(c.begin(),std::min_element(c.begin(),c.end()),c.end()); G.insert(c); } sx_check(W==G,"children: corner, edge point, face point, edge point"); } std::set<std::pair<U,U>> E; edges_of(q1,4,E,"children are consistently oriented"); }
static VD coords(int n,int freeN,double s){ VD X; for(int i=0;i<n;i++){ double c[3]={(double)(i%3)+0.25*(i/5),(double)(i/3%3)-0.5*(i%2),(double)(i*i%7)}; for(int d=0;d<3;d++) X.push_back(i<freeN?sx_real_in(NM("x",i*3+d),-s,s):c[d]); } return X; }
SX_ENTRY(quad_points){ optl(); M m=pick(quads()); VU q1,pi,ps,ef; int nq=(int)m.e.size()/4; dfm2::SubdivTopo_MeshQuad(q1,pi,ps,ef,m.e.data(),nq,m.n); int ne=(int)ps.size(),np=m.n; VD X=coords(np,4,8),Y,Z; std::vector<int> ei(ef.begin(),ef.end()); dfm2::SubdivPoints3_MeshQuad(Y,ei,m.e,X); sx_check((int)Y.size()==3*(np+ne+nq),"number of points"); for(int i=0;i<np*3;i++) sx_eq(Y[i],X[i],"old points stay"); for(int e=0;e<ne;e++) for(int d=0;d<3;d++) sx_eq(2*Y[(np+e)*3+d],X[ef[e*4]*3+d]+X[ef[e*4+1]*3+d],"edge point is the middle"); for(int i=0;i<nq;i++) for(int d=0;d<3;d++){ double s=0; for(int j=0;j<4;j++) s+=X[m.e[i*4+j]*3+d]; sx_eq(4*Y[(np+ne+i)*3+d],s,"face point is the mean"); }
  for(int i=0;i<nq;i++){ for(int d=0;d<3;d++){ int a=(d+1)%3,b=(d+2)%3; double s=0,t=0; auto va=[&](const VD&P,const U*q){ return ((P[q[2]*3+a]-P[q[0]*3+a])*(P[q[3]*3+b]-P[q[1]*3+b])-(P[q[2]*3+b]-P[q[0]*3+b])*(P[q[3]*3+a]-P[q[1]*3+a]))/2; }; for(int j=0;j<4;j++) s+=va(Y,&q1[16*i+4*j]); t=va(X,&m.e[4*i]); sx_eq(s,t,"children cover the vector area of the parent"); } }
  // Catmull-Clark
  dfm2::SubdivisionPoints_QuadCatmullClark(Z,q1,ef,pi,ps,m.e.data(),nq,X.data(),np); sx_check(Z.size()==Y.size(),"number of points"); std::vector<int> bd(np,0); for(int e=0;e<ne;e++) if(ef[e*4+3]==UINT_MAX) bd[ef[e*4]]=bd[ef[e*4+1]]=1; for(int d=0;d<3;d++){ for(int i=0;i<nq;i++) sx_eq(Z[(np+ne+i)*3+d],Y[(np+ne+i)*3+d],"face point is the mean"); for(int e=0;e<ne;e++){ double mid=X[ef[e*4]*3+d]+X[ef[e*4+1]*3+d]; if(ef[e*4+3]==UINT_MAX) sx_eq(2*Z[(np+e)*3+d],mid,"boundary edge point is the middle"); else sx_eq(4*Z[(np+e)*3+d],mid+Y[(np+ne+ef[e*4+2])*3+d]+Y[(np+ne+ef[e*4+3])*3+d],"edge point averages the ends and the faces"); } for(int v=0;v<np;v++){ int nf=0; double F=0,R=0; for(int i=0;i<nq;i++) for(int j=0;j<4;j++) if((int)m.e[i*4+j]==v){ nf++; F+=Y[(np+ne+i)*3+d]; } for(int e=0;e<ne;e++) if((int)ef[e*4]==v||(int)ef[e*4+1]==v) R+=(X[ef[e*4]*3+d]+X[ef[e*4+1]*3+d])/2; if(nf==0) continue; if(bd[v]) sx_eq(Z[v*3+d],X[v*3+d],"boundary points stay"); else sx_eq(Z[v*3+d]*nf,F/nf+2*R/nf+(nf-3)*X[v*3+d],"vertex rule"); } } }
// ------------------------------------------------------------------ hexahedra
static const int HF[6][4]={{0,4,7,3},{1,2,6,5},{0,1,5,4},{3,7,6,2},{0,3,2,1},{4,5,6,7}};
static void hexfaces(const VU&h,std::vector<std::array<U,4>>&F){ for(size_t i=0;i<h.size();i+=8) for(int f=0;f<6;f++){ std::array<U,4> a; for(int j=0;j<4;j++) a[j]=h[i+HF[f][j]]; F.push_back(a); } }
static bool opposite(const std::array<U,4>&a,const std::array<U,4>&b){ for(int r=0;r<4;r++){ bool k=true; for(int j=0;j<4;j++) k&=a[j]==b[(r+4-j)%4]; if(k) return true; } return false; }
static int free_faces(const VU&h,const char*m){ std::vector<std::array<U,4>> F; hexfaces(h,F); std::set<std::set<U>> seen; int open=0; for(size_t i=0;i<F.size();i++){ int c=0,o=0; std::set<U> s(F[i].begin(),F[i].end()); sx_check(s.size()==4,"four distinct corners"); for(size_t j=0;j<F.size();j++) if(j!=i){ std::set<U> t(F[j].begin(),F[j].end()); if(s==t){ c++; o+=opposite(F[i],F[j]); } } sx_check(c<=1,m); sx_check(c==o,m); open+=c==0; } return open; }
SX_ENTRY(hex){ opt(); M m=pick(hexes()); turn(m,sx_choose("turn",T?4:2)); VU h1,pi,ps,qf; int nh=(int)m.e.size()/8; dfm2::SubdivTopo_MeshHex(h1,pi,ps,qf,m.e.data(),nh,m.n); std::set<std::set<U>> ed,fa; static const int HE[12][2]={{0,1},{1,2},{2,3},{3,0},{4,5},{5,6},{6,7},{7,4},{0,4},{1,5},{2,6},{3,7}}; for(int i=0;i<nh;i++){ for(auto&e:HE) ed.insert({m.e[i*8+e[0]],m.e[i*8+e[1]]}); for(auto&f:HF) fa.insert({m.e[i*8+f[0]],m.e[i*8+f[1]],m.e[i*8+f[2]],m.e[i*8+f[3]]}); } int np=m.n,ne=(int)ed.size(),nf=(int)fa.size(); sx_check((int)ps.size()==ne,"one new vertex per edge"); sx_check((int)qf.size()==4*nf,"one new vertex per face"); sx_check(keys(qf,4)==fa,"face list"); sx_check((int)h1.size()==64*nh,"eight children per element"); for(U v:h1) sx_check(v<(U)(np+ne+nf+nh),"index in range"); int b0=free_faces(m.e,"parents are consistent"),b1=free_faces(h1,"children are consistently oriented"); sx_check(b1==4*b0,"boundary is split in four");
  // corner k of the parent, its edge, face and centre points in every child
  std::vector<std::set<U>> own(np+ne+nf+nh); for(int p=0;p<np;p++){ own[p]={(U)p}; for(U k=pi[p];k<pi[p+1];k++) own[np+k]={(U)p,ps[k]}; } for(int f=0;f<nf;f++) own[np+ne+f]=std::set<U>(qf.begin()+4*f,qf.begin()+4*f+4); for(int i=0;i<nh;i++) own[np+ne+nf+i]=std::set<U>(m.e.begin()+8*i,m.e.begin()+8*i+8); for(int i=0;i<nh;i++){ std::set<U> corners; for(int j=0;j<8;j++){ const U*c=&h1[i*64+j*8]; int cnt[9]={0}; std::set<U> seen; for(int k=0;k<8;k++){ cnt[own[c[k]].size()]++; seen.insert(c[k]); for(U v:own[c[k]]) sx_check(std::count(m.e.begin()+8*i,m.e.begin()+8*i+8,v)==1,"child belongs to its parent"); if(own[c[k]].size()==1) corners.insert(c[k]); } sx_check(seen.size()==8,"eight distinct corners"); sx_check(cnt[1]==1&&cnt[2]==3&&cnt[4]==3&&cnt[8]==1,"child: corner, three edge points, three face points, centre"); sx_check(c[j]==m.e[i*8+j],"child keeps the parent's corner in place"); } sx_check(corners.size()==8,"one child per corner"); } }
static double hexvol(const VD&X,const U*h){ double s=0; for(auto&f:HF){ const double*a=&X[h[f[0]]*3],*b=&X[h[f[1]]*3],*c=&X[h[f[2]]*3],*d=&X[h[f[3]]*3]; s+=(q3(a,b,c)+q3(a,c,d)+q3(b,c,d)+q3(b,d,a))/12; } return s; }
SX_ENTRY(hex_points){ optl(); int b=sx_choose("mesh",3); M m=hexes()[b]; turn(m,sx_choose("turn",4)); VU h1,pi,ps,qf; int nh=(int)m.e.size()/8,np=m.n; dfm2::SubdivTopo_MeshHex(h1,pi,ps,qf,m.e.data(),nh,np); int ne=(int)ps.size(),nf=(int)qf.size()/4; VD X; static const double G[8][3]={{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; X=coords(np,0,8); if(b==0) for(int i=0;i<8;i++) for(int d=0;d<3;d++) X[i*3+d]=G[i][d]; int w=sx_choose("free",np); for(int d=0;d<3;d++) X[w*3+d]=sx_real_in(NM("x",d),-8,8); VD Y; dfm2::SubdivisionPoints_Hex(Y,pi,ps,qf,m.e.data(),nh,X.data(),np); sx_check((int)Y.size()==3*(np+ne+nf+nh),"number of points"); for(int d=0;d<3;d++){ for(int p=0;p<np;p++){ sx_eq(Y[p*3+d],X[p*3+d],"old points stay"); for(U k=pi[p];k<pi[p+1];k++) sx_eq(2*Y[(np+k)*3+d],X[p*3+d]+X[ps[k]*3+d],"edge point is the middle"); } for(int f=0;f<nf;f++){ double s=0; for(int j=0;j<4;j++) s+=X[qf[f*4+j]*3+d]; sx_eq(4*Y[(np+ne+f)*3+d],s,"face point is the mean"); } for(int i=0;i<nh;i++){ double s=0; for(int j=0;j<8;j++) s+=X[m.e[i*8+j]*3+d]; sx_eq(8*Y[(np+ne+nf+i)*3+d],s,"centre is the mean"); } }
  for(int i=0;i<nh;i++){ double s=0; for(int j=0;j<8;j++) s+=hexvol(Y,&h1[i*64+j*8]); sx_eq(s,hexvol(X,&m.e[i*8]),"children fill the parent"); } }
// ------------------------------------------------------------------ tetrahedra
SX_ENTRY(tet){ opt(); M m=pick(tets()); int r=sx_choose("turn",12),nt=(int)m.e.size()/4,np=m.n; for(int i=0;i<nt;i++){ U t[4]; for(int j=0;j<4;j++) t[j]=m.e[i*4+j]; for(int j=0;j<4;j++) m.e[i*4+j]=t[RT[(r*(i+1))%12][j]]; } VU t1,pi,ps; dfm2::SubdivTopo_MeshTet(t1,pi,ps,m.e.data(),nt,np); std::set<std::set<U>> ed; for(int i=0;i<nt;i++) for(int a=0;a<4;a++) for(int b=0;b<a;b++) ed.insert({m.e[i*4+a],m.e[i*4+b]}); int ne=(int)ed.size(); sx_check((int)ps.size()==ne,"one new vertex per edge"); sx_check((int)t1.size()==32*nt,"eight children per element"); for(U v:t1) sx_check(v<(U)(np+ne),"index in range");
  VD X=coords(np,0,8),Y; for(int d=0;d<3;d++) X[m.e[0]*3+d]=sx_real_in(NM("x",d),-8,8); Y=X; Y.resize(3*(np+ne)); for(int p=0;p<np;p++) for(U k=pi[p];k<pi[p+1];k++) for(int d=0;d<3;d++) Y[(np+k)*3+d]=(X[p*3+d]+X[ps[k]*3+d])/2; for(int i=0;i<nt;i++){ double v=tetvol(&X[m.e[i*4]*3],&X[m.e[i*4+1]*3],&X[m.e[i*4+2]*3],&X[m.e[i*4+3]*3]); for(int j=0;j<8;j++){ const U*c=&t1[(i*8+j)*4]; sx_eq(8*tetvol(&Y[c[0]*3],&Y[c[1]*3],&Y[c[2]*3],&Y[c[3]*3]),v,"each child has an eighth of the volume"); } }
  // conforming: a face is shared by at most two children, once per orientation; boundary faces are quartered
  static const int TF[4][3]={{1,2,3},{0,3,2},{0,1,3},{0,2,1}}; auto open=[&](const VU&e){ int c=0; for(size_t i=0;i<e.size();i+=4) for(auto&f:TF){ std::set<U> s={e[i+f[0]],e[i+f[1]],e[i+f[2]]}; int k=0; for(size_t j=0;j<e.size();j+=4) for(auto&g:TF) if(j!=i&&s==std::set<U>{e[j+g[0]],e[j+g[1]],e[j+g[2]]}) k++; sx_check(k<=1,"a face has at most two elements"); c+=k==0; } return c; }; sx_check(open(t1)==4*open(m.e),"boundary is split in four"); }
// ------------------------------------------------------------------ extrusion of triangles to tetrahedra
SX_ENTRY(extrude){ opt(); static const std::vector<M> L={ {3,3,{0,1,2}}, {4,3,{0,1,2,0,2,3}}, {5,3,{0,1,4,1,2,4,2,3,4,3,0,4}}, {6,3,{0,1,2,2,1,3,2,3,4,4,3,5}} }; int b=sx_choose("mesh",4); M m=L[b]; int nl=1+sx_choose("layers",T?3:2); static const double P[4][12]={{0,0,2,0,0,3},{0,0,3,0,3,2,0,2},{0,0,4,0,4,4,0,4,2,1},{0,0,1,0,0,1,2,1,1,2,3,2}}; VD xy(2*m.n); std::vector<int> pm(m.n); for(int i=0;i<m.n;i++) pm[i]=i; // any relabelling
  for(int i=m.n-1;i>0&&i>m.n-(T?5:3);i--) std::swap(pm[i],pm[sx_choose(NM("perm",i),i+1)]); for(int i=0;i<m.n;i++) for(int d=0;d<2;d++) xy[pm[i]*2+d]=P[b][i*2+d]; for(auto&v:m.e) v=pm[v]; int w=sx_choose("free",2); double s=sx_real_in("s",-0.25,0.25); xy[2*w]+=s; xy[2*w+1]-=s/2; double h=sx_real_in("h",0.125,8); VD X; VU t; dfm2::ExtrudeTri2Tet(nl,h,X,t,xy,m.e); int nt=(int)m.e.size()/3; sx_check((int)X.size()==3*m.n*(nl+1),"number of points"); sx_check((int)t.size()==12*nt*nl,"three tetrahedra per prism"); for(int l=0;l<=nl;l++) for(int i=0;i<m.n;i++){ sx_eq(X[(l*m.n+i)*3],xy[i*2],"layer is a copy"); sx_eq(X[(l*m.n+i)*3+1],xy[i*2+1],"layer is a copy"); sx_eq(X[(l*m.n+i)*3+2],l*h,"layer height"); } for(U v:t) sx_check(v<(U)(m.n*(nl+1)),"index in range"); for(int l=0;l<nl;l++) for(int i=0;i<nt;i++){ double A=0; for(int j=0;j<3;j++){ const double*a=&xy[2*m.e[i*3+j]],*c=&xy[2*m.e[i*3+(j+1)%3]]; A+=(a[0]*c[1]-a[1]*c[0])/2; } for(int j=0;j<3;j++){ const U*c=&t[((l*nt+i)*3+j)*4]; sx_eq(3*tetvol(&X[c[0]*3],&X[c[1]*3],&X[c[2]*3],&X[c[3]*3]),A*h,"each tetrahedron is a third of the prism"); } }
  static const int TF[4][3]={{1,2,3},{0,3,2},{0,1,3},{0,2,1}}; int c=0; for(size_t i=0;i<t.size();i+=4) for(auto&f:TF){ std::set<U> s={t[i+f[0]],t[i+f[1]],t[i+f[2]]}; int k=0; for(size_t j=0;j<t.size();j+=4) for(auto&g:TF) if(j!=i&&s==std::set<U>{t[j+g[0]],t[j+g[1]],t[j+g[2]]}) k++; sx_check(k<=1,"a face has at most two tetrahedra"); c+=k==0; } int be=0; for(int i=0;i<nt;i++) for(int j=0;j<3;j++){ U a=m.e[i*3+j],z=m.e[i*3+(j+1)%3]; int k=0; for(int p=0;p<nt;p++) for(int q=0;q<3;q++) k+=m.e[p*3+q]==z&&m.e[p*3+(q+1)%3]==a; be+=k==0; } sx_check(c==2*nt+2*be*nl,"prisms match across their sides"); }
// ------------------------------------------------------------------ removing unreferenced points, appending meshes
SX_ENTRY(unreferenced){ opt(); int nd=2+sx_choose("ndim",2),np=T?6:5; VD X; for(int i=0;i<np*nd;i++) X.push_back(sx_real_in(NM("x",i),-8,8)); VU e; int n=sx_choose("n",T?6:5); for(int i=0;i<n;i++) e.push_back(sx_choose(NM("e",i),np)); VD Y; VU e1; std::vector<int> mp; dfm2::RemoveUnreferencedPoints_MeshElem(Y,e1,mp,nd,X,e); std::set<U> used(e.begin(),e.end()); sx_check(Y.size()==used.size()*nd,"referenced points are kept"); sx_check(e1.size()==e.size(),"elements are kept"); sx_check((int)mp.size()==np,"map of the points"); for(size_t i=0;i<e.size();i++){ sx_check(e1[i]<used.size(),"index in range"); sx_check(mp[e[i]]==(int)e1[i],"map agrees with the elements"); for(int d=0;d<nd;d++) sx_eq(Y[e1[i]*nd+d],X[e[i]*nd+d],"corner keeps its position"); } for(int p=0;p<np;p++) if(!used.count(p)) sx_check(mp[p]<0,"unreferenced point has no image"); for(int p=0;p<np;p++) for(int q=0;q<p;q++) if(used.count(p)&&used.count(q)) sx_check(mp[p]!=mp[q],"points are not merged"); }
SX_ENTRY(append){ opt(); int a=sx_choose("a",3),b=sx_choose("b",3); VD X,Y; for(int i=0;i<3*(a?a+2:0);i++) X.push_back(sx_real_in(NM("x",i),-8,8)); for(int i=0;i<3*(b?b+2:0);i++) Y.push_back(sx_real_in(NM("y",i),-8,8)); VU t,s; for(int i=0;i<a;i++) for(int j=0;j<3;j++) t.push_back(i+j); for(int i=0;i<b;i++) for(int j=0;j<3;j++) s.push_back(i+2-j); VD Z=X; VU r=t; dfm2::AddMesh(Z,r,Y,s); sx_check(Z.size()==X.size()+Y.size(),"points are appended"); sx_check(r.size()==t.size()+s.size(),"elements are appended"); for(size_t i=0;i<t.size();i++) for(int d=0;d<3;d++) sx_eq(Z[r[i]*3+d],X[t[i]*3+d],"corner keeps its position"); for(size_t i=0;i<s.size();i++){ sx_check(r[t.size()+i]<Z.size()/3,"index in range"); for(int d=0;d<3;d++) sx_eq(Z[r[t.size()+i]*3+d],Y[s[i]*3+d],"corner keeps its position"); } }
// lookups used by the subdivision
SX_ENTRY(lookup){ opt(); M m=quads()[sx_choose("mesh",(int)quads().size())]; int nq=(int)m.e.size()/4; VU ei,es,pi,ps; dfm2::JArray_ElSuP_MeshElem(ei,es,m.e.data(),nq,4,m.n); dfm2::JArrayEdge_MeshElem(pi,ps,m.e.data(),dfm2::MESHELEM_QUAD,ei,es,false); for(int a=0;a<m.n;a++) for(int b=0;b<m.n;b++){ if(a==b) continue; U k=dfm2::findEdge(a,b,pi,ps); bool ex=false; for(int i=0;i<nq;i++) for(int j=0;j<4;j++){ int x=m.e[i*4+j],y=m.e[i*4+(j+1)%4]; ex|=(x==a&&y==b)||(x==b&&y==a); } sx_check((k!=UINT_MAX)==ex,"edge is found exactly when it exists"); if(k!=UINT_MAX){ sx_check(k<ps.size(),"index in range"); int lo=a<b?a:b,hi=a<b?b:a; sx_check((int)ps[k]==hi&&k>=pi[lo]&&k<pi[lo+1],"edge lies in the row of its smaller end"); sx_check(dfm2::findEdge(b,a,pi,ps)==k,"either direction"); } } int f=sx_choose("face",nq),r=sx_choose("rot",4),o=sx_choose("flip",2); U c[4]; for(int j=0;j<4;j++) c[j]=m.e[f*4+(o?(r+4-j)%4:(r+j)%4)]; sx_check(dfm2::findFace(c[0],c[1],c[2],c[3],m.e,ei,es)==f,"face is found from any corner order"); U z=c[3]; for(int v=0;v<m.n;v++){ bool in=false; for(int j=0;j<4;j++) in|=(int)c[j]==v; if(!in){ int g=dfm2::findFace(c[0],c[1],c[2],v,m.e,ei,es); std::set<U> s={c[0],c[1],c[2],(U)v}; bool e2=false; for(int i=0;i<nq;i++) e2|=s==std::set<U>(m.e.begin()+4*i,m.e.begin()+4*i+4); sx_check((g>=0)==e2,"face is found exactly when it exists"); } } (void)z; }
