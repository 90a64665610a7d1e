// C28: voxel grids and cube grids
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include "delfem2/gridvoxel.h"
#include "delfem2/gridcube.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef std::vector<U> VU; typedef std::vector<double> VD; typedef std::vector<int> VI;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",20000000); sx_opt("steps_are_violation",1); }
static const int DIM[8][3]={{1,1,1},{3,1,1},{1,3,1},{1,1,3},{2,2,1},{2,1,2},{1,3,2},{2,2,2}};
static VI occ(int n,bool bits=true){ VI v; for(int i=0;i<n;i++) v.push_back(sx_choose(NM("v",i),2)); (void)bits; return v; }
static int NB[6][3]={{-1,0,0},{1,0,0},{0,-1,0},{0,1,0},{0,0,-1},{0,0,1}};
static bool in(const int*d,int x,int y,int z){ return x>=0&&y>=0&&z>=0&&x<d[0]&&y<d[1]&&z<d[2]; }
static int xm(const int*d,int x,int y,int z){ return (x*d[1]+y)*d[2]+z; }  // z fastest
static int zm(const int*d,int x,int y,int z){ return (z*d[1]+y)*d[0]+x; }  // x fastest
SX_ENTRY(surface){ opt(); int c=sx_choose("dim",T?8:8); const int*d=DIM[c]; int n=d[0]*d[1]*d[2]; VI v=occ(n); VD X; VU q; if(sx_choose("stale",1)) q.push_back(3); dfm2::MeshQuad3D_VoxelGrid(X,q,d[0],d[1],d[2],v); int np=(d[0]+1)*(d[1]+1)*(d[2]+1); sx_check((int)X.size()==3*np,"number of points"); sx_check(q.size()%4==0,"whole quads"); // expected faces: (cell, side)
  std::vector<int> seen(n*6,0); int want=0; for(int x=0;x<d[0];x++) for(int y=0;y<d[1];y++) for(int z=0;z<d[2];z++) if(v[xm(d,x,y,z)]) for(auto&b:NB) want+=!in(d,x+b[0],y+b[1],z+b[2])||!v[xm(d,x+b[0],y+b[1],z+b[2])]; sx_check((int)q.size()==4*want,"one quad per face between a filled and an empty cell"); std::map<std::pair<U,U>,int> E; for(size_t i=0;i<q.size();i+=4){ double s[3]={0,0,0}; for(int k=0;k<4;k++){ sx_check(q[i+k]<(U)np,"index in range"); for(int a=0;a<3;a++) s[a]+=X[q[i+k]*3+a]; E[{q[i+k],q[i+(k+1)%4]}]++; } const double*p0=&X[q[i]*3],*p1=&X[q[i+1]*3],*p2=&X[q[i+2]*3]; double nn[3]; for(int a=0;a<3;a++){ int b=(a+1)%3,e=(a+2)%3; nn[a]=(p1[b]-p0[b])*(p2[e]-p0[e])-(p1[e]-p0[e])*(p2[b]-p0[b]); } int f=-1; for(int k=0;k<6;k++) if(nn[0]==NB[k][0]&&nn[1]==NB[k][1]&&nn[2]==NB[k][2]) f=k; sx_check(f>=0,"unit square along the axes"); int cc[3]; for(int a=0;a<3;a++) cc[a]=(int)std::floor(s[a]/4-0.5*NB[f][a]); sx_check(in(d,cc[0],cc[1],cc[2])&&v[xm(d,cc[0],cc[1],cc[2])],"quad faces away from a filled cell"); int id=xm(d,cc[0],cc[1],cc[2])*6+f; sx_check(!seen[id],"each face appears once"); seen[id]=1; bool o=in(d,cc[0]+NB[f][0],cc[1]+NB[f][1],cc[2]+NB[f][2])&&v[xm(d,cc[0]+NB[f][0],cc[1]+NB[f][1],cc[2]+NB[f][2])]; sx_check(!o,"quad faces an empty cell"); } for(auto&e:E){ auto r=E.find({e.first.second,e.first.first}); sx_check(r!=E.end()&&r->second==e.second,"surface is closed: edges are matched by their opposites"); } }
static double tv(const VD&X,const int*t){ double u[3][3]; for(int k=0;k<3;k++) for(int a=0;a<3;a++) u[k][a]=X[t[k+1]*3+a]-X[t[0]*3+a]; return (u[0][0]*(u[1][1]*u[2][2]-u[1][2]*u[2][1])+u[0][1]*(u[1][2]*u[2][0]-u[1][0]*u[2][2])+u[0][2]*(u[1][0]*u[2][1]-u[1][1]*u[2][0]))/6; }
SX_ENTRY(hex){ opt(); int c=sx_choose("dim",8); const int*d=DIM[c]; int n=d[0]*d[1]*d[2]; VI v=occ(n); VD X; VI h; dfm2::MeshHex3D_VoxelGrid(X,h,d[0],d[1],d[2],v); int np=(d[0]+1)*(d[1]+1)*(d[2]+1),cnt=0; for(int a:v) cnt+=a; sx_check((int)X.size()==3*np,"number of points"); sx_check((int)h.size()==8*cnt,"one element per filled cell"); std::vector<int> seen(n,0); static const int C[8][3]={{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; for(size_t i=0;i<h.size();i+=8){ sx_check(h[i]>=0&&h[i]<np,"index in range"); int o[3]; for(int a=0;a<3;a++) o[a]=(int)X[h[i]*3+a]; sx_check(in(d,o[0],o[1],o[2])&&v[xm(d,o[0],o[1],o[2])]&&!seen[xm(d,o[0],o[1],o[2])],"filled cell, once"); seen[xm(d,o[0],o[1],o[2])]=1; for(int k=0;k<8;k++){ sx_check(h[i+k]>=0&&h[i+k]<np,"index in range"); for(int a=0;a<3;a++) sx_eq(X[h[i+k]*3+a],o[a]+C[k][a],"corners of the cell in order"); } } }
static const int TF[4][3]={{1,2,3},{0,3,2},{0,1,3},{0,2,1}};
SX_ENTRY(tet){ opt(); int c=sx_choose("dim",T?8:7); const int*d=DIM[c]; int n=d[0]*d[1]*d[2]; VI v=occ(n); VD X; VI h; dfm2::MeshTet3D_VoxelGrid(X,h,d[0],d[1],d[2],v); int np=(d[0]+1)*(d[1]+1)*(d[2]+1),cnt=0; for(int a:v) cnt+=a; sx_check((int)h.size()==24*cnt,"six tetrahedra per filled cell"); std::vector<int> per(n,0); for(size_t i=0;i<h.size();i+=4){ double o[3]={0,0,0}; for(int k=0;k<4;k++){ sx_check(h[i+k]>=0&&h[i+k]<np,"index in range"); for(int a=0;a<3;a++) o[a]+=X[h[i+k]*3+a]/4; } int q[3]; for(int a=0;a<3;a++) q[a]=(int)std::floor(o[a]); sx_check(in(d,q[0],q[1],q[2])&&v[xm(d,q[0],q[1],q[2])],"tetrahedron lies in a filled cell"); per[xm(d,q[0],q[1],q[2])]++; for(int k=0;k<4;k++) for(int a=0;a<3;a++){ double r=X[h[i+k]*3+a]-q[a]; sx_check(r==0||r==1,"corners of one cell"); } sx_eq(6*tv(X,&h[i]),1,"a sixth of the cell, positively oriented"); } for(int i=0;i<n;i++) sx_check(per[i]==6*v[i],"six tetrahedra per filled cell"); 
  // faces: at most two tetrahedra; those with one lie between a filled and an empty cell, two per such face
  int want=0; for(int x=0;x<d[0];x++) for(int y=0;y<d[1];y++) for(int z=0;z<d[2];z++) if(v[xm(d,x,y,z)]) for(auto&b:NB) want+=!in(d,x+b[0],y+b[1],z+b[2])||!v[xm(d,x+b[0],y+b[1],z+b[2])]; std::map<std::set<int>,int> F; for(size_t i=0;i<h.size();i+=4) for(auto&f:TF) F[{h[i+f[0]],h[i+f[1]],h[i+f[2]]}]++; int open=0; for(auto&f:F){ sx_check(f.second<=2,"a face has at most two tetrahedra"); open+=f.second==1; } sx_check(open==2*want,"tetrahedra of neighbouring cells match"); }
SX_ENTRY(adjacent){ opt(); int d[3]; for(int a=0;a<3;a++) d[a]=1+sx_choose(NM("d",a),T?4:3); int x=sx_choose("x",d[0]),y=sx_choose("y",d[1]),z=sx_choose("z",d[2]); for(int f=0;f<6;f++){ int r=dfm2::Adj_Grid(xm(d,x,y,z),f,d[0],d[1],d[2]); int X=x+NB[f][0],Y=y+NB[f][1],Z=z+NB[f][2]; sx_check(r==(in(d,X,Y,Z)?xm(d,X,Y,Z):-1),"neighbour across a side"); } dfm2::CGrid3<int> g; g.Initialize(d[0],d[1],d[2],7); g.Set(x,y,z,1); sx_check((int)g.aVal.size()==d[0]*d[1]*d[2],"one value per cell"); for(int i=0;i<(int)g.aVal.size();i++) sx_check(g.aVal[i]==(i==xm(d,x,y,z)?1:7),"only the given cell is set"); VI c=g.aVal; static const int O[6]={-1,0,0,0,0,0}; (void)O; g.Set(-1,y,z,3); g.Set(d[0],y,z,3); g.Set(x,d[1],z,3); g.Set(x,-1,z,3); g.Set(x,y,d[2],3); g.Set(x,y,-5,3); sx_check(c==g.aVal,"cells outside are ignored"); sx_check(g.IsInclude(x,y,z)&&!g.IsInclude(d[0],y,z)&&!g.IsInclude(x,d[1],z)&&!g.IsInclude(x,y,d[2]),"inclusion"); }
SX_ENTRY(aabb){ opt(); sx_opt("fork_select",2); int b[8]={1,-1,0,0,0,0,0,0},lo[3],hi[3]; int n=1+sx_choose("n",T?3:2); for(int i=0;i<n;i++){ int p[3]; for(int a=0;a<3;a++){ p[a]=sx_int(NM("p",i*3+a),-1000,1000); } dfm2::Add_AABB(b,p[0],p[1],p[2]); for(int a=0;a<3;a++){ lo[a]=i==0||sx_fork(p[a]<lo[a])?p[a]:lo[a]; hi[a]=i==0||sx_fork(p[a]+1>hi[a])?p[a]+1:hi[a]; } for(int a=0;a<3;a++){ sx_check(b[2*a]==lo[a],"smallest box of the added cells"); sx_check(b[2*a+1]==hi[a],"smallest box of the added cells"); } sx_check(dfm2::IsInclude_AABB(b,p[0],p[1],p[2]),"added cell is inside"); sx_check(!dfm2::IsInclude_AABB(b,hi[0],p[1],p[2])&&!dfm2::IsInclude_AABB(b,p[0],hi[1],p[2])&&!dfm2::IsInclude_AABB(b,p[0],p[1],hi[2]),"box is half open"); sx_check(!dfm2::IsInclude_AABB(b,lo[0]-1,p[1],p[2])&&!dfm2::IsInclude_AABB(b,p[0],lo[1]-1,p[2])&&!dfm2::IsInclude_AABB(b,p[0],p[1],lo[2]-1),"box is tight"); } }
// ------------------------------------------------------------------ morphology and distances (x fastest)
SX_ENTRY(morphology){ opt(); static const int D2[6][3]={{4,1,1},{1,4,1},{1,1,4},{3,2,1},{1,2,3},{2,2,2}}; const int*d=D2[sx_choose("dim",6)]; int n=d[0]*d[1]*d[2]; dfm2::CGrid3<int> g; g.Initialize(d[0],d[1],d[2],0); VI v=occ(n); bool er=sx_choose("erode",2); g.aVal=v; if(er) dfm2::Grid3Voxel_Erosion(g); else dfm2::Grid3Voxel_Dilation(g); for(int x=0;x<d[0];x++) for(int y=0;y<d[1];y++) for(int z=0;z<d[2];z++){ bool w=v[zm(d,x,y,z)]; for(auto&b:NB){ bool o=in(d,x+b[0],y+b[1],z+b[2])&&v[zm(d,x+b[0],y+b[1],z+b[2])]; if(er) w=w&&o; else w=w||o; } sx_check(g.aVal[zm(d,x,y,z)]==(int)w,er?"eroded cells keep all their neighbours":"dilated cells touch a filled cell"); } }
// thicker grids: every cell in turn is looked at with its six neighbours free, the other cells all filled or all empty
SX_ENTRY(morphology3){ opt(); static const int D2[4][3]={{3,3,3},{3,3,2},{4,3,3},{2,3,4}}; const int*d=D2[sx_choose("dim",T?4:2)]; int n=d[0]*d[1]*d[2],x=sx_choose("x",d[0]),y=sx_choose("y",d[1]),z=sx_choose("z",d[2]); dfm2::CGrid3<int> g; g.Initialize(d[0],d[1],d[2],0); VI v(n,sx_choose("rest",2)); v[zm(d,x,y,z)]=sx_choose("self",2); int k=0; for(auto&b:NB){ if(in(d,x+b[0],y+b[1],z+b[2])) v[zm(d,x+b[0],y+b[1],z+b[2])]=sx_choose(NM("nb",k),2); k++; } bool er=sx_choose("erode",2); g.aVal=v; if(er) dfm2::Grid3Voxel_Erosion(g); else dfm2::Grid3Voxel_Dilation(g); for(int x=0;x<d[0];x++) for(int y=0;y<d[1];y++) for(int z=0;z<d[2];z++){ bool w=v[zm(d,x,y,z)]; for(auto&b:NB){ bool o=in(d,x+b[0],y+b[1],z+b[2])&&v[zm(d,x+b[0],y+b[1],z+b[2])]; if(er) w=w&&o; else w=w||o; } sx_check(g.aVal[zm(d,x,y,z)]==(int)w,er?"eroded cells keep all their neighbours":"dilated cells touch a filled cell"); } }
SX_ENTRY(geodesic){ opt(); static const int D2[5][3]={{4,2,1},{1,2,4},{2,3,1},{5,1,1},{2,2,2}}; const int*d=D2[sx_choose("dim",T?5:3)]; int n=d[0]*d[1]*d[2]; dfm2::CGrid3<int> g; g.Initialize(d[0],d[1],d[2],0); VI v; for(int i=0;i<n;i++) v.push_back(i>0&&i<(T?6:5)?sx_choose(NM("v",i),2):1); g.aVal=v; int s0=0,s1=n-1; double el=sx_real_in("el",0.125,4),d0=sx_real_in("d0",0,8); int two=sx_choose("seeds",2); std::vector<std::pair<U,double>> S={{(U)s0,0.0}}; if(two) S.push_back({(U)s1,d0}); VD R; if(sx_choose("stale",1)==0) R.assign(3,1.0); dfm2::VoxelGeodesic(R,S,el,g); sx_check((int)R.size()==n,"one distance per cell"); auto bfs=[&](int s){ VI h(n,-1); h[s]=0; VI q={s}; for(size_t k=0;k<q.size();k++){ int i=q[k],z=i/(d[0]*d[1]),y=i/d[0]%d[1],x=i%d[0]; for(auto&b:NB) if(in(d,x+b[0],y+b[1],z+b[2])){ int j=zm(d,x+b[0],y+b[1],z+b[2]); if(v[j]&&h[j]<0){ h[j]=h[i]+1; q.push_back(j); } } } return h; }; VI h0=bfs(s0),h1=bfs(s1); for(int i=0;i<n;i++){ bool a=v[i]&&h0[i]>=0,b=two&&v[i]&&h1[i]>=0; if(!a&&!b) sx_eq(R[i],-1,"unreachable cells have no distance"); else { double A=h0[i]*el,B=h1[i]*el+d0; double w=a&&b?(sx_fork(A<B)?A:B):a?A:B; sx_eq(R[i],w,"length of the shortest path through filled cells"); } } }
// cells crossed by a segment: exactly those whose closed/open box it enters, in order
SX_ENTRY(segment){ opt(); sx_opt("max_steps",400000); dfm2::CGrid3<int> g; int d[3]={3,2,4}; g.Initialize(3,2,4,1); static const double S[8][6]={{0.5,0.5,0.5, 2.5,1.25,3.25},{0.5,0.5,0.5,2.5,0.5,0.5},{0.5,0.5,0.5,2.5,1.75,2.5},{2.5,1.5,3.5,0.25,0.25,0.5},{1,1,1,2.5,1.5,3},{2.5,1.5,3.5,2.5,1.5,0.25},{-1.5,0.25,0.5,3.75,1.25,2.25},{2,1.5,2,0.5,0.25,0.75}}; const double*s=S[sx_choose("seg",8)]; dfm2::CVec3d a(s[0],s[1],s[2]),b(s[3],s[4],s[5]); int w=sx_choose("axis",3); if(sx_choose("end",2)) b.p[w]=sx_real_in("t",0.0625,1.9375); else a.p[w]=sx_real_in("t",0.0625,1.9375); 
  double off=sx_choose("shift",2)?10:0; dfm2::CVec3d A=a,B=b; for(int k=0;k<3;k++){ A.p[k]=A.p[k]*(off!=0?2:1)+off; B.p[k]=B.p[k]*(off!=0?2:1)+off; } if(off!=0){ g.am.mat[0]=g.am.mat[5]=g.am.mat[10]=2; g.am.mat[3]=g.am.mat[7]=g.am.mat[11]=10; } VU r; r.push_back(9); dfm2::Intersection_VoxelGrid_LinSeg(r,g,A,B); std::vector<int> hit(24,0); int px=-9,py=-9,pz=-9; for(size_t i=0;i<r.size();i++){ sx_check(r[i]<24,"cell index in range"); sx_check(!hit[r[i]],"each cell once"); hit[r[i]]=1; int z=r[i]/6,y=r[i]/3%2,x=r[i]%3; if(i) sx_check(std::abs(x-px)+std::abs(y-py)+std::abs(z-pz)==1,"successive cells share a side"); px=x; py=y; pz=z; } 
  // a cell is entered iff the parameter interval where the segment is inside is nonempty (open box, margin on both sides)
  for(int z=0;z<4;z++) for(int y=0;y<2;y++) for(int x=0;x<3;x++){ int o[3]={x,y,z}; bool e=true,tch=true; double lo=0,hi=1; for(int k=0;k<3;k++){ double p=a.p[k],q=b.p[k],D=q-p; if(sx_fork(D==0)){ if(!sx_fork(p>o[k])||!sx_fork(p<o[k]+1)) e=false; if(!sx_fork(p>=o[k])||!sx_fork(p<=o[k]+1)) tch=false; } else { bool up=sx_fork(D>0); double t0=((up?o[k]:o[k]+1)-p)/D,t1=((up?o[k]+1:o[k])-p)/D; if(sx_fork(t0>lo)) lo=t0; if(sx_fork(t1<hi)) hi=t1; } } if(e&&sx_fork(lo<hi)) sx_check(hit[(z*2+y)*3+x],"cell entered by the segment is listed"); if(!tch||sx_fork(lo>hi)) sx_check(!hit[(z*2+y)*3+x],"cell missed by the segment is not listed"); } }
// ------------------------------------------------------------------ cube lists
SX_ENTRY(cubes){ opt(); std::vector<dfm2::CCubeGrid> L; std::set<std::vector<int>> R; int n=T?4:3; static const int P[5][3]={{0,0,0},{2,-1,5},{2,-1,4},{-3,4,1},{0,7,0}}; for(int i=0;i<n;i++){ int k=sx_choose(NM("k",i),T?5:4); int del=sx_choose(NM("op",i),2); std::vector<int> p(P[k],P[k]+3); if(del){ dfm2::Del_CubeGrid(L,p[0],p[1],p[2]); R.erase(p); } else { dfm2::Add_CubeGrid(L,p[0],p[1],p[2]); R.insert(p); } std::set<std::vector<int>> G,A; for(auto&c:L){ std::vector<int> q={c.ivx,c.ivy,c.ivz}; sx_check(A.insert(q).second,"a position is listed once"); if(c.is_active) G.insert(q); } sx_check(G==R,"active cubes are those added and not deleted"); } }
SX_ENTRY(cube_box){ opt(); int n=sx_choose("n",T?4:3); std::vector<dfm2::CCubeGrid> L; int p[12]; for(int i=0;i<n;i++){ for(int a=0;a<3;a++) p[i*3+a]=sx_int(NM("p",i*3+a),-100,100); L.push_back(dfm2::CCubeGrid(p[i*3],p[i*3+1],p[i*3+2])); } int b[6]={9,9,9,9,9,9}; dfm2::AABB_CubeGrid(b,L); for(int a=0;a<3;a++){ if(n==0){ sx_check(b[2*a]>b[2*a+1],"empty box"); continue; } int lo=p[a],hi=p[a]+1; for(int i=1;i<n;i++){ if(sx_fork(p[i*3+a]<lo)) lo=p[i*3+a]; if(sx_fork(p[i*3+a]+1>hi)) hi=p[i*3+a]+1; } sx_check(b[2*a]==lo,"lower bound"); sx_check(b[2*a+1]==hi,"upper bound"); } if(n>=2){ bool l=L[0]<L[1],m=L[1]<L[0]; bool same=(p[0]==p[3])&(p[1]==p[4])&(p[2]==p[5]); sx_check(!(l&&m),"order is antisymmetric"); sx_check((l||m)==!same,"order is total"); } for(int f=0;f<6&&n>0;f++){ int x,y,z; dfm2::Adj_CubeGrid(x,y,z,n-1,f,L); sx_check(x==p[n*3-3]+NB[f][0]&&y==p[n*3-2]+NB[f][1]&&z==p[n*3-1]+NB[f][2],"neighbour across a side"); } }
SX_ENTRY(pick){ opt(); sx_opt("float_sqrt",1); double el=0.5,org[3]={1,-2,0.25}; static const int P[4][3]={{0,0,0},{1,0,0},{0,1,1},{2,2,0}}; std::vector<dfm2::CCubeGrid> L; for(auto&p:P) L.push_back(dfm2::CCubeGrid(p[0],p[1],p[2])); for(int i=0;i<2;i++) L[i].is_active=!sx_choose(NM("off",i),2); static const double DV[6][3]={{1,0.0625,0.125},{-2,0.25,0.125},{0.125,1,-0.125},{0.0625,-3,0.5},{0.125,-0.0625,1},{-0.125,0.25,-2}}; const double*dir=DV[sx_choose("dir",6)]; // start far behind the point that the ray passes at a free position in a plane through the cubes
  int w=0; for(int k=1;k<3;k++) if(std::fabs(dir[k])>std::fabs(dir[w])) w=k; static const double O[5][2]={{0.3,0.4},{1.6,0.3},{0.4,1.3},{2.3,2.6},{1.2,1.7}}; const double*o=O[sx_choose("at",5)]; double t=sx_real_in("t",-0.25,0.25),src[3]; int u=(w+1)%3,v=(w+2)%3; double q[3]; q[w]=0.5; q[u]=o[0]+t; q[v]=o[1]; for(int k=0;k<3;k++) src[k]=org[k]+el*(q[k]-16*dir[k]/std::fabs(dir[w])); U ic=99; int f=-1; dfm2::Pick_CubeGrid(ic,f,src,dir,el,org,L); 
  // reference in cube units: entry parameter of every active box by slabs
  double S[3],D[3]; for(int k=0;k<3;k++){ S[k]=(src[k]-org[k])/el; D[k]=dir[k]/el; } double best=0; U wi=UINT_MAX; int wf=-1; for(U i=0;i<4;i++) if(L[i].is_active){ double lo=-1e9,hi=1e9; int lf=-1; for(int k=0;k<3;k++){ bool up=D[k]>0; double t0=((up?P[i][k]:P[i][k]+1)-S[k])/D[k],t1=((up?P[i][k]+1:P[i][k])-S[k])/D[k]; if(sx_fork(t0>lo)){ lo=t0; lf=2*k+(up?0:1); } if(sx_fork(t1<hi)) hi=t1; } sx_assume(hi-lo>1e-4||hi-lo<-1e-4); if(sx_fork(lo<hi)){ if(wi==UINT_MAX||sx_fork(lo<best)){ best=lo; wi=i; wf=lf; } } } 
  // keep away from rays through an edge of the picked cube and from ties
  if(wi!=UINT_MAX) for(int k=0;k<3;k++){ double x=S[k]+best*D[k]-P[wi][k]; if(k!=wf/2) sx_assume((int)(x>1e-3)&(int)(x<1-1e-3)); } sx_check(ic==wi,"the first active cube on the ray is picked"); if(wi!=UINT_MAX) sx_check(f==wf,"side where the ray enters"); }
