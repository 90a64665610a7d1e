// C42: planar CAD shapes: topology, curve geometry, editing and meshing bookkeeping
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstdint>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <string>
#include <iostream>
#include <algorithm>
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U; typedef dfm2::CVec2d V2; typedef std::vector<double> VD; typedef std::vector<U> VU; typedef dfm2::CCad2D_EdgeGeo EG;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",7); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); sx_opt("max_steps",6000000); sx_opt("steps_are_violation",1); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); }
// independent model of the topology: every face has one cycle of (edge,vertex) and isolated vertices
struct Md{ struct F{ VU e,v,iso; }; std::vector<F> f; U nv=0,ne=0; };
static void chk_topo(const dfm2::CadTopo&t,const Md&m){ sx_check(t.num_vertex==m.nv&&t.edges.size()==m.ne&&t.faces.size()==m.f.size(),"counts of vertices, edges and faces"); if(t.edges.size()!=m.ne||t.faces.size()!=m.f.size()) return; size_t nl=0; for(auto&f:m.f) nl+=1+f.iso.size(); sx_check(t.loops.size()==nl,"one loop per boundary and isolated vertex"); t.Assert();
  for(U i=0;i<m.f.size();i++){ auto&f=m.f[i]; const U n=f.e.size(); for(U k=0;k<n;k++) sx_check(t.edges[f.e[k]].iv0==f.v[k]&&t.edges[f.e[k]].iv1==f.v[(k+1)%n],"edges join consecutive vertices of the boundary"); sx_check(t.faces[i].aIL.size()==1+f.iso.size(),"loops of a face"); VU vs=t.VertexIndexs_Face(i); sx_check(vs.size()==n+f.iso.size(),"vertices of a face"); if(vs.size()==n+f.iso.size()){ sx_check(VU(vs.begin(),vs.begin()+n)==f.v,"boundary vertices of a face in order"); sx_check(std::set<U>(vs.begin()+n,vs.end())==std::set<U>(f.iso.begin(),f.iso.end()),"isolated vertices of a face"); } auto es=t.EdgeIndexes_Face(i); sx_check(es.size()==n,"edges of a face"); if(es.size()==n) for(U k=0;k<n;k++) sx_check(es[k].first==f.e[k]&&es[k].second,"edges of a face in order"); for(U l=0;l<f.iso.size()&&l+1<t.faces[i].aIL.size();l++) sx_check(t.loops[t.faces[i].aIL[1+l]].iv==f.iso[l],"isolated vertices of a face"); }
  for(U v=0;v<m.nv;v++){ VU e; for(U i=0;i<m.f.size();i++){ auto&f=m.f[i]; bool in=false; for(U x:f.v) if(x==v) in=true; for(U x:f.iso) if(x==v) in=true; if(in) e.push_back(i); } sx_check(t.FindFaceIndexes_IncludeVeretx(v)==e,"faces that include a vertex"); }
  for(U k=0;k<m.ne;k++){ VU e; for(U i=0;i<m.f.size();i++) for(U x:m.f[i].e) if(x==k) e.push_back(i); sx_check(t.FindFaceIndexes_IncludeEdge(k)==e,"faces that include an edge"); auto p=t.VertexIndexs_EdgeEndPoints(k); sx_check(p.first==t.edges[k].iv0&&p.second==t.edges[k].iv1,"end points of an edge"); } }
static void op(dfm2::CadTopo&t,Md&m,int k,int step){ if(k==0){ int n=2+sx_choose(NM("n",step),2); t.AddPolygon(n); Md::F f; for(int i=0;i<n;i++){ f.e.push_back(m.ne+i); f.v.push_back(m.nv+i); } m.ne+=n; m.nv+=n; m.f.push_back(f); }
  else if(k==1){ U f=sx_choose(NM("f",step),(int)m.f.size()+1); bool ok=t.AddVtx_Face(f); sx_check(ok==(f<m.f.size()),"an unknown face is refused"); if(f<m.f.size()){ m.f[f].iso.push_back(m.nv); m.nv++; } }
  else { U e=sx_choose(NM("e",step),(int)m.ne+1); bool ok=t.AddVtx_Edge(e); sx_check(ok==(e<m.ne),"an unknown edge is refused"); if(e<m.ne){ for(auto&f:m.f) for(U i=0;i<f.e.size();i++) if(f.e[i]==e){ f.e.insert(f.e.begin()+i+1,m.ne); f.v.insert(f.v.begin()+i+1,m.nv); break; } m.ne++; m.nv++; } } }
SX_ENTRY(topology){ opt(); dfm2::CadTopo t; Md m; int n=T?4:3; for(int i=0;i<n;i++){ op(t,m,sx_choose(NM("op",i),3),i); chk_topo(t,m); } t.Clear(); chk_topo(t,Md()); }
// geometry attached to the topology: end points of every edge are the vertex positions
static void chk_geo(const dfm2::CCad2D&c,const VD&X){ sx_check(c.nVtx()*2==X.size()&&c.nEdge()==c.topo.edges.size()&&c.topo.num_vertex==c.nVtx(),"geometry and topology agree in size"); if(c.nVtx()*2!=X.size()||c.nEdge()!=c.topo.edges.size()) return; for(U i=0;i<c.nVtx();i++){ sx_eq(c.aVtx[i].pos.x,X[2*i],"vertex position"); sx_eq(c.aVtx[i].pos.y,X[2*i+1],"vertex position"); } for(U e=0;e<c.nEdge();e++){ U a=c.topo.edges[e].iv0,b=c.topo.edges[e].iv1; sx_eq(c.aEdge[e].p0.x,X[2*a],"edge starts at its vertex"); sx_eq(c.aEdge[e].p0.y,X[2*a+1],"edge starts at its vertex"); sx_eq(c.aEdge[e].p1.x,X[2*b],"edge ends at its vertex"); sx_eq(c.aEdge[e].p1.y,X[2*b+1],"edge ends at its vertex"); } sx_check(c.Check(),"consistent shape"); }
static VD pts(const char*nm,U n){ VD v; for(U i=0;i<n;i++) v.push_back(sx_real_in(NM(nm,i),-3,3)); return v; }
SX_ENTRY(shape_ops){ opt(); dfm2::CCad2D c; VD X=pts("x",6); c.AddPolygon(X); chk_geo(c,X); for(int s=0;s<(T?3:2);s++){ int k=sx_choose(NM("op",s),4); double x=sx_real_in(NM("a",s),-3,3),y=sx_real_in(NM("b",s),-3,3); if(k==0){ U f=sx_choose(NM("f",s),(int)c.topo.faces.size()+1); bool ok=f<c.topo.faces.size(); c.AddVtxFace(x,y,f); if(ok){ X.push_back(x); X.push_back(y); } } else if(k==1){ U e=sx_choose(NM("e",s),(int)c.nEdge()+1); bool ok=e<c.nEdge(); c.AddVtxEdge(x,y,e); if(ok){ X.push_back(x); X.push_back(y); } } else if(k==2){ VD Y={x,y,2,1,1,2}; c.AddPolygon(Y); X.insert(X.end(),Y.begin(),Y.end()); } else { std::vector<EG> L(2); L[0].p0=V2(x,y); L[0].p1=V2(1,0); L[1].p0=V2(1,0); L[1].p1=V2(x,y); L[1].SetQuadraticBezierCurve(V2(2,2)); c.AddFace(L); VD Y={x,y,1,0}; X.insert(X.end(),Y.begin(),Y.end()); sx_check(c.aEdge.back().type_edge==EG::BEZIER_QUADRATIC&&c.aEdge.back().param.size()==2,"curves are kept"); } chk_geo(c,X); } c.Clear(); chk_geo(c,{}); }
static V2 bern(const std::vector<V2>&P,double t){ if(P.size()==2) return P[0]*(1-t)+P[1]*t; if(P.size()==3) return P[0]*((1-t)*(1-t))+P[1]*(2*t*(1-t))+P[2]*(t*t); return P[0]*((1-t)*(1-t)*(1-t))+P[1]*(3*t*(1-t)*(1-t))+P[2]*(3*t*t*(1-t))+P[3]*(t*t*t); }
static EG curve(std::vector<V2>&P,int k,const char*nm){ int n=k+2; P.clear(); for(int i=0;i<n;i++){ double x=sx_real_in(NM(nm,2*i),-3,3); double y=sx_real_in(NM(nm,2*i+1),-3,3); P.push_back(V2(x,y)); } EG e; e.p0=P[0]; e.p1=P[n-1]; if(k==1) e.SetQuadraticBezierCurve(P[1]); if(k==2) e.SetCubicBezierCurve(P[1],P[2]); return e; }
static void eq2(const V2&a,const V2&b,const char*l){ sx_eq(a.x,b.x,l); sx_eq(a.y,b.y,l); }
SX_ENTRY(curve_mesh){ optl(); int k=sx_choose("kind",3); std::vector<V2> P; EG e=curve(P,k,"p"); U nd=1+sx_choose("ndiv",4); VD m=e.GenMesh(nd); sx_check(m.size()==3*(nd-1),"inner points of the division"); if(m.size()!=3*(nd-1)) return; for(U i=1;i<nd;i++){ double t=double(i)/nd; eq2(V2(m[3*i-3],m[3*i-2]),bern(P,t),"division points lie on the curve"); sx_eq(m[3*i-1],t,"uniform parameters"); } EG l=e; l.SetLine(); VD q=l.GenMesh(2); sx_check(q.size()==3,"line"); if(q.size()==3) eq2(V2(q[0],q[1]),(P[0]+P.back())*0.5,"straightened edge"); }
SX_ENTRY(curve_transform){ optl(); int k=sx_choose("kind",3); std::vector<V2> P; EG e=curve(P,k,"p"); double A[4]; for(int i=0;i<4;i++) A[i]=sx_real_in(NM("A",i),-2,2); EG f=e; f.Transform(A); auto L=[&](const V2&p){ return V2(A[0]*p.x+A[1]*p.y,A[2]*p.x+A[3]*p.y); }; eq2(f.p0,L(e.p0),"transformed start"); eq2(f.p1,L(e.p1),"transformed end"); VD a=e.GenMesh(4),b=f.GenMesh(4); sx_check(a.size()==b.size(),"kind of curve is kept"); for(U i=0;i+2<a.size();i+=3) eq2(V2(b[i],b[i+1]),L(V2(a[i],a[i+1])),"transformed curve"); }
SX_ENTRY(curve_box){ opt(); int k=sx_choose("kind",3); std::vector<V2> P; int n=k+2; for(int i=0;i<n;i++){ double x=i==1?sx_real_in("x",-3,3):i*1.0,y=i==n-1?sx_real_in("y",-3,3):(i==1?2.:0.5); P.push_back(V2(x,y)); } EG e; e.p0=P[0]; e.p1=P[n-1]; if(k==1) e.SetQuadraticBezierCurve(P[1]); if(k==2) e.SetCubicBezierCurve(P[1],P[2]); double t=sx_choose("t",5)*0.25; V2 q=bern(P,t); auto b=e.BB(); sx_le(b.x_min,q.x,"bounding box contains the curve"); sx_le(q.x,b.x_max,"bounding box contains the curve"); sx_le(b.y_min,q.y,"bounding box contains the curve"); sx_le(q.y,b.y_max,"bounding box contains the curve"); dfm2::CCad2D c; std::vector<EG> L(2); L[0]=e; L[1].p0=e.p1; L[1].p1=e.p0; c.AddFace(L); VD mm=c.MinMaxXYZ(); sx_check(mm.size()==6,"three intervals"); if(mm.size()==6){ sx_le(mm[0],q.x,"bounding box contains the shape"); sx_le(q.x,mm[1],"bounding box contains the shape"); sx_le(mm[2],q.y,"bounding box contains the shape"); sx_le(q.y,mm[3],"bounding box contains the shape"); } }
// exact area swept by the curve around the origin: 1/2 int x dy - y dx as a quadratic form of the control points
static double swept(const std::vector<V2>&P){ auto c=[&](int i,int j){ return P[i].x*P[j].y-P[i].y*P[j].x; }; if(P.size()==2) return c(0,1)/2; if(P.size()==3) return (2*c(0,1)+2*c(1,2)+c(0,2))/6; return (6*c(0,1)+3*c(0,2)+c(0,3)+3*c(1,2)+3*c(1,3)+6*c(2,3))/20; }
static std::vector<EG> loop3(std::vector<std::vector<V2>>&P){ VD X=pts("v",6); std::vector<EG> L(3); P.clear(); for(int i=0;i<3;i++){ int j=(i+1)%3; L[i].p0=V2(X[2*i],X[2*i+1]); L[i].p1=V2(X[2*j],X[2*j+1]); int k=sx_choose(NM("k",i),i<2||T?3:1); std::vector<V2> p={L[i].p0}; if(k>=1){ double x=sx_real_in(NM("cx",i),-3,3),y=sx_real_in(NM("cy",i),-3,3); p.push_back(V2(x,y)); } if(k==2){ double x=sx_real_in(NM("dx",i),-3,3),y=sx_real_in(NM("dy",i),-3,3); p.push_back(V2(x,y)); } p.push_back(L[i].p1); if(k==1) L[i].SetQuadraticBezierCurve(p[1]); if(k==2) L[i].SetCubicBezierCurve(p[1],p[2]); P.push_back(p); } return L; }
SX_ENTRY(loop_area){ optl(); std::vector<std::vector<V2>> P; auto L=loop3(P); double a=0; for(int i=0;i<3;i++){ double s=swept(P[i]); sx_eq(L[i].AreaEnclosingOrigin(),s,"area swept by an edge"); a+=s; } sx_eq(dfm2::AreaLoop(L),a,"area of a loop"); }
SX_ENTRY(loop_invert){ optl(); std::vector<std::vector<V2>> P; auto L=loop3(P); auto R=dfm2::InvertLoop(L); sx_check(R.size()==3,"as many edges"); if(R.size()!=3) return; for(int i=0;i<3;i++){ auto&e=R[2-i]; eq2(e.p0,L[i].p1,"reversed end points"); eq2(e.p1,L[i].p0,"reversed end points"); sx_check(e.type_edge==L[i].type_edge,"kind of curve is kept"); VD a=L[i].GenMesh(3),b=e.GenMesh(3); sx_check(a.size()==b.size()&&a.size()==6,"division"); if(a.size()==6&&b.size()==6) for(int q=0;q<2;q++) eq2(V2(b[3*q],b[3*q+1]),V2(a[3*(1-q)],a[3*(1-q)+1]),"reversed edges follow the same curve"); } sx_eq(dfm2::AreaLoop(R),-dfm2::AreaLoop(L),"reversed loop has the opposite area"); }
SX_ENTRY(loop_zero){ opt(); VD X={0,0, 2,0, 1,2}; std::vector<EG> L; for(int i=0;i<3;i++){ V2 a(X[2*i],X[2*i+1]),b(X[(2*i+2)%6],X[(2*i+3)%6]); if(sx_choose(NM("z",i),2)){ EG z; z.p0=a; z.p1=a; if(sx_choose(NM("s",i),2)){ double h=sx_real_in(NM("h",i),0.01,1); z.p1=a+V2(h,0); } L.push_back(z); } EG e; e.p0=a; e.p1=b; L.push_back(e); } std::vector<EG> W; for(auto&e:L) if(sx_fork((e.p0-e.p1).squaredNorm()>0)) W.push_back(e); auto R=dfm2::RemoveEdgeWithZeroLength(L); sx_check(R.size()==W.size(),"only edges of no length are removed"); if(R.size()==W.size()) for(U i=0;i<R.size();i++){ eq2(R[i].p0,W[i].p0,"other edges are kept in order"); eq2(R[i].p1,W[i].p1,"other edges are kept in order"); } }
// picking and dragging
static dfm2::CCad2D shape(){ dfm2::CCad2D c; std::vector<EG> L(4); static const double X[8]={0,0, 4,0, 4,3, 0,3}; for(int i=0;i<4;i++){ int j=(i+1)%4; L[i].p0=V2(X[2*i],X[2*i+1]); L[i].p1=V2(X[2*j],X[2*j+1]); } c.AddFace(L); c.aEdge[2].SetCubicBezierCurve(V2(3,4.5),V2(1,4)); return c; }
SX_ENTRY(drag){ opt(); dfm2::CCad2D c=shape(); bool more=sx_choose("more",2); if(more){ c.AddVtxFace(1,1,0); c.AddPolygon({5,0,6,0,5,1}); } VD X; for(auto&v:c.aVtx){ X.push_back(v.pos.x); X.push_back(v.pos.y); } dfm2::Cad2_Ui ui; double ax=sx_real_in("ax",-5,5),ay=sx_real_in("ay",-5,5),bx=sx_real_in("bx",-5,5),by=sx_real_in("by",-5,5); int k=sx_choose("what",4); U i=sx_choose("i",4); std::vector<V2> off; if(k==0){ ui.ivtx_picked=i; X[2*i]=bx; X[2*i+1]=by; } else if(k==1){ ui.iedge_picked=i; U a=c.topo.edges[i].iv0,b=c.topo.edges[i].iv1; for(U v:{a,b}){ X[2*v]+=bx-ax; X[2*v+1]+=by-ay; } } else if(k==2){ U fc=more?(i&1):0; ui.iface_picked=fc; for(U v=fc?5:0;v<(fc?8u:more?5u:4u);v++){ X[2*v]+=bx-ax; X[2*v+1]+=by-ay; } } else { ui.iedge_picked=2; ui.ipicked_elem=1+(i&1); } VD par=c.aEdge[2].param; ui.DragPicked(c,bx,by,ax,ay); chk_geo(c,X); auto&p=c.aEdge[2].param; sx_check(p.size()==4,"handles are kept"); if(p.size()!=4) return; int h=k==3?(i&1):-1; for(int q=0;q<2;q++){ V2 e=q==0?c.aEdge[2].p0:c.aEdge[2].p1; if(q==h){ sx_eq(e.x+p[2*q],bx,"the dragged handle follows the pointer"); sx_eq(e.y+p[2*q+1],by,"the dragged handle follows the pointer"); } else { sx_eq(p[2*q],par[2*q],"other handles keep their offset"); sx_eq(p[2*q+1],par[2*q+1],"other handles keep their offset"); } } }
SX_ENTRY(pick){ opt(); dfm2::CCad2D c; c.AddPolygon({0,0, 4,0, 4,3, 0,3}); dfm2::Cad2_Ui ui; double vh=4,r=0.2; int k=sx_choose("row",T?5:3); static const double Y[5]={0,0.1,1.5,0.5,2.95}; double y=Y[k],x=sx_real_in("x",-1,5); auto far=[&](double a){ sx_assume((a>r*r+1e-6)|(a<r*r-1e-6)); return sx_fork(a<r*r); }; U ev=UINT_MAX,ee=UINT_MAX; static const double X[8]={0,0,4,0,4,3,0,3}; for(U i=0;i<4&&ev==UINT_MAX;i++){ double dx=x-X[2*i],dy=y-X[2*i+1]; if(far(dx*dx+dy*dy)) ev=i; }
  if(ev==UINT_MAX) for(U i=0;i<4&&ee==UINT_MAX;i++){ double a=X[2*i],b=X[2*i+1],dx=X[(2*i+2)%8]-a,dy=X[(2*i+3)%8]-b,l=dx*dx+dy*dy,t=((x-a)*dx+(y-b)*dy)/l; if(sx_fork(t<0)) t=0; else if(sx_fork(t>1)) t=1; double u=x-a-t*dx,w=y-b-t*dy; if(far(u*u+w*w)) ee=i; }
  ui.Pick(x,y,vh,c); sx_check(ui.ivtx_picked==ev,"picks the first vertex within the radius"); sx_check(ui.iedge_picked==ee,"otherwise the first edge within the radius"); }
// meshing: points classified by vertex, edge and face; triangles cover every face
static double tri2(const V2&a,const V2&b,const V2&c){ return ((b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x))/2; }
SX_ENTRY(meshing){ optl(); sx_opt("max_ite",0); dfm2::CCad2D c; double s=sx_real_in("s",0.3,0.7); int k=sx_choose("shape",T?4:3); c.AddPolygon({0,0, 4,0.1, 3.9+s,3, 0.2,3.3}); double area=0; { V2 a(0,0),b(4,0.1),d(3.9+s,3),e(0.2,3.3); area=tri2(a,b,d)+tri2(a,d,e); } double area2=0; if(k==1) c.AddVtxFace(1.7,1.2+s,0); if(k>=2){ c.AddPolygon({6,0, 8+s,0.2, 6.5,2}); area2=tri2(V2(6,0),V2(8+s,0.2),V2(6.5,2)); } if(k==3) c.AddVtxFace(6.9,0.6,1); dfm2::CMesher_Cad2D m; m.edge_length=100; U nd[7]={1,2,1,3,2,1,1}; if(sx_choose("div",2)){ nd[0]=2; nd[3]=1; } for(U e=0;e<c.nEdge();e++) m.mapIdEd_NDiv[e]=nd[e]; dfm2::CMeshDynTri2D d; m.Meshing(d,c);
  U nv=c.nVtx(),ne=c.nEdge(),np=nv; for(U e=0;e<ne;e++) np+=nd[e]-1; sx_check(d.aVec2.size()==np&&m.aFlgPnt.size()==np,"one point per vertex and division"); if(d.aVec2.size()!=np||m.aFlgPnt.size()!=np) return; sx_check(m.aFlgTri.size()==d.aETri.size(),"one face per triangle"); if(m.aFlgTri.size()!=d.aETri.size()) return; sx_check(m.edge_point.size()==ne,"points of every edge"); std::vector<VU> ep(ne); for(U i=0;i<np;i++){ if(i<nv) sx_check(m.aFlgPnt[i]==i,"vertices come first"); else { U e=m.aFlgPnt[i]-nv; sx_check(e<ne,"points of the division belong to an edge"); if(e<ne) ep[e].push_back(i); } }
  for(U e=0;e<ne;e++){ sx_check(ep[e].size()==nd[e]-1&&m.edge_point[e].size()==nd[e]-1,"divisions of an edge"); if(ep[e].size()!=nd[e]-1||m.edge_point[e].size()!=nd[e]-1) return; for(U q=0;q+1<nd[e];q++){ double t=double(q+1)/nd[e]; sx_check(m.edge_point[e][q].first==ep[e][q],"points of an edge in order"); sx_eq(m.edge_point[e][q].second,t,"parameters of an edge"); eq2(d.aVec2[ep[e][q]],c.aEdge[e].p0*(1-t)+c.aEdge[e].p1*t,"points lie on the edge"); } VU w=m.IndPoint_IndEdge(e,true,c),in=m.IndPoint_IndEdge(e,false,c),r; r.push_back(c.topo.edges[e].iv0); r.insert(r.end(),ep[e].begin(),ep[e].end()); r.push_back(c.topo.edges[e].iv1); sx_check(w==r,"points of an edge with ends"); sx_check(in==ep[e],"points inside an edge"); std::set<U> S(r.begin(),r.end()); VU a=m.IndPoint_IndEdgeArray({(int)e},c); sx_check(a==VU(S.begin(),S.end()),"points of a list of edges"); }
  double A[2]={0,0}; for(U t=0;t<d.aETri.size();t++){ auto&x=d.aETri[t]; if(x.v[0]>=np||x.v[1]>=np||x.v[2]>=np){ sx_check(false,"triangle corners are points"); return; } double q=tri2(d.aVec2[x.v[0]],d.aVec2[x.v[1]],d.aVec2[x.v[2]]); sx_lt(0,q,"triangles are positively oriented"); sx_check(m.aFlgTri[t]<c.topo.faces.size(),"triangle belongs to a face"); if(m.aFlgTri[t]<2) A[m.aFlgTri[t]]+=q; for(int j=0;j<3;j++) if(x.s2[j]!=UINT_MAX){ sx_check(x.s2[j]<d.aETri.size(),"neighbour exists"); if(x.s2[j]<d.aETri.size()){ bool back=false; for(int l=0;l<3;l++) if(d.aETri[x.s2[j]].s2[l]==t) back=true; sx_check(back,"neighbours are mutual"); } } } auto near=[&](double p,double q){ sx_le(p,q+1e-6,"triangles of a face cover it"); sx_le(q,p+1e-6,"triangles of a face cover it"); }; near(A[0],area); near(A[1],area2); sx_check(d.aEPo.size()==np,"one link per point"); for(U i=0;i<np&&i<d.aEPo.size();i++){ sx_check(d.aEPo[i].e<d.aETri.size()&&d.aEPo[i].d<3,"every point is used"); if(d.aEPo[i].e<d.aETri.size()&&d.aEPo[i].d<3) sx_check(d.aETri[d.aEPo[i].e].v[d.aEPo[i].d]==i,"link of a point"); }
  for(U f=0;f<c.topo.faces.size();f++){ std::set<int> S; for(auto&ie:c.topo.loops[c.topo.faces[f].aIL[0]].aIE){ S.insert(c.topo.edges[ie.first].iv0); for(U p:ep[ie.first]) S.insert(p); } std::vector<int> w=m.IndPoint_IndFaceArray({(int)f},c); for(int p:S) sx_check(std::find(w.begin(),w.end(),p)!=w.end(),"points of a face contain its boundary"); for(auto l:c.topo.faces[f].aIL) if(c.topo.loops[l].iv!=UINT_MAX) S.insert(c.topo.loops[l].iv); sx_check(std::set<int>(w.begin(),w.end())==S,"points of a face are its own"); } }
