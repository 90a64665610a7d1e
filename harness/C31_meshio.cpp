// C31: mesh and array files, on in-memory files
#include "sx.h"
#include "memstream.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <algorithm>
#define path sx_path
#include "delfem2/msh_io_obj.h"
#undef path
#define path sx_path
#include "delfem2/msh_io_ply.h"
#undef path
#include "delfem2/msh_io_misc.h"
#include "delfem2/filenpy_str.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef std::string S; typedef std::vector<S> VS; typedef unsigned int U; typedef std::vector<U> VU; typedef std::vector<double> VD; typedef std::vector<int> VI;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",4000000); sx_opt("steps_are_violation",1); }
static S num(long v){ S r; bool n=v<0; if(n) v=-v; do{ r.insert(r.begin(),(char)('0'+v%10)); v/=10; }while(v); return n?"-"+r:r; }
static VD pts(const char*p,int n){ VD r; for(int i=0;i<n;i++) r.push_back(sx_real_in(NM(p,i),-1e6,1e6)); return r; }
template<class I> static std::vector<I> elems(const char*p,int ne,int nn,int np){ static const int K[3][16]={{0,1,2,3,1,3,0,2,2,0,3,1,1,2,0,3},{3,2,1,0,0,2,3,1,1,0,2,3,2,3,1,0},{2,2,0,1,3,0,1,1,0,3,2,2,1,0,3,3}}; std::vector<I> r; int c=sx_choose(p,3); for(int i=0;i<ne*nn;i++) r.push_back((I)((K[c][i%16]+(i>=16?10:0))%np)); return r; }
template<class A,class B> static void same(const A&a,const B&b,const char*l){ sx_check(a.size()==b.size(),l); for(size_t i=0;i<a.size();i++) sx_check((long)(int)a[i]==(long)(int)b[i],l); }
static void same(const VD&a,const VD&b,const char*l){ sx_check(a.size()==b.size(),l); for(size_t i=0;i<a.size();i++) sx_eq(a[i],b[i],l); }
static void same(const VS&a,const VS&b,const char*l){ sx_check(a.size()==b.size(),l); for(size_t i=0;i<a.size();i++) sx_check(a[i]==b[i],l); }
static const S F="mesh"; static S&file(){ return sxio::put(F); }
static const char*PT="same points",*EL="same elements";
SX_ENTRY(obj_tri){ opt(); int np=1+sx_choose("np",13),ne=sx_choose("ne",4); VD X=pts("x",np*3); VU E=elems<U>("e",ne,3,np); dfm2::Write_Obj_UniformMesh(F,X.data(),np,E.data(),ne,3); VD Y(7,1.); VU G(5,1); switch(sx_choose("reader",3)){ case 0: dfm2::Read_Obj(Y,G,F); break; case 1: dfm2::Read_Obj2(F,Y,G); break; default: dfm2::Read_Obj3(Y,G,F); } same(Y,X,PT); same(G,E,EL); }
SX_ENTRY(obj_float){ opt(); int np=3,ne=2; std::vector<float> X; for(int i=0;i<9;i++) X.push_back((float)sx_grid(NM("x",i),-1000,1000)); VU E=elems<U>("e",ne,3,np); dfm2::Write_Obj_UniformMesh(F,X.data(),np,E.data(),ne,3); std::vector<float> Y; VU G; dfm2::Read_Obj3(Y,G,F); sx_check(Y.size()==X.size(),PT); for(int i=0;i<9;i++) sx_eq(Y[i],X[i],PT); same(G,E,EL); }
SX_ENTRY(obj_quad){ opt(); int np=4+sx_choose("np",2),ne=sx_choose("ne",4); VD X=pts("x",np*3); VU E=elems<U>("e",ne,4,np); dfm2::Write_Obj_UniformMesh(F,X.data(),np,E.data(),ne,4); VD Y(7,1.); VU G(5,1); if(sx_choose("reader",2)){ dfm2::Read_Obj_MeshQuad3(Y,G,F); same(G,E,EL); } else { dfm2::Read_Obj3(Y,G,F); VU W; for(int i=0;i<ne;i++) for(int k:{0,1,2,0,2,3}) W.push_back(E[i*4+k]); same(G,W,"two triangles per quad"); } same(Y,X,PT); }
SX_ENTRY(obj_mixed){ opt(); int np=5,ne=1+sx_choose("ne",3); VD X=pts("x",np*3); VI ind{0}; for(int i=0;i<ne;i++) ind.push_back(ind.back()+3+sx_choose(NM("q",i),2)); VI E=elems<int>("e",ind.back(),1,np); dfm2::Write_Obj_ElemJArray(F,X,ind,E); VD Y,Y2,t,n; VU G,ei,ex,et,en,gi; VS gn; S mtl; dfm2::Read_Obj3(Y,G,F); same(Y,X,PT); VU W; for(int i=0;i<ne;i++){ int o=ind[i]; for(int k:{0,1,2}) W.push_back(E[o+k]); if(ind[i+1]-o==4) for(int k:{0,2,3}) W.push_back(E[o+k]); } same(G,W,"one or two triangles per element"); sx_check(dfm2::Read_WavefrontObjWithMaterialMixedElem(mtl,Y2,t,n,ei,ex,et,en,gn,gi,F),"file is read"); same(Y2,X,PT); same(ei,ind,EL); same(ex,E,EL); same(et,VI(E.size(),-1),"no texture index"); same(en,VI(E.size(),-1),"no normal index"); same(gi,VI{0,ne},"one group"); }
SX_ENTRY(obj_groups){ opt(); int np=4,nt=1+sx_choose("nt",3); VD X=pts("x",np*3); VU E=elems<U>("e",nt,3,np),fl; U mx=0; for(int i=0;i<nt;i++){ fl.push_back(sx_choose(NM("f",i),3)); mx=std::max(mx,fl.back()); } dfm2::Write_Obj_TriFlag(F,X,E,fl); VD Y,t,n; VU ei,ex,et,en,gi; VS gn; S mtl; sx_check(dfm2::Read_WavefrontObjWithMaterialMixedElem(mtl,Y,t,n,ei,ex,et,en,gn,gi,F),"file is read"); same(Y,X,PT); VU W; VI I{0,0}; VS N{"default"}; for(U g=0;g<=mx;g++){ N.push_back("flag"+num(g)); for(int i=0;i<nt;i++) if(fl[i]==g) W.insert(W.end(),E.begin()+i*3,E.begin()+i*3+3); I.push_back((int)W.size()/3); } same(ex,W,"triangles by group"); same(gi,I,"groups"); same(gn,N,"group names"); }
SX_ENTRY(obj_parts){ opt(); std::vector<std::pair<VD,VU>> m; VD X; VU W; int nm=1+sx_choose("parts",3); for(int i=0;i<nm;i++){ int np=3+(i==1),nt=sx_choose(NM("nt",i),3); VD x=pts(i==0?"x":i==1?"y":"z",np*3); VU e=elems<U>(NM("e",i),nt,3,np); for(U k:e) W.push_back(k+(U)X.size()/3); X.insert(X.end(),x.begin(),x.end()); m.push_back({x,e}); } dfm2::Write_Obj(F,m); VD Y; VU G; dfm2::Read_Obj(Y,G,F); same(Y,X,"points of the parts in order"); same(G,W,"triangles of the parts with shifted indices"); }
static void unit(double*v,const char*p,int i){ static const double N[4][3]={{2,2,1},{3,0,4},{-6,2,3},{0,-1,0}}; int k=sx_choose(p,2)*2+i; double s=0.5*(1+i); for(int d=0;d<3;d++) v[d]=N[k][d]*s; }
struct WF{ S mtl; VD x,t,n; VU ei,ex,et,en,gi; VS gn; bool read(){ return dfm2::Read_WavefrontObjWithMaterialMixedElem(mtl,x,t,n,ei,ex,et,en,gn,gi,F); } };
// read, write and read again
SX_ENTRY(wavefront){ opt(); int np=3,nt=1+sx_choose("nt",3); VD X=pts("x",9),Tx=pts("t",4),N; for(int i=0;i<2;i++){ double v[3]; unit(v,i?"n1":"n0",i); for(double d:v) N.push_back(d); } VU e=elems<U>("e",nt,3,3),et=elems<U>("et",nt,3,2),en(et.rbegin(),et.rend()); VI I{0}; VS G{"default"}; { std::ofstream f(F); if(sx_choose("mtllib",2)) f<<"# comment\nmtllib a.mtl\n\n"; for(int i=0;i<np;i++) f<<"v "<<X[i*3]<<" "<<X[i*3+1]<<" "<<X[i*3+2]<<"\n"; for(int i=0;i<2;i++) f<<"vt "<<Tx[i*2]<<" "<<Tx[i*2+1]<<"\n"; for(int i=0;i<2;i++) f<<"vn "<<N[i*3]<<" "<<N[i*3+1]<<" "<<N[i*3+2]<<"\n"; for(int i=0;i<nt;i++){ if(sx_choose(NM("g",i),2)){ S g=S("part")+(char)('a'+i); f<<"g "<<g<<"\n"; G.push_back(g); I.push_back(i); } if(i==1&&sx_choose("u",2)) f<<"usemtl m\n"; f<<"f"; for(int k=0;k<3;k++) f<<(k?"  ":" ")<<e[i*3+k]+1<<"/"<<et[i*3+k]+1<<"/"<<en[i*3+k]+1; f<<"\n"; } } I.push_back(nt); WF a; sx_check(a.read(),"file is read"); for(int w=0;w<2;w++){ const char*l=w?"reading what was written":"content of the file"; if(w){ WF b; dfm2::Write_WavefrontObj(sxio::path(F),a.x,a.t,a.n,a.ex,a.et,a.en,a.gn,a.gi); sx_check(b.read(),"file is read"); a=b; } same(a.x,X,l); same(a.t,Tx,l); for(int i=0;i<2;i++){ double len=std::sqrt(N[i*3]*N[i*3]+N[i*3+1]*N[i*3+1]+N[i*3+2]*N[i*3+2]); for(int d=0;d<3;d++) sx_eq(a.n[i*3+d]*len,N[i*3+d],"unit normals"); } same(a.ex,e,l); same(a.et,et,l); same(a.en,en,l); same(a.gi,I,"groups"); same(a.gn,G,"group names"); } }
// every form of corner
SX_ENTRY(obj_corners){ opt(); VD X=pts("x",9); VI ex,et,en; { std::ofstream f(F); for(int i=0;i<3;i++) f<<"v "<<X[i*3]<<" "<<X[i*3+1]<<" "<<X[i*3+2]<<"\n"; f<<"# f 9 9 9\n"; int c=sx_choose("form",4); bool cr=sx_choose("end",2); if(sx_choose("long",2)) f<<"# "<<S(300,'-')<<"\n"; f<<"f"; for(int k=0;k<3;k++){ int a=1+sx_choose(NM("a",k),3),b=1+k*7,d=12-k; f<<" "<<a; ex.push_back(a-1); et.push_back(c==1||c==3?b-1:-1); en.push_back(c>=2?d-1:-1); if(c==1) f<<"/"<<b; if(c==2) f<<"//"<<d; if(c==3) f<<"/"<<b<<"/"<<d; } if(cr) f<<"\n"; } WF a; sx_check(a.read(),"file is read"); same(a.ex,ex,EL); same(a.et,et,"texture indices"); same(a.en,en,"normal indices"); VD Y; VU G; dfm2::Read_Obj2(F,Y,G); same(Y,X,PT); same(G,ex,EL); dfm2::Read_Obj3(Y,G,F); same(Y,X,PT); same(G,ex,EL); }
SX_ENTRY(material){ opt(); int n=1+sx_choose("n",2); static const char*V[3]={"0.25","1","0.5"}; static const double D[3]={0.25,1,0.5}; VI ck; { std::ofstream f(F); f<<"# materials\n\n"; for(int i=0;i<n;i++){ f<<"newmtl m"<<i<<"\n"; for(int k=0;k<5;k++){ int c=k<2?sx_choose(NM("k",i*5+k),k<1?3:2):(k+i)%3; ck.push_back(c); static const char*K[5]={"Kd","Ka","Ks","Ke","Ns"}; f<<K[k]<<" "<<V[c]; if(k<4) f<<" "<<V[(c+1)%3]<<" "<<V[(c+2)%3]; f<<"\n"; } f<<"illum "<<i+2<<"\nmap_Kd t"<<i<<".png\n"; } } std::vector<dfm2::MaterialWavefrontObj> m(3); dfm2::Read_WavefrontMaterial(F,m); sx_check((int)m.size()==n,"one material per name"); for(int i=0;i<n;i++){ sx_check(m[i].name_mtl=="m"+num(i)&&m[i].illum==i+2&&m[i].map_Kd=="t"+num(i)+".png","fields of the material"); float*k[4]={m[i].Kd,m[i].Ka,m[i].Ks,m[i].Ke}; for(int j=0;j<4;j++) for(int d=0;d<3;d++) sx_eq(k[j][d],D[(ck[i*5+j]+d)%3],"colours of the material"); sx_eq(m[i].Ns,D[ck[i*5+4]],"shininess of the material"); } }
SX_ENTRY(ply){ opt(); int np=1+sx_choose("np",4),ne=sx_choose("ne",4); VD X=pts("x",np*3); VI E=elems<int>("e",ne,3,np); VU EU(E.begin(),E.end()); if(sx_choose("writer",2)) dfm2::Write_Ply(F,X,E); else dfm2::Write_Ply(F,(U)np,X.data(),(U)ne,EU.data()); int c=sx_choose("comments",3); if(c){ S&f=file(); size_t k=f.find("element vertex"); for(int i=0;i<c;i++) f.insert(k,"comment made by hand"+S(i?300:1,'-')+"\n"); } VD Y(5,1.); VU G(5,1); dfm2::Read_Ply(Y,G,F); same(Y,X,PT); same(G,E,EL); int n1=0,n2=0; double*x=nullptr; U*t=nullptr; dfm2::Read_Ply(F,n1,x,n2,t); sx_check(n1==np&&n2==ne,"number of points and triangles"); for(int i=0;i<np*3;i++) sx_eq(x[i],X[i],PT); for(int i=0;i<ne*3;i++) sx_check((int)t[i]==E[i],EL); delete[] x; delete[] t; }
static VD decs(const char*p,int n){ static const double D[5]={0,1.5,-2.25,100.125,-0.5}; VD r; int c=sx_choose(p,3); for(int i=0;i<n;i++) r.push_back(D[(i*(c+1)+c)%5]+i/5); return r; }
SX_ENTRY(vtk){ opt(); sxio::dec()=1; int ty[4]={5,9,10,12},nn[4]={3,4,4,8}; int k=sx_choose("type",4),nd=2+sx_choose("dim",2); int np=8,ne=1+sx_choose("ne",3); VD X=decs("x",np*nd),V; for(int i=0;i<np*3;i++) V.push_back(0.25*i-3); VI E=elems<int>("e",ne,nn[k],np); int dat=sx_choose("data",4); { std::ofstream f(F); dfm2::WriteVTK_Points(f,"some name",X.data(),np,nd); dfm2::WriteVTK_Cells(f,ty[k],E.data(),ne); if(dat) f<<"POINT_DATA "<<np<<"\n"; if(dat==1) dfm2::WriteVTK_Data_PointVec(f,V.data(),np,3,3); if(dat==2) dfm2::WriteVTK_Data_PointVec(f,V.data(),np,3,2); if(dat==3) dfm2::WriteVTK_Data_PointScalar(f,V.data(),np,3); } VD Y,W; VI G; int t; dfm2::ReadVTK(Y,t,G,W,F); sx_check(t==ty[k],"element type"); same(G,E,EL); VD w; for(int i=0;i<np;i++) for(int d=0;d<3;d++) w.push_back(d<nd?X[i*nd+d]:0); same(Y,w,PT); w.clear(); for(int i=0;i<np;i++){ if(dat==1||dat==2) for(int d=0;d<3;d++) w.push_back(dat==2&&d==2?0:V[i*3+d]); if(dat==3) w.push_back(V[i*3]); } same(W,w,"values at the points"); }
SX_ENTRY(vtk_mapped){ opt(); sxio::dec()=1; VD X=decs("x",12),V=decs("v",8); VI map{2,0,3},E=elems<int>("e",2,3,3); dfm2::WriteVTK_MapTriScalar(F,"name",X,map,E,V,2,1); VD Y,W; VI G; int t; dfm2::ReadVTK(Y,t,G,W,F); VD w,v; for(int p:map){ for(int d=0;d<3;d++) w.push_back(X[p*3+d]); v.push_back(V[p*2+1]); } same(Y,w,PT); same(G,E,EL); same(W,v,"values at the points"); sx_check(t==5,"element type"); }
SX_ENTRY(vtk_mixed){ opt(); VI a=elems<int>("e",1+sx_choose("nt",2),4,9),b=elems<int>("e2",sx_choose("np",3),5,9),c=elems<int>("e3",sx_choose("nw",3),6,9); { std::ofstream f(F); dfm2::WriteVTK_Cells(f,a,b,c); } std::ifstream f(F); S s; int n,m; f>>s>>n>>m; int na=(int)a.size()/4,nb=(int)b.size()/5,nc=(int)c.size()/6; sx_check(s=="CELLS"&&n==na+nb+nc&&m==(int)(a.size()+b.size()+c.size())+n,"number of cells and entries"); for(int k=0;k<3;k++){ VI&e=k==0?a:k==1?b:c; int nn=4+k; for(size_t i=0;i<e.size()/nn;i++){ int q; f>>q; sx_check(q==nn,"corners of a cell"); for(int j=0;j<nn;j++){ f>>q; sx_check(q==e[i*nn+j],"corners of a cell"); } } } f>>s>>m; sx_check(s=="CELL_TYPES"&&m==n,"one type per cell"); for(int i=0;i<n;i++){ f>>m; sx_check(m==(i<na?10:i<na+nb?14:13),"type of the cell"); } sx_check(!f.fail(),"complete file"); }
SX_ENTRY(tri3d){ opt(); int np=1+sx_choose("np",4),ne=sx_choose("ne",4); VD X=pts("x",np*3); VI E=elems<int>("e",ne,3,np); { std::ofstream f(F); dfm2::Write_MeshTri3D(f,X,E,3); } std::ifstream f(F); VD Y; VI G; dfm2::Read_MeshTri3D(f,Y,G); same(Y,X,PT); same(G,E,EL); }
SX_ENTRY(stl){ opt(); sx_opt("sqrt_square",1); static const double P[5][3]={{0,0,0},{2,0,0},{0,1.5,0},{1,2,2},{0,-1,3}}; VD X; for(int i=0;i<5;i++) for(int d=0;d<3;d++) X.push_back(P[i][d]); X[14]=sx_real_in("z",2,4); VI E=sx_choose("e",2)?VI{0,1,2,4,1,0}:VI{2,0,4,0,1,3}; dfm2::Write_STL(F,X,E); std::ifstream f(F); S s,t; f>>s>>t; sx_check(s=="solid","header"); for(int i=0;i<2;i++){ double n[3],p[3][3]; f>>s>>t>>n[0]>>n[1]>>n[2]; sx_check(s=="facet"&&t=="normal","facet"); f>>s>>t; for(int k=0;k<3;k++){ f>>s>>p[k][0]>>p[k][1]>>p[k][2]; sx_check(s=="vertex","facet"); for(int d=0;d<3;d++) sx_eq(p[k][d],X[E[i*3+k]*3+d],"corners of the triangle"); } f>>s>>t; sx_check(s=="endloop"&&t=="endfacet","facet"); double a[3],b[3],c[3]; for(int d=0;d<3;d++){ a[d]=p[1][d]-p[0][d]; b[d]=p[2][d]-p[0][d]; } for(int d=0;d<3;d++) c[d]=a[(d+1)%3]*b[(d+2)%3]-a[(d+2)%3]*b[(d+1)%3]; double l2=c[0]*c[0]+c[1]*c[1]+c[2]*c[2]; for(int d=0;d<3;d++){ sx_eq(n[d]*n[d]*l2,c[d]*c[d],"unit normal of the triangle"); sx_le(0,n[d]*c[d],"unit normal of the triangle"); } } f>>s; sx_check(s=="endsolid"&&!f.fail(),"complete file"); }
SX_ENTRY(tetgen){ opt(); int np=4,nt=1+sx_choose("nt",2),nf=sx_choose("nf",3); VD X=pts("x",12); VI E=elems<int>("e",nt,4,np),G=elems<int>("g",nf,3,np); { std::ofstream a("m.node"),b("m.ele"),c("m.face"); a<<np<<" 3 0\n"; a<<""; } { sxio::put("m.node")="4 3 0 0\n"; std::string&k=sxio::put("m.node"); sxio::basic t; t.name="m.node"; for(int i=0;i<np;i++) t<<i<<" "<<X[i*3]<<" "<<X[i*3+1]<<" "<<X[i*3+2]<<"\n"; (void)k; t.name="m.ele"; t<<nt<<" 4 0\n"; for(int i=0;i<nt;i++) t<<i<<" "<<E[i*4]<<" "<<E[i*4+1]<<" "<<E[i*4+2]<<" "<<E[i*4+3]<<"\n"; t.name="m.face"; t<<nf<<" 0\n"; for(int i=0;i<nf;i++) t<<i<<" "<<G[i*3]<<" "<<G[i*3+1]<<" "<<G[i*3+2]<<"\n"; } VD Y; VI A,B; dfm2::Read_MeshTet3D_TetGen("m",Y,A,B); same(Y,X,PT); same(A,E,EL); VI W; for(int i=0;i<nf;i++) for(int k:{0,2,1}) W.push_back(G[i*3+k]); same(B,W,"faces turned outward"); }
static S col(S s,int left){ while((int)s.size()<8){ if(left) s+=" "; else s=" "+s; } return s; }
SX_ENTRY(nastran){ opt(); int np=3+sx_choose("np",2),nt=1+sx_choose("nt",2); static const int ID[2][4]={{1,2,3,4},{7,2,12,5}}; int c=sx_choose("ids",2),l=sx_choose("left",2); static const char*V[4]={"1.5","-0.25","12.","0.125"}; static const double D[4]={1.5,-0.25,12,0.125}; VD X; VU E=elems<U>("e",nt,3,np); S&f=file(); f="$ comment\nBEGIN BULK\n"; for(int i=0;i<np;i++){ f+="GRID    "+col(num(ID[c][i]),l)+col("",1); for(int d=0;d<3;d++){ f+=col(V[(i+d)%4],l); X.push_back(D[(i+d)%4]); } f+="\n"; if(i==1) f+="\n"; } for(int i=0;i<nt;i++){ f+="CTRIA3  "+col(num(i+1),l)+col("1",l); for(int k=0;k<3;k++) f+=col(num(ID[c][E[i*3+k]]),l); if(i+1<nt||sx_choose("newline",2)) f+="\n"; } if(sx_choose("long",2)){ S t="$"; for(int i=0;i<300;i++) t+="-"; f.insert(0,t+"\n"); } VD Y(3,9.); VU G(2,9); dfm2::Read_MeshTri3D_Nas(Y,G,F.c_str()); same(Y,X,PT); same(G,E,EL); }
// ------------------------------------------------------------------ npy
static S npy(const S&dict){ S s="\x93NUMPY"; s.push_back(1); s.push_back(0); s.push_back((char)(dict.size()&255)); s.push_back((char)(dict.size()>>8)); return s+dict; }
static const double RV[4]={1.5,-2,0.25,3}; static S raw(int n,bool fl){ static const uint64_t D[4]={0x3FF8000000000000ull,0xC000000000000000ull,0x3FD0000000000000ull,0x4008000000000000ull}; static const uint64_t Fl[4]={0x3FC00000,0xC0000000,0x3E800000,0x40400000}; S s; for(int i=0;i<n;i++) for(int b=0;b<(fl?4:8);b++) s.push_back((char)((fl?Fl:D)[i%4]>>(8*b))); return s; }
static S header(const S&shape){ S s; switch(sx_choose("style",3)){ case 0: s="{'descr': '<f8', 'fortran_order': False, 'shape': "+shape+", }"; break; case 1: s="{'shape': "+shape+", 'descr': '<f8', 'fortran_order': False, }"; break; default: s="{'descr':'<f4','shape':"+shape+",'fortran_order':False,}"; } int pad=sx_choose("pad",4); S p=S(pad==0?0:pad==1?118-s.size():pad==2?200:600,' '); return s+p+"\n"; }
SX_ENTRY(npy2){ opt(); int a=1+sx_choose("rows",2),b=1+sx_choose("cols",3); VD X; for(int i=0;i<a*b;i++) X.push_back(RV[i%4]); bool fl=sx_choose("float",2); int cut=sx_choose("cut",3); S s=npy(header("("+num(a)+", "+num(b)+")"))+raw(a*b,fl); if(cut) s.resize(s.size()-cut); file()=s; int n0=-7,n1=-7; VD Y; std::vector<float> Yf; bool ok=fl?dfm2::LoadNumpy_2Dim(n0,n1,Yf,F):dfm2::LoadNumpy_2Dim(n0,n1,Y,F); sx_check(ok==(cut==0),"complete files are accepted, truncated ones rejected"); if(cut) return; sx_check(n0==a&&n1==b,"shape of the array"); if(fl) Y.assign(Yf.begin(),Yf.end()); same(Y,X,"values of the array"); }
SX_ENTRY(npy1){ opt(); int a=1+sx_choose("rows",4); std::vector<float> X; for(int i=0;i<a;i++) X.push_back((float)RV[i%4]); int cut=sx_choose("cut",3); S s=npy(header("("+num(a)+",)"))+raw(a,true); if(cut) s.resize(s.size()-cut); file()=s; int n=-7; std::vector<float> Y; bool ok=dfm2::LoadNumpy_1DimF(n,Y,F); sx_check(ok==(cut==0),"complete files are accepted, truncated ones rejected"); if(cut) return; sx_check(n==a,"shape of the array"); sx_check(Y.size()==X.size(),"values of the array"); for(int i=0;i<a;i++) sx_check(Y[i]==X[i],"values of the array"); }
// any other beginning of the file is rejected, whatever the header claims
SX_ENTRY(npy_bad){ opt(); S s=npy("{'descr': '<f8', 'fortran_order': False, 'shape': (1, 2), }\n")+S(16,'\0'); int k=sx_choose("what",4); if(k==0){ int i=sx_choose("at",6); char c=(char)sx_bits("c",8); sx_assume(c!=s[i]); s[i]=c; } if(k==1) s.resize(sx_choose("size",14)); if(k==2){ int j=sx_choose("len",3); s[8]=(char)(j==0?255:j==1?0:90); s[9]=(char)(j==0?255:0); } if(k==3){ static const char*B[4]={"(3,)","3","()","(1, 2, 3)"}; s=npy(S("{'descr': '<f8', 'fortran_order': False, 'shape': ")+B[sx_choose("shape",4)]+", }\n")+S(16,'\0'); } file()=s; int a,b; VD Y; bool ok=dfm2::LoadNumpy_2Dim(a,b,Y,F); sx_check(!ok,"other files are rejected"); std::vector<float> Z; int n; bool o1=dfm2::LoadNumpy_1DimF(n,Z,F); sx_check(!o1||k==3,"other files are rejected"); }
SX_ENTRY(missing){ opt(); VD X{1,2}; VU E{3}; std::vector<dfm2::MaterialWavefrontObj> m; WF a; int n0=0,n1=0; std::vector<float> f; dfm2::Read_Obj(X,E,S("none")); dfm2::Read_Obj2("none",X,E); dfm2::Read_Obj3(X,E,S("none")); dfm2::Read_Ply(X,E,S("none")); dfm2::Read_WavefrontMaterial(S("none"),m); dfm2::Read_MeshTri3D_Nas(X,E,"none"); sx_check(!a.read()&&!dfm2::LoadNumpy_2Dim(n0,n1,X,"none")&&!dfm2::LoadNumpy_1DimF(n0,f,"none"),"missing file is reported"); sx_check(m.empty(),"no material"); }
