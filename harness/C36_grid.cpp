// C36: image interpolation, search grids, hash-grid kernels and height-field grids
#include "sx.h"
#include <cmath>
#include <cassert>
#include <climits>
#include <cstdint>
#include <vector>
#include <algorithm>
#include <functional>
#include "delfem2/img_interpolation.h"
#include "delfem2/grid3hash.h"
#include "delfem2/srchgrid.h"
#include "delfem2/grid2.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef unsigned int U;
static const char*NM(const char*p,int i){ static char b[600][12]; static int k=0; char*c=b[k++%600]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void optl(){ sx_opt("fold",1); sx_opt("native_tol_e",7); sx_opt("check_ms",5000); sx_opt("branch_ms",1000); }
static void opt(){ optl(); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",4000000); sx_opt("steps_are_violation",1); }
// ------------------------------------------------------------------ images
static unsigned char pix(int v,int i){ return v==0?(37*i+11)%256:v==1?255:(i%2?0:255-(i%7)); }
SX_ENTRY(bilinear){ opt(); static const int D[5][2]={{1,1},{1,3},{3,1},{2,2},{3,4}}; int id=sx_choose("dim",5), w=D[id][0],h=D[id][1]; int iv=sx_choose("image",2); std::vector<unsigned char> im(3*w*h); for(int i=0;i<3*w*h;i++) im[i]=pix(iv?2:0,i); double x=sx_real_in("x",0,w),y=sx_real_in("y",0,h); sx_assume((x<w)&(y<h)); double c[3]; dfm2::ImageInterpolation_Bilinear(c,w,h,im.data(),x,y);
  int ix=0,iy=0; for(int i=1;i<w;i++) if(sx_fork(x>=i)) ix=i; for(int i=1;i<h;i++) if(sx_fork(y>=i)) iy=i; int jx=std::min(ix+1,w-1),jy=std::min(iy+1,h-1); for(int k=0;k<3;k++){ double a=im[(iy*w+ix)*3+k]*(1-(x-ix))+im[(iy*w+jx)*3+k]*(x-ix), b=im[(jy*w+ix)*3+k]*(1-(x-ix))+im[(jy*w+jx)*3+k]*(x-ix); sx_eq(c[k]*255,a*(1-(y-iy))+b*(y-iy),"bilinear blend of the four pixels around"); } }
SX_ENTRY(bilinear_centre){ opt(); int w=1+sx_choose("w",T?5:3),h=1+sx_choose("h",T?5:3); std::vector<unsigned char> im(3*w*h); for(int i=0;i<3*w*h;i++) im[i]=pix(0,i); int x=sx_choose("x",w),y=sx_choose("y",h); double c[3]; dfm2::ImageInterpolation_Bilinear(c,w,h,im.data(),x,y); for(int k=0;k<3;k++) sx_eq(c[k]*255,(double)im[(y*w+x)*3+k],"a pixel centre gives the pixel"); }
SX_ENTRY(bilinear_const){ opt(); int w=1+sx_choose("w",3),h=1+sx_choose("h",3); int v=sx_choose("v",4)*85; std::vector<unsigned char> im(3*w*h,(unsigned char)v); double x=sx_real_in("x",0,w),y=sx_real_in("y",0,h); sx_assume((x<w)&(y<h)); double c[3]; dfm2::ImageInterpolation_Bilinear(c,w,h,im.data(),x,y); for(int k=0;k<3;k++) sx_eq(c[k]*255,v,"a uniform image gives its colour everywhere"); }
// ------------------------------------------------------------------ search grid
struct GR{ dfm2::SearchGrid g; std::vector<double> p; int n; };
static void make(GR&r,int n,bool initial,int place){ static const double F[5][3]={{0.5,0.5,0.5},{2.25,0.5,1.5},{2.5,1.25,0.25},{0.25,1.75,1.75},{1.5,0.25,0.75}}; double lo[3]={0,0,0},hi[3]={place==1?2.75:3,2,2}; r.n=n; r.g.Initialize(lo,hi,1.0,n); for(int i=0;i<n;i++) for(int k=0;k<3;k++) r.p.push_back(F[i][k]); if(n){ int ax=sx_choose("axis",3); double s=sx_real_in("s",-1,4); r.p[ax]=s; }
  for(int i=0;i<n;i++){ r.g.aGrid2Obj[i].igrid=r.g.GetGridIndex(&r.p[3*i]); r.g.aGrid2Obj[i].iobj=i; } r.g.PostProcess(initial); }
static int cellof(double v,int n){ int c=0; for(int i=1;i<n;i++) if(sx_fork(v>=i)) c=i; return c; }
SX_ENTRY(grid_cells){ opt(); GR r; int n=sx_choose("n",T?6:5); make(r,n,sx_choose("initial",2),sx_choose("size",2)); sx_check(r.g.nx==3&&r.g.ny==2&&r.g.nz==2,"cells cover the box"); sx_check(r.g.aGrid2Obj_ind.size()==13&&r.g.aGrid2Obj_ind[0]==0&&(int)r.g.aGrid2Obj_ind[12]==n,"every object is in one cell list"); std::vector<int> seen(n,0); int cl[6][3]; for(int i=0;i<n;i++){ cl[i][0]=cellof(r.p[3*i],3); cl[i][1]=cellof(r.p[3*i+1],2); cl[i][2]=cellof(r.p[3*i+2],2); }
  for(U c=0;c<12;c++){ sx_check(r.g.aGrid2Obj_ind[c]<=r.g.aGrid2Obj_ind[c+1],"cell lists are in order"); for(U k=r.g.aGrid2Obj_ind[c];k<r.g.aGrid2Obj_ind[c+1];k++){ U o=r.g.aGrid2Obj[k].iobj; sx_check((int)o<n,"object index in range"); if((int)o>=n) return; seen[o]++; sx_check(c==(U)(cl[o][2]*6+cl[o][1]*3+cl[o][0]),"objects are listed in the cell that contains them"); } } for(int i=0;i<n;i++) sx_check(seen[i]==1,"each object is listed once"); }
SX_ENTRY(grid_ring){ opt(); GR r; int n=sx_choose("n",T?6:4); make(r,n,true,0); int ax=sx_choose("qaxis",3); double q[3]={1.5,0.75,1.25}; q[ax]=sx_real_in("q",-1,4); std::vector<U> o={7,8}; r.g.GetOneRingNeighbor(o,q); int qc[3]={cellof(q[0],3),cellof(q[1],2),cellof(q[2],2)}; std::vector<int> seen(n,0); for(U k:o){ sx_check((int)k<n,"object index in range"); if((int)k>=n) return; seen[k]++; } for(int i=0;i<n;i++){ int c[3]={cellof(r.p[3*i],3),cellof(r.p[3*i+1],2),cellof(r.p[3*i+2],2)}; bool in=true; for(int k=0;k<3;k++) in=in&&std::abs(c[k]-qc[k])<=1; sx_check(seen[i]==(in?1:0),"exactly the objects of the cells around are returned, each once"); } }
SX_ENTRY(grid_update){ opt(); GR r; make(r,4,true,0); int i=sx_choose("who",4); double v=sx_real_in("v",-1,4); r.p[3*i]=v; for(auto&o:r.g.aGrid2Obj) o.igrid=r.g.GetGridIndex(&r.p[3*o.iobj]); r.g.PostProcess(false); std::vector<int> seen(4,0); for(U c=0;c<12;c++) for(U k=r.g.aGrid2Obj_ind[c];k<r.g.aGrid2Obj_ind[c+1];k++){ U o=r.g.aGrid2Obj[k].iobj; seen[o]++; sx_check(r.g.aGrid2Obj[k].igrid==c&&r.g.GetGridIndex(&r.p[3*o])==c,"moved objects change their cell"); } for(int k=0;k<4;k++) sx_check(seen[k]==1,"each object is listed once after an update"); }
SX_ENTRY(sort){ opt(); int n=sx_choose("n",T?6:5); std::vector<int> v; for(int i=0;i<n;i++) v.push_back(sx_int(NM("v",i),-100,100)); std::vector<int> a=v; dfm2::insertion_sort_stl(a); for(int i=0;i+1<n;i++) sx_check(a[i]<=a[i+1],"sorted"); std::vector<int> b=v; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(sx_fork(b[j]<b[i])) std::swap(b[i],b[j]); for(int i=0;i<n;i++) sx_check(a[i]==b[i],"sorting keeps every element"); }
// ------------------------------------------------------------------ kernel of the material points
SX_ENTRY(kernel){ opt(); double x=sx_real_in("x",0,1); sx_assume(x<1); double s=0,m=0,d=0,dm=0; for(int i=-2;i<=3;i++){ double w=dfm2::WGrid1Cubic(x-i), g=dfm2::dWGrid1Cubic(x-i); s+=w; m+=i*w; d+=g; dm+=i*g; sx_le(0,w,"weights are not negative"); } sx_eq(s,1,"weights sum to one"); sx_eq(m,x,"weights reproduce the position"); sx_eq(d,0,"derivatives sum to zero"); sx_eq(dm,1,"derivatives reproduce a slope"); }
SX_ENTRY(kernel_derivative){ opt(); double x=sx_real_in("x",-3,3); sx_assume((x!=0)&(x!=1)&(x!=-1)&(x!=2)&(x!=-2)); double w=dfm2::WGrid1Cubic(x), g=dfm2::dWGrid1Cubic(x); double dw=sx_d(w,x); sx_eq(g,dw,"derivative of the kernel"); double wm=dfm2::WGrid1Cubic(-x); sx_eq(w,wm,"kernel is symmetric"); double gm=dfm2::dWGrid1Cubic(-x); sx_eq(g,-gm,"derivative is antisymmetric"); if(sx_fork((x>=2)|(x<=-2))) sx_eq(w,0,"support is two cells"); }
SX_ENTRY(kernel3){ opt(); double y=sx_real_in("y",-2.5,2.5); static const double P[3][2]={{0.25,-0.5},{1.25,0.75},{-1.5,0.25}}; int k=sx_choose("at",3); double h=sx_choose("h",2)?2:0.5; int ax=sx_choose("ax",3); sx_assume((y!=0)&(y*h!=1)&(y*h!=-1)&(y*h!=2)&(y*h!=-2)); double p[3]={P[k][0],P[k][1],0.375}; p[ax]=y; double w=dfm2::WGrid3Cubic(h,p[0],p[1],p[2]); double a=dfm2::WGrid1Cubic(h*p[0]),b=dfm2::WGrid1Cubic(h*p[1]),c=dfm2::WGrid1Cubic(h*p[2]); sx_eq(w,a*b*c,"product kernel"); double g=dfm2::dWGrid3Cubic(h,p[ax],p[(ax+1)%3],p[(ax+2)%3]); double dw=sx_d(w,y); sx_eq(g,dw,"gradient of the product kernel"); }
SX_ENTRY(hash){ optl(); int a[3],b[3]; for(int i=0;i<3;i++) a[i]=sx_int(NM("a",i),-1000000000,1000000000); for(int i=0;i<3;i++) b[i]=sx_int(NM("b",i),-1000000000,1000000000); dfm2::GridCoordinate3 p(a[0],a[1],a[2]),q(b[0],b[1],b[2]),r(a[0],a[1],a[2]); bool e=p==q; sx_check(e==((a[0]==b[0])&(a[1]==b[1])&(a[2]==b[2])),"cells are equal when all three coordinates are"); sx_check((p==r)&(std::hash<dfm2::GridCoordinate3>()(p)==std::hash<dfm2::GridCoordinate3>()(r)),"equal cells have equal hashes"); }
// ------------------------------------------------------------------ height fields
SX_ENTRY(laplacian){ optl(); int nx=1+sx_choose("nx",T?4:3),ny=1+sx_choose("ny",T?4:3); std::vector<float> z(nx*ny),l(nx*ny,9.f),s(nx*ny,9.f); for(auto i=0u;i<z.size();i++) z[i]=(float)sx_real_in(NM("z",i),-4,4); dfm2::LaplacianGrid(l,z,ny,nx); double al=0.75; dfm2::LaplacianSmoothGrid(s,al,z,ny,nx); auto at=[&](int x,int y){ x=std::max(0,std::min(nx-1,x)); y=std::max(0,std::min(ny-1,y)); return (double)z[y*nx+x]; }; double sum=0; for(int y=0;y<ny;y++) for(int x=0;x<nx;x++){ double c=at(x,y),r=at(x-1,y)+at(x+1,y)+at(x,y-1)+at(x,y+1); sx_eq(l[y*nx+x],4*c-r,"five-point operator with mirrored borders"); sx_eq(s[y*nx+x],al*r/4+(1-al)*c,"smoothing blends with the average of the neighbours"); sum+=l[y*nx+x]; } sx_eq(sum,0,"operator conserves the total"); }
