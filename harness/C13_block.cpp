// C13: block compressed-row matrix against its dense counterpart
#include "sx.h"
#include <vector>
#include <complex>
#include <cassert>
#include "delfem2/ls_block_sparse.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef dfm2::CMatrixSparse<double> M; typedef std::vector<double> V;
static const char*NM(const char*p,int i){ static char b[400][12]; static int k=0; char*c=b[k++%400]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=1000) c[j++]='0'+i/1000%10; if(i>=100) c[j++]='0'+i/100%10; if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
struct D { int n,l; V a; double&at(int i,int j){ return a[i*n*l+j]; } };
// pattern: bit (i,j) off-diagonal; off-diagonals of a row listed in descending order when rev
static void pat(M&m,int nb,int l,int mask,bool rev){ m.Initialize(nb,l,true); std::vector<unsigned> ci(1,0),rp; for(int i=0;i<nb;i++){ for(int q=0;q<nb;q++){ int j=rev?nb-1-q:q; if(j==i) continue; int b=i*(nb-1)+(j<i?j:j-1); if(mask>>b&1) rp.push_back(j); } ci.push_back((unsigned)rp.size()); } m.SetPattern(ci.data(),ci.size(),rp.data(),rp.size()); m.setZero(); }
static void fill(M&m,D&d){ int nb=m.nrowblk_,l=m.nrowdim_,b=l*l; d.n=nb; d.l=l; d.a.assign(nb*l*nb*l,0); for(size_t i=0;i<m.val_crs_.size();i++) m.val_crs_[i]=sx_real(NM("c",(int)i)); for(size_t i=0;i<m.val_dia_.size();i++) m.val_dia_[i]=sx_real(NM("d",(int)i)); for(int i=0;i<nb;i++){ for(unsigned p=m.col_ind_[i];p<m.col_ind_[i+1];p++) for(int s=0;s<l;s++) for(int t=0;t<l;t++) d.at(i*l+s,m.row_ptr_[p]*l+t)+=m.val_crs_[p*b+s*l+t]; for(int s=0;s<l;s++) for(int t=0;t<l;t++) d.at(i*l+s,i*l+t)+=m.val_dia_[i*b+s*l+t]; } }
static void dense(const M&m,D&d){ int nb=m.nrowblk_,l=m.nrowdim_,b=l*l; d.n=nb; d.l=l; d.a.assign(nb*l*nb*l,0); for(int i=0;i<nb;i++){ for(unsigned p=m.col_ind_[i];p<m.col_ind_[i+1];p++) for(int s=0;s<l;s++) for(int t=0;t<l;t++) d.at(i*l+s,m.row_ptr_[p]*l+t)+=m.val_crs_[p*b+s*l+t]; for(int s=0;s<l;s++) for(int t=0;t<l;t++) d.at(i*l+s,i*l+t)+=m.val_dia_[i*b+s*l+t]; } }
static V vec(const char*p,int n){ V v(n); for(int i=0;i<n;i++) v[i]=sx_real(NM(p,i)); return v; }
static void same(D&a,D&b,const char*msg){ for(size_t i=0;i<a.a.size();i++) sx_eq(a.a[i],b.a[i],msg); }
static void matvec(int nb,int l,int mask,bool rev){ M m; D d; pat(m,nb,l,mask,rev); fill(m,d); int n=nb*l; V x=vec("x",n),y=vec("y",n),z=y; double al=sx_real("al"),be=sx_real("be"); m.MatVec(z.data(),al,x.data(),be); for(int i=0;i<n;i++){ double r=be*y[i]; for(int j=0;j<n;j++) r+=al*d.at(i,j)*x[j]; sx_eq(z[i],r,"matrix-vector product"); } z=y; m.MatTVec(z.data(),al,x.data(),be); for(int i=0;i<n;i++){ double r=be*y[i]; for(int j=0;j<n;j++) r+=al*d.at(j,i)*x[j]; sx_eq(z[i],r,"transposed product"); } }
SX_ENTRY(matvec1){ int b=1+sx_choose("nb",3); matvec(b,1,sx_choose("mask",b==1?1:b==2?4:64),sx_choose("rev",2)); }
SX_ENTRY(matvec2){ matvec(3,2,sx_choose("mask",64),sx_choose("rev",2)); }
static const int MK[6]={0,63,0x15,0x2a,0x0b,0x34};
SX_ENTRY(matvec3){ matvec(3,3,MK[sx_choose("mask",6)],false); }
SX_ENTRY(matvec4){ matvec(3,4,MK[sx_choose("mask",6)],false); }
SX_ENTRY(matvec5){ matvec(3,5,MK[sx_choose("mask",T?6:3)],false); }
SX_ENTRY(rect){ M m; int r=sx_choose("dim",2)?2:3,c=5-r; pat(m,3,1,MK[sx_choose("mask",6)],false); m.nrowdim_=r; m.ncoldim_=c; m.val_crs_.resize(m.row_ptr_.size()*6); m.val_dia_.resize(18); V A(9*6,0); for(size_t i=0;i<m.val_crs_.size();i++) m.val_crs_[i]=sx_real(NM("c",(int)i)); for(size_t i=0;i<18;i++) m.val_dia_[i]=sx_real(NM("d",(int)i)); int nc=3*c; for(int i=0;i<3;i++) for(int s=0;s<r;s++) for(int t=0;t<c;t++){ A[(i*r+s)*nc+i*c+t]=m.val_dia_[i*6+s*c+t]; for(unsigned p=m.col_ind_[i];p<m.col_ind_[i+1];p++) A[(i*r+s)*nc+m.row_ptr_[p]*c+t]=m.val_crs_[p*6+s*c+t]; } double al=sx_real("al"),be=sx_real("be"); V x=vec("x",3*c),y=vec("y",3*r),z=y; m.MatVec(z.data(),al,x.data(),be); for(int i=0;i<3*r;i++){ double q=be*y[i]; for(int j=0;j<nc;j++) q+=al*A[i*nc+j]*x[j]; sx_eq(z[i],q,"rectangular product"); } V u=vec("u",3*r),w=vec("w",3*c),v=w; m.MatTVec(v.data(),al,u.data(),be); for(int j=0;j<nc;j++){ double q=be*w[j]; for(int i=0;i<3*r;i++) q+=al*A[i*nc+j]*u[i]; sx_eq(v[j],q,"rectangular transposed product"); } }
SX_ENTRY(degenerate){ int N=1+sx_choose("N",3); M m; D d; pat(m,3,1,sx_choose("mask",64),false); fill(m,d); V x=vec("x",3*N),y=vec("y",3*N),z=y; double al=sx_real("al"),be=sx_real("be"); m.MatVecDegenerate(z.data(),N,al,x.data(),be); for(int i=0;i<3;i++) for(int k=0;k<N;k++){ double r=be*y[i*N+k]; for(int j=0;j<3;j++) r+=al*d.at(i,j)*x[j*N+k]; sx_eq(z[i*N+k],r,"degenerate product"); } }
SX_ENTRY(complex_matvec){ typedef std::complex<double> Z; dfm2::CMatrixSparse<Z> m; int l=1+sx_choose("l",2); m.Initialize(2,l,true); unsigned ci[3]={0,1,2},rp[2]={1,0}; m.SetPattern(ci,3,rp,2); int b=l*l; for(int i=0;i<2*b;i++){ m.val_crs_[i]=Z(sx_real(NM("c",i)),sx_real(NM("ci",i))); m.val_dia_[i]=Z(sx_real(NM("d",i)),sx_real(NM("di",i))); } Z x[4],y[4],z[4]; for(int i=0;i<2*l;i++){ x[i]=Z(sx_real(NM("x",i)),sx_real(NM("xi",i))); y[i]=z[i]=Z(sx_real(NM("y",i)),sx_real(NM("yi",i))); } double ar=sx_real("ar"),ai=sx_real("ai"); m.MatVec(z,Z(ar,ai),x,Z(2,0)); for(int i=0;i<2;i++) for(int s=0;s<l;s++){ double re=0,im=0; for(int t=0;t<l;t++){ const Z&D=m.val_dia_[i*b+s*l+t]; const Z&C=m.val_crs_[i*b+s*l+t]; const Z&u=x[i*l+t]; const Z&v=x[(1-i)*l+t]; re+=D.real()*u.real()-D.imag()*u.imag()+C.real()*v.real()-C.imag()*v.imag(); im+=D.real()*u.imag()+D.imag()*u.real()+C.real()*v.imag()+C.imag()*v.real(); } sx_eq(z[i*l+s].real(),2*y[i*l+s].real()+ar*re-ai*im,"complex product, real part"); sx_eq(z[i*l+s].imag(),2*y[i*l+s].imag()+ar*im+ai*re,"complex product, imaginary part"); } }
SX_ENTRY(fixed_bc){ int l=1+sx_choose("l",3); M m; D d,e; pat(m,3,l,l==1?sx_choose("mask",64):MK[sx_choose("mask",6)],false); fill(m,d); int n=3*l; int f[9]; if(l<3||T) for(int i=0;i<n;i++) f[i]=sx_choose(NM("f",i),2)*(1+i%2); else { int k=sx_choose("fk",10); for(int i=0;i<n;i++) f[i]=(i==k)||(k==9&&i%2); } m.SetFixedBC(f); dense(m,e); for(int i=0;i<n;i++) for(int j=0;j<n;j++) sx_eq(e.at(i,j),(f[i]||f[j])?(i==j?1.0:0.0):d.at(i,j),"boundary condition elimination"); }
SX_ENTRY(fixed_parts){ int l=1+sx_choose("l",2); M m; D d,e; pat(m,3,l,63,false); fill(m,d); int n=3*l,f[6]; for(int i=0;i<n;i++) f[i]=sx_choose(NM("f",i),2); int w=sx_choose("part",3); double v=sx_real("v"); if(w==0) m.SetFixedBC_Dia(f,v); else if(w==1) m.SetFixedBC_Row(f); else m.SetFixedBC_Col(f); dense(m,e); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ bool blk=i/l==j/l; double r=d.at(i,j); if(w==0&&blk&&(f[i]||f[j])) r=i==j?v:0; if(w==1&&!blk&&f[i]) r=0; if(w==2&&!blk&&f[j]) r=0; sx_eq(e.at(i,j),r,"partial boundary condition"); } }
SX_ENTRY(add_dia){ int l=1+sx_choose("l",4); M m; D d,e; pat(m,3,l,MK[sx_choose("mask",6)],false); fill(m,d); double v=sx_real("v"); m.AddDia(v); dense(m,e); for(int i=0;i<3*l;i++) for(int j=0;j<3*l;j++) sx_eq(e.at(i,j),d.at(i,j)+(i==j?v:0),"diagonal shift"); }
SX_ENTRY(scale){ int l=1+sx_choose("l",3); M m; D d,e; pat(m,3,l,l==1?sx_choose("mask",64):MK[sx_choose("mask",6)],false); fill(m,d); int n=3*l; bool blk=sx_choose("blk",2); V s=vec("s",n); if(blk) dfm2::MatSparse_ScaleBlk_LeftRight(m,s.data()); else dfm2::MatSparse_ScaleBlkLen_LeftRight(m,s.data()); dense(m,e); for(int i=0;i<n;i++) for(int j=0;j<n;j++) sx_eq(e.at(i,j),blk?s[i/l]*s[j/l]*d.at(i,j):s[i]*s[j]*d.at(i,j),"left-right scaling"); }
SX_ENTRY(symmetry){ int l=1+sx_choose("l",3); M m; D d; pat(m,3,l,l==1?sx_choose("mask",64):MK[sx_choose("mask",6)],sx_choose("rev",2)); fill(m,d); int n=3*l; double r=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double q=d.at(i,j)-d.at(j,i); int bi=i/l,bj=j/l; auto has=[&](int a,int b){ for(unsigned p=m.col_ind_[a];p<m.col_ind_[a+1];p++) if((int)m.row_ptr_[p]==b) return true; return false; }; if(bi==bj||(has(bi,bj)&&has(bj,bi))) r+=q*q; else if(has(bi,bj)) r+=d.at(i,j)*d.at(i,j); } sx_eq(dfm2::CheckSymmetry(m),r,"asymmetry measure"); }
// element assembly
template<int L> static void merge33(){ M m; int nb=4; pat(m,nb,L,0xfff,sx_choose("rev",2)); static const unsigned Q[5][3]={{0,1,2},{3,1,0},{2,0,3},{1,3,2},{3,2,1}}; int w=sx_choose("first",5),ord=sx_choose("order",2); std::vector<unsigned> buf; D e,r; r.n=nb; r.l=L; r.a.assign(nb*L*nb*L,0); for(int it=0;it<2;it++){ const unsigned*a=Q[(w+it)%5]; unsigned c[3]={a[0],a[1],a[2]}; if(ord&&it==1){ c[0]=a[1]; c[1]=a[2]; c[2]=a[0]; } double em[3][3][L][L]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int s=0;s<L;s++) for(int t=0;t<L;t++){ em[i][j][s][t]=sx_real(NM(it?"f":"e",((i*3+j)*L+s)*L+t)); r.at(a[i]*L+s,c[j]*L+t)+=em[i][j][s][t]; } bool ok=dfm2::Merge<3,3,L,L,double>(m,a,c,em,buf); sx_check(ok,"assembly succeeds"); } dense(m,e); same(e,r,"assembled matrix"); for(unsigned b:buf) sx_check(b==UINT_MAX,"work buffer is cleaned"); }
SX_ENTRY(merge1b){ merge33<1>(); } SX_ENTRY(merge2){ merge33<2>(); } SX_ENTRY(merge3){ merge33<3>(); }
SX_ENTRY(merge_scalar){ M m; int nb=4; pat(m,nb,1,0xfff,sx_choose("rev",2)); static const unsigned Q[5][3]={{0,1,2},{3,1,0},{2,0,3},{1,3,2},{3,2,1}}; int w=sx_choose("first",5),ord=sx_choose("order",2),k=sx_choose("variant",2); std::vector<unsigned> buf; D e,r; r.n=nb; r.l=1; r.a.assign(nb*nb,0); for(int it=0;it<2;it++){ const unsigned*a=Q[(w+it)%5]; unsigned c[3]={a[0],a[1],a[2]}; if(ord&&it==1){ c[0]=a[1]; c[1]=a[2]; c[2]=a[0]; } double em[3][3]; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ em[i][j]=sx_real(NM(it?"f":"e",i*3+j)); r.at(a[i],c[j])+=em[i][j]; } bool ok=k?dfm2::Merge<3,3,double>(m,a,c,em,buf):dfm2::Mearge<double>(m,3,a,3,c,1,&em[0][0],buf); sx_check(ok,"assembly succeeds"); } dense(m,e); same(e,r,"assembled matrix"); }
// elements on a shared edge, on the exact pattern, re-initialisation and re-use
SX_ENTRY(reuse){ M m; pat(m,3,2,63,false); D d,e; fill(m,d); m.setZero(); dense(m,e); for(double v:e.a) sx_eq(v,0,"zeroed"); m.Initialize(2,1,true); unsigned ci[3]={0,1,1},rp[1]={1}; m.SetPattern(ci,3,rp,1); m.setZero(); fill(m,d); V x=vec("x",2),y(2,0); m.MatVec(y.data(),1,x.data(),0); for(int i=0;i<2;i++) sx_eq(y[i],d.at(i,0)*x[0]+d.at(i,1)*x[1],"product after re-initialisation"); m.Clear(); sx_check(m.nrowblk_==0&&m.val_crs_.empty()&&m.val_dia_.empty()&&m.row_ptr_.empty(),"cleared"); }
