// Deciding layer: slicing, model reuse, z3 (bit-blasting with exact wide arithmetic for
// integer-grid reals; QF_NRA for genuinely real inputs).
#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
#include <unordered_set>
#include <unistd.h>
static inline double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Num { mpq_class q; bool ap=false; int sp=0; }; // sp: 0 finite 1 inf 2 -inf 3 nan
struct Model { std::vector<mpq_class> r; std::vector<uint64_t> b; std::vector<char> has;
  void fit(size_t n){ if(has.size()<n){ r.resize(n); b.resize(n,0); has.resize(n,0);} } };

static inline mpq_class mpqFromDouble(double d){ mpq_class q; mpq_set_d(q.get_mpq_t(),d); return q; }
static inline double toD(const mpq_class&q){ // robust conversion
  return q.get_d(); }

struct Eval {
  const Model&m; std::unordered_map<E*,uint64_t> mb; std::unordered_map<E*,Num> mr; bool uncertain=false; bool dom=false;
  Eval(const Model&m_):m(m_){}
  uint64_t bv(E*e){
    if(e->k==KC)return e->c;
    if(e->k==KVAR){ return e->c<m.has.size()&&m.has[e->c]?m.b[e->c]&maskw(e->w):0; }
    auto it=mb.find(e); if(it!=mb.end())return it->second; uint64_t r=0; E**a=e->a;
    switch(e->k){
      case KCONCAT: r=(bv(a[0])<<a[1]->w)|bv(a[1]); break; case KEXTRACT: r=(bv(a[0])>>e->c)&maskw(e->w); break;
      case KZEXT: r=bv(a[0]); break; case KSEXT: r=(uint64_t)sx64(bv(a[0]),a[0]->w)&maskw(e->w); break;
      case KITE: r=bv(a[0])?bv(a[1]):bv(a[2]); break; case KEQ: r=bv(a[0])==bv(a[1]); break;
      case KULT: r=bv(a[0])<bv(a[1]); break; case KULE: r=bv(a[0])<=bv(a[1]); break;
      case KSLT: r=sx64(bv(a[0]),a[0]->w)<sx64(bv(a[1]),a[1]->w); break; case KSLE: r=sx64(bv(a[0]),a[0]->w)<=sx64(bv(a[1]),a[1]->w); break;
      case RLT: case RLE: case REQ: { Num x=re(a[0]),y=re(a[1]); if(x.sp||y.sp){ if(x.sp==3||y.sp==3)r=0; else { int u=x.sp==1?1:x.sp==2?-1:0,v=y.sp==1?1:y.sp==2?-1:0; r=e->k==RLT?u<v:e->k==RLE?u<=v:u==v; } uncertain=true; break; }
        if(x.ap||y.ap){ mpq_class d=x.q-y.q; double dd=toD(d), sc=1+fabs(toD(x.q))+fabs(toD(y.q)); if(fabs(dd)<1e-9*sc) uncertain=true; }
        r=e->k==RLT?x.q<y.q:e->k==RLE?x.q<=y.q:x.q==y.q; break; }
      case RBITS: { double d=toD(re(a[0]).q); if(e->w==64) memcpy(&r,&d,8); else { float f=d; uint32_t u; memcpy(&u,&f,4); r=u; } break; }
      default: r=Ctx::foldbv(e->k,bv(a[0]),bv(a[1]),e->w); }
    mb[e]=r; return r; }
  Num re(E*e){
    Num r;
    if(e->k==RC){ r.q=*e->q; return r; } if(e->k==RSPEC){ r.sp=e->c+1; return r; }
    if(e->k==RVAR){ if(e->c<m.has.size()&&m.has[e->c]){ r.q=m.r[e->c]; r.ap=m.has[e->c]==2; } else { auto&v=C->vars[e->c]; r.q=v.haslo?(v.hashi?mpq_class((v.lo+v.hi)/2):mpq_class(v.lo+1)):mpq_class(0); } return r; }
    auto it=mr.find(e); if(it!=mr.end())return it->second; E**a=e->a;
    auto lim=[&](Num&n){ if(mpz_sizeinbase(n.q.get_den_mpz_t(),2)>600||mpz_sizeinbase(n.q.get_num_mpz_t(),2)>900){ double d=toD(n.q); if(std::isfinite(d)){ n.q=mpqFromDouble(d); n.ap=true; } } };
    switch(e->k){
      case RADD: case RMUL: case RDIV: { Num x=re(a[0]),y=re(a[1]); r.ap=x.ap||y.ap; if(x.sp||y.sp){ r.sp=3; break; }
        if(e->k==RADD) r.q=x.q+y.q; else if(e->k==RMUL) r.q=x.q*y.q; else { if(y.q==0){ r.sp=3; dom=true; } else r.q=x.q/y.q; } lim(r); break; }
      case RSQRT: { Num x=re(a[0]); if(x.sp){r.sp=3;break;} if(x.q<0){ if(x.ap&&toD(x.q)>-1e-9){ r.q=0;r.ap=true; } else { r.sp=3; dom=true; } break; } mpz_class n=x.q.get_num(),d=x.q.get_den(); if(!x.ap&&mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())) r.q=mpq_class(sqrt(n),sqrt(d)); else { r.q=mpqFromDouble(std::sqrt(toD(x.q))); r.ap=true; } break; }
      case RITE: r=bv(a[0])?re(a[1]):re(a[2]); break;
      case I2R: { mpz_class z((long)sx64(bv(a[0]),a[0]->w)); r.q=mpq_class(z); break; }
      case RFUN: { double x=toD(re(a[0]).q), y=a[1]?toD(re(a[1]).q):0, v=0; switch(e->c&0xff){ case F_SIN:v=sin(x);break;case F_COS:v=cos(x);break;case F_TAN:v=tan(x);break;case F_ASIN:v=asin(x);break;case F_ACOS:v=acos(x);break;case F_ATAN:v=atan(x);break;case F_ATAN2:v=atan2(x,y);break;case F_EXP:v=exp(x);break;case F_LOG:v=log(x);break;case F_POW:v=pow(x,y);break;case F_CBRT:v=cbrt(x);break;case F_SINH:v=sinh(x);break;case F_COSH:v=cosh(x);break;case F_TANH:v=tanh(x);break; default: v=0; }
        if(!std::isfinite(v)){ r.sp=3;dom=true; } else { r.q=mpqFromDouble(v); r.ap=true; } break; }
      default: r.sp=3; }
    mr[e]=r; return r; }
  bool truth(E*e){ return bv(e)&1; }
};

enum Res { UNSAT, SAT, UNK };
struct SolverStats { uint64_t queries=0,sat=0,unsat=0,unk=0,cachehit=0,bvq=0,nraq=0,polyq=0; double t=0,tmax=0; };

struct TooWide{};
struct Solver {
  SolverStats st; int timeout_ms=5000;
  z3::context* ctx=nullptr; z3::solver* inc=nullptr;
  std::unordered_map<E*,z3::expr> zb; // bv / bool translation
  struct BVI { z3::expr e; int w; mpz_class lo,hi; };
  struct Frac { BVI n; bool hasd; BVI d; };
  std::unordered_map<E*,Frac> zg; std::unordered_map<E*,z3::expr> zproxy;
  std::unordered_map<std::string,std::pair<Res,int>> cache; std::vector<Model> cmodels; // query cache
  std::vector<z3::expr> vexprs;
  Solver(){}
  void reset(){ zb.clear(); zg.clear(); zproxy.clear(); nr.clear(); delete inc; inc=nullptr; delete ctx; ctx=nullptr; }
  void init(){ if(ctx&&zproxy.size()>60000) reset(); if(!ctx){ ctx=new z3::context; } if(!inc){ inc=new z3::solver(*ctx,"QF_FD"); } }
  // ---------------- classification
  std::unordered_map<E*,int> cls; // bit0: has RVAR, bit1: has sqrt, bit2: has fun, bit3: any real op
  int classify(E*e){ auto it=cls.find(e); if(it!=cls.end())return it->second; int r=0; if(e->k==RVAR)r|=1; if(e->k==RSQRT)r|=2; if(e->k==RFUN)r|=4; if(e->real)r|=8; for(int i=0;i<e->n;i++) r|=classify(e->a[i]); cls[e]=r; return r; }
  // ---------------- grid (exact wide BV)
  static int bitsFor(const mpz_class&lo,const mpz_class&hi){ auto nb=[](const mpz_class&z)->int{ if(z>=0) return z==0?1:mpz_sizeinbase(z.get_mpz_t(),2)+1; mpz_class t=-z-1; return t==0?1:mpz_sizeinbase(t.get_mpz_t(),2)+1; }; return std::max(nb(lo),nb(hi)); }
  BVI fit(z3::expr e,int w,const mpz_class&lo,const mpz_class&hi){ int nw=bitsFor(lo,hi); if(nw>700) throw TooWide{}; if(nw<w) return BVI{e.extract(nw-1,0),nw,lo,hi}; if(nw>w) return BVI{z3::sext(e,nw-w),nw,lo,hi}; return BVI{e,w,lo,hi}; }
  z3::expr ex(const BVI&b,int w){ return w>b.w?z3::sext(b.e,w-b.w):b.e; }
  z3::expr bvconst(const mpz_class&z,int w){ mpz_class m=mpz_class(1)<<w; mpz_class v=z; if(v<0)v+=m; return ctx->bv_val(v.get_str().c_str(),w); }
  BVI cst(const mpz_class&z){ int w=bitsFor(z,z); if(w>700) throw TooWide{}; return BVI{bvconst(z,w),w,z,z}; }
  BVI addB(const BVI&a,const BVI&b){ mpz_class lo=a.lo+b.lo,hi=a.hi+b.hi; if(lo==hi) return cst(lo); int w=std::max(std::max(a.w,b.w)+1,bitsFor(lo,hi)); if(w>700)throw TooWide{}; return fit(ex(a,w)+ex(b,w),w,lo,hi); }
  BVI mulB(const BVI&a,const BVI&b){ if(a.lo==a.hi&&a.lo==1)return b; if(b.lo==b.hi&&b.lo==1)return a; mpz_class p[4]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; mpz_class lo=*std::min_element(p,p+4),hi=*std::max_element(p,p+4); if(z3::eq(a.e,b.e)){ mpz_class t=std::max(p[0],p[3]); lo=0; if(a.lo>0)lo=p[0]; else if(a.hi<0)lo=p[3]; hi=t; } if(lo==hi) return cst(lo); int w=std::max(std::max(a.w,b.w),bitsFor(lo,hi)); if(w>700)throw TooWide{}; return fit(ex(a,w)*ex(b,w),w,lo,hi); }
  BVI negB(const BVI&a){ return mulB(a,cst(-1)); }
  bool sameB(const BVI&a,const BVI&b){ return (a.lo==a.hi&&b.lo==b.hi&&a.lo==b.lo)||z3::eq(a.e,b.e); }
  Frac addF(const Frac&a,const Frac&b){
    if(!a.hasd&&!b.hasd) return Frac{addB(a.n,b.n),false,a.d};
    if(a.hasd&&b.hasd&&sameB(a.d,b.d)) return Frac{addB(a.n,b.n),true,a.d};
    if(!a.hasd) return Frac{addB(mulB(a.n,b.d),b.n),true,b.d};
    if(!b.hasd) return Frac{addB(a.n,mulB(b.n,a.d)),true,a.d};
    if(a.d.lo==a.d.hi&&b.d.lo==b.d.hi){ mpz_class l; mpz_lcm(l.get_mpz_t(),a.d.lo.get_mpz_t(),b.d.lo.get_mpz_t()); return Frac{addB(mulB(a.n,cst(l/a.d.lo)),mulB(b.n,cst(l/b.d.lo))),true,cst(l)}; }
    return Frac{addB(mulB(a.n,b.d),mulB(b.n,a.d)),true,mulB(a.d,b.d)}; }
  Frac mulF(const Frac&a,const Frac&b){ BVI n=mulB(a.n,b.n); if(!a.hasd&&!b.hasd) return Frac{n,false,n}; if(a.hasd&&b.hasd) return Frac{n,true,mulB(a.d,b.d)}; return Frac{n,true,a.hasd?a.d:b.d}; }
  Frac grid(E*e){
    auto it=zg.find(e); if(it!=zg.end())return it->second; E**a=e->a;
    auto mk=[&]()->Frac{
      switch(e->k){
        case RC: { BVI n=cst(e->q->get_num()); if(e->q->get_den()==1) return Frac{n,false,n}; return Frac{n,true,cst(e->q->get_den())}; }
        case I2R: { int64_t lo,hi; Ctx::srange(a[0],lo,hi); BVI n=fit(bvx(a[0]),a[0]->w,mpz_class((long)lo),mpz_class((long)hi)); return Frac{n,false,n}; }
        case RADD: return addF(grid(a[0]),grid(a[1]));
        case RMUL: return mulF(grid(a[0]),grid(a[1]));
        case RDIV: { Frac x=grid(a[0]),y=grid(a[1]); BVI n=y.hasd?mulB(x.n,y.d):x.n; BVI d=x.hasd?mulB(x.d,y.n):y.n; return Frac{n,true,d}; }
        case RITE: { z3::expr c=bo(a[0]); Frac x=grid(a[1]),y=grid(a[2]); auto iteB=[&](const BVI&p,const BVI&q){ int w=std::max(p.w,q.w); return BVI{z3::ite(c,ex(p,w),ex(q,w)),w,std::min(p.lo,q.lo),std::max(p.hi,q.hi)}; };
            if(!x.hasd&&!y.hasd) return Frac{iteB(x.n,y.n),false,x.n}; BVI one=cst(1); BVI dx=x.hasd?x.d:one, dy=y.hasd?y.d:one; if(sameB(dx,dy)) return Frac{iteB(x.n,y.n),true,dx}; return Frac{iteB(x.n,y.n),true,iteB(dx,dy)}; }
        default: throw TooWide{}; } };
    Frac f=mk(); zg.emplace(e,f); return f; }
  z3::expr cmpF(K k,const Frac&x,const Frac&y){
    auto cmp=[&](const BVI&p,const BVI&q)->z3::expr{ if(k==REQ){ if(p.hi<q.lo||q.hi<p.lo) return ctx->bool_val(false);} else if(k==RLT){ if(p.hi<q.lo)return ctx->bool_val(true); if(p.lo>=q.hi)return ctx->bool_val(false);} int w=std::max(p.w,q.w); z3::expr a=ex(p,w),b=ex(q,w); return k==REQ?a==b:k==RLT?z3::slt(a,b):z3::sle(a,b); };
    if(!x.hasd&&!y.hasd) return cmp(x.n,y.n);
    BVI one=cst(1); BVI dx=x.hasd?x.d:one, dy=y.hasd?y.d:one;
    BVI l=one,r2=one; z3::expr neg(ctx->bool_val(false));
    auto isneg=[&](const BVI&d)->z3::expr{ if(d.lo>=0)return ctx->bool_val(false); if(d.hi<=0)return ctx->bool_val(true); return z3::slt(d.e,ctx->bv_val(0,d.w)); };
    if(sameB(dx,dy)){ l=x.n;r2=y.n; neg=isneg(dx); } else { l=mulB(x.n,dy); r2=mulB(y.n,dx); neg=(isneg(dx)!=isneg(dy)); }
    if(k==REQ) return cmp(l,r2);
    z3::expr p=cmp(l,r2), q=cmp(r2,l); return z3::ite(neg.simplify(),q,p); }
  // ---------------- BV
  z3::expr bo(E*e){ // bool translation of w==1
    auto it=zb.find(e); if(it!=zb.end())return it->second; E**a=e->a;
    auto mk=[&]()->z3::expr{
      switch(e->k){
        case KC: return ctx->bool_val(e->c!=0);
        case KVAR: return ctx->bool_const(("v"+std::to_string(e->c)).c_str());
        case KAND: return bo(a[0])&&bo(a[1]); case KOR: return bo(a[0])||bo(a[1]); case KXOR: if(Ctx::isC(a[1])) return a[1]->c?!bo(a[0]):bo(a[0]); return bo(a[0])!=bo(a[1]);
        case KADD: return bo(a[0])!=bo(a[1]); case KMUL: return bo(a[0])&&bo(a[1]);
        case KITE: return z3::ite(bo(a[0]),bo(a[1]),bo(a[2]));
        case KEQ: if(a[0]->w==1) return bo(a[0])==bo(a[1]); return bvx(a[0])==bvx(a[1]);
        case KULT: if(a[0]->w==1) return !bo(a[0])&&bo(a[1]); return z3::ult(bvx(a[0]),bvx(a[1])); case KULE: if(a[0]->w==1) return !bo(a[0])||bo(a[1]); return z3::ule(bvx(a[0]),bvx(a[1]));
        case KSLT: if(a[0]->w==1) return bo(a[0])&&!bo(a[1]); return z3::slt(bvx(a[0]),bvx(a[1])); case KSLE: if(a[0]->w==1) return bo(a[0])||!bo(a[1]); return z3::sle(bvx(a[0]),bvx(a[1]));
        case KEXTRACT: return bvx(a[0]).extract((unsigned)e->c,(unsigned)e->c)==ctx->bv_val(1,1);
        case RLT: case RLE: case REQ: return cmpR(e);
        default: return asbv1(e)==ctx->bv_val(1,1); } };
    z3::expr r=mk(); zb.emplace(e,r); return r; }
  z3::expr asbv1(E*e){ E**a=e->a; switch(e->k){ case KUDIV: return z3::udiv(bvx(a[0]),bvx(a[1])); case KLSHR: return z3::lshr(bvx(a[0]),bvx(a[1])); case KASHR: return z3::ashr(bvx(a[0]),bvx(a[1])); case KUREM: return z3::urem(bvx(a[0]),bvx(a[1])); case KSHL: return z3::shl(bvx(a[0]),bvx(a[1])); default: throw Unsupported{"bv1 op"}; } }
  z3::expr bvx(E*e){
    if(e->w==1) return z3::ite(bo(e),ctx->bv_val(1,1),ctx->bv_val(0,1));
    auto it=zb.find(e); if(it!=zb.end())return it->second; E**a=e->a;
    auto mk=[&]()->z3::expr{
      switch(e->k){
        case KC: return ctx->bv_val((uint64_t)e->c,(unsigned)e->w);
        case KVAR: return ctx->bv_const(("v"+std::to_string(e->c)).c_str(),e->w);
        case KADD: return bvx(a[0])+bvx(a[1]); case KMUL: return bvx(a[0])*bvx(a[1]);
        case KUDIV: return z3::udiv(bvx(a[0]),bvx(a[1])); case KSDIV: return bvx(a[0])/bvx(a[1]); case KUREM: return z3::urem(bvx(a[0]),bvx(a[1])); case KSREM: return z3::srem(bvx(a[0]),bvx(a[1]));
        case KAND: return bvx(a[0])&bvx(a[1]); case KOR: return bvx(a[0])|bvx(a[1]); case KXOR: return bvx(a[0])^bvx(a[1]);
        case KSHL: return z3::shl(bvx(a[0]),bvx(a[1])); case KLSHR: return z3::lshr(bvx(a[0]),bvx(a[1])); case KASHR: return z3::ashr(bvx(a[0]),bvx(a[1]));
        case KCONCAT: return z3::concat(bvx(a[0]),bvx(a[1])); case KEXTRACT: return bvx(a[0]).extract((unsigned)e->c+e->w-1,(unsigned)e->c);
        case KZEXT: return z3::zext(bvx(a[0]),e->w-a[0]->w); case KSEXT: return z3::sext(bvx(a[0]),e->w-a[0]->w);
        case KITE: return z3::ite(bo(a[0]),bvx(a[1]),bvx(a[2]));
        default: throw Unsupported{"bits of symbolic real in solver"}; } };
    z3::expr r=mk(); zb.emplace(e,r); return r; }
  bool nraMode=false;
  z3::expr cmpR(E*e){ if(nraMode) return nraCmp(e); return cmpF(e->k,grid(e->a[0]),grid(e->a[1])); }
  // ---------------- NRA: fractions at DAG level, fresh vars for sqrt/fun/ite
  struct NF { E* n; std::vector<E*> d; };
  std::unordered_map<E*,NF> fr;
  E* prod(const std::vector<E*>&v){ E*r=C->R1; for(auto x:v) r=C->rmul(r,x); return r; }
  NF frac(E*e){
    auto it=fr.find(e); if(it!=fr.end())return it->second; NF r; E**a=e->a;
    auto mergeAdd=[&](const NF&x,const NF&y){ NF z; std::vector<E*> mx,my,dx=x.d,dy=y.d; std::sort(dx.begin(),dx.end());std::sort(dy.begin(),dy.end()); // lcm of multisets
      std::set_union(dx.begin(),dx.end(),dy.begin(),dy.end(),std::back_inserter(z.d)); std::set_difference(z.d.begin(),z.d.end(),dx.begin(),dx.end(),std::back_inserter(mx)); std::set_difference(z.d.begin(),z.d.end(),dy.begin(),dy.end(),std::back_inserter(my)); z.n=C->radd(C->rmul(x.n,prod(mx)),C->rmul(y.n,prod(my))); return z; };
    switch(e->k){
      case RADD: r=mergeAdd(frac(a[0]),frac(a[1])); break;
      case RMUL: { NF x=frac(a[0]),y=frac(a[1]); r.n=C->rmul(x.n,y.n); r.d=x.d; r.d.insert(r.d.end(),y.d.begin(),y.d.end()); break; }
      case RDIV: { NF x=frac(a[0]),y=frac(a[1]); r.n=C->rmul(x.n,prod(y.d)); r.d=x.d; splitMul(y.n,r); break; }
      default: r.n=e; }
    fr[e]=r; return r; }
  void splitMul(E*n,NF&r){ if(n->k==RMUL){ if(n->a[1]->k==RC){ r.n=C->rmul(r.n,C->rc(1 / *n->a[1]->q)); splitMul(n->a[0],r); return; } splitMul(n->a[0],r); splitMul(n->a[1],r); return; } if(n->k==RC){ r.n=C->rmul(r.n,C->rc(1 / *n->q)); return; } r.d.push_back(n); }
  std::unordered_map<E*,z3::expr> nr; std::vector<z3::expr>* nraSide=nullptr; std::unordered_set<E*> nraSeen; std::vector<E*> nraTodo; const std::vector<E*>* curPc=nullptr;
  z3::expr rconst(const mpq_class&q){ return ctx->real_val(q.get_str().c_str()); }
  z3::expr nra(E*e){ // polynomial-level translation of a division-free expression; other nodes become variables
    auto it=nr.find(e); if(it!=nr.end()){ noteAtoms(e); return it->second; } E**a=e->a;
    auto mk=[&]()->z3::expr{ switch(e->k){
      case RC: return rconst(*e->q);
      case RVAR: return ctx->real_const(("r"+std::to_string(e->c)).c_str());
      case RADD: { return nra(a[0])+nra(a[1]); } case RMUL: return nra(a[0])*nra(a[1]);
      default: return ctx->real_const(("t"+std::to_string(e->id)).c_str()); } };
    z3::expr r=mk(); nr.emplace(e,r); noteAtoms(e); return r; }
  void noteAtoms(E*e){ if(nraSeen.count(e))return; nraSeen.insert(e); if(e->k==RADD||e->k==RMUL){ noteAtoms(e->a[0]);noteAtoms(e->a[1]); return; } if(e->k!=RC) nraTodo.push_back(e); }
  int signKnown(E*f){ int s=C->signOf(f); if(s==1||s==-1)return s; if(s==2) return 1; /* nonzero assumed */ if(curPc) for(E*p:*curPc){ if(p->k==RLT){ if(p->a[0]==C->R0&&p->a[1]==f)return 1; if(p->a[1]==C->R0&&p->a[0]==f)return -1; if(p->a[1]==f&&C->signOf(p->a[0])>=0&&C->signOf(p->a[0])!=-2) return 1; } } return 0; }
  z3::expr nraCmp(E*e){ NF f=frac(C->rsub(e->a[0],e->a[1])); // f <,<=,== 0
    z3::expr n=nra(f.n), zero=ctx->real_val(0); if(e->k==REQ) return n==zero;
    int s=1; std::vector<E*> d=f.d; std::sort(d.begin(),d.end()); std::vector<E*> odd; for(size_t i=0;i<d.size();){ size_t j=i; while(j<d.size()&&d[j]==d[i])j++; if((j-i)%2){ int k=signKnown(d[i]); if(k==0) odd.push_back(d[i]); else s*=k; } i=j; }
    z3::expr lhs=n; if(!odd.empty()) lhs=n*nra(prod(odd));
    if(e->k==RLT) return s>0?lhs<zero:lhs>zero; return s>0?lhs<=zero:lhs>=zero; }
  void nraDefs(z3::solver&s){ // definitional constraints for atoms, transitively
    for(size_t i=0;i<nraTodo.size();i++){ E*e=nraTodo[i]; z3::expr v=nra(e), zero=ctx->real_val(0);
      switch(e->k){
        case RVAR: { auto&vi=C->vars[e->c]; if(vi.haslo) s.add(v>=rconst(vi.lo)); if(vi.hashi) s.add(v<=rconst(vi.hi)); break; }
        case RSQRT: { NF f=frac(e->a[0]); s.add(v>=zero); s.add(v*v*nra(prod(f.d))==nra(f.n)); break; }
        case RITE: { z3::expr c=bo(e->a[0]); s.add(z3::implies(c,eqv(e->a[1],v))); s.add(z3::implies(!c,eqv(e->a[2],v))); break; }
        case I2R: { int64_t lo,hi; Ctx::srange(e->a[0],lo,hi); s.add(v>=ctx->real_val((int64_t)lo)); s.add(v<=ctx->real_val((int64_t)hi)); relaxed=true; break; }
        case RDIV: s.add(eqv(e,v)); break;
        case RFUN: { relaxed=true; int f=e->c&0xff; if(f==F_SIN||f==F_COS){ s.add(v>=ctx->real_val(-1)); s.add(v<=ctx->real_val(1)); E*o=C->rfun(f==F_SIN?F_COS:F_SIN,e->a[0]); z3::expr ov=nra(o); s.add(v*v+ov*ov==ctx->real_val(1)); } else if(f==F_EXP||f==F_COSH) s.add(v>zero); else if(f==F_ACOS){ z3::expr x=nra(e->a[0]); s.add(v>=zero); s.add(v<=ctx->real_val(63,20)); s.add(v*v>=2*(1-x)); s.add(v*v<=5*(1-x)); } else if(f==F_ASIN||f==F_ATAN){ z3::expr x=nra(e->a[0]); s.add(v>=ctx->real_val(-79,50)); s.add(v<=ctx->real_val(79,50)); s.add(v*x>=zero); } else if(f==F_ATAN2){ s.add(v>=ctx->real_val(-63,20)); s.add(v<=ctx->real_val(63,20)); } break; }
        default: break; } } }
  z3::expr eqv(E*x,z3::expr v){ NF f=frac(x); return v*nra(prod(f.d))==nra(f.n); }
  bool relaxed=false;
  static mpq_class parseQ(const std::string&s){ mpq_class q; auto p=s.find('.'); if(p==std::string::npos){ q=mpq_class(s); } else { std::string t=s; bool q2=!t.empty()&&t.back()=='?'; if(q2)t.pop_back(); p=t.find('.'); std::string fr=t.substr(p+1); std::string ip=t.substr(0,p); bool neg=!ip.empty()&&ip[0]=='-'; mpz_class num((neg?ip.substr(1):ip)+fr,10); mpz_class den; mpz_ui_pow_ui(den.get_mpz_t(),10,fr.size()); q=mpq_class(num,den); if(neg)q=-q; } q.canonicalize(); return q; }
  void getModel(z3::model m,const std::set<uint32_t>&vs,Model&out,bool&approx){
    out.fit(C->vars.size());
    for(uint32_t v:vs){ auto&vi=C->vars[v]; if(vi.real){ z3::expr x=m.eval(ctx->real_const(("r"+std::to_string(v)).c_str()),true); if(x.is_numeral()){ out.r[v]=parseQ(ratStr(x)); } else if(x.is_algebraic()){ approx=true; std::string s=x.get_decimal_string(25); out.r[v]=parseQ(s); } else out.r[v]=0; out.has[v]=x.is_numeral()?1:x.is_algebraic()?2:1; }
      else if(vi.w==1){ z3::expr x=m.eval(ctx->bool_const(("v"+std::to_string(v)).c_str()),true); out.b[v]=x.is_true(); out.has[v]=1; }
      else { z3::expr x=m.eval(ctx->bv_const(("v"+std::to_string(v)).c_str(),vi.w),true); uint64_t u=0; x.is_numeral_u64(u); out.b[v]=u; out.has[v]=1; } } }
  std::string ratStr(z3::expr x){ return std::string(Z3_get_numeral_string(*ctx,x)); }
  // ---------------- main
  std::string dumpPath;
  Res query(const std::vector<E*>&cs,Model*out,int tmo=0){
    double t0=nowS(); st.queries++; int cl=0; std::set<uint32_t> vs; for(E*c:cs){ cl|=classify(c); vs.insert(c->vs->v.begin(),c->vs->v.end()); }
    Res r=UNK; int T=tmo?tmo:timeout_ms;
    try { init();
      bool tried=false;
      if(!(cl&7)){ try { nraMode=false; z3::expr_vector as(*ctx); for(E*c:cs){ auto it=zproxy.find(c); if(it==zproxy.end()){ z3::expr b=bo(c); z3::expr p=ctx->bool_const(("p"+std::to_string(c->id)).c_str()); inc->add(z3::implies(p,b)); it=zproxy.emplace(c,p).first; } as.push_back(it->second); }
          z3::params p(*ctx); p.set("timeout",(unsigned)T); inc->set(p); st.bvq++; tried=true; auto cr=inc->check(as); if(cr==z3::unsat)r=UNSAT; else if(cr==z3::sat){ r=SAT; if(out){ bool ap=false; z3::model m=inc->get_model(); getModel(m,vs,*out,ap);} } else { delete inc; inc=nullptr; zproxy.clear(); } }
        catch(TooWide&){ } }
      if(!tried){ r=queryNra(cs,vs,out,T); }
    } catch(z3::exception&ex){ if(getenv("SYMX_DEBUG")) fprintf(stderr,"z3 exception %s\n",ex.msg()); reset(); r=UNK; } catch(Unsupported&u){ r=UNK; }
    double dt=nowS()-t0; st.t+=dt; if(dt>st.tmax)st.tmax=dt; if(r==SAT)st.sat++; else if(r==UNSAT)st.unsat++; else st.unk++;
    return r; }
  Res queryNra(const std::vector<E*>&cs,const std::set<uint32_t>&vs,Model*out,int T){
    st.nraq++; nraMode=true; zb.clear(); nraSeen.clear(); nraTodo.clear(); relaxed=false; curPc=&cs; Res r=UNK;
    struct G{ Solver*s; ~G(){ s->nraMode=false; s->zb.clear(); s->curPc=nullptr; } } g{this};
    z3::solver s=(z3::tactic(*ctx,"simplify")&z3::tactic(*ctx,"bit-blast")&z3::tactic(*ctx,"qfnra")).mk_solver(); z3::params p(*ctx); p.set("timeout",(unsigned)T); s.set(p);
    for(E*c:cs) s.add(bo(c)); nraDefs(s);
    auto cr=s.check(); if(cr==z3::unsat) return UNSAT; if(cr!=z3::sat){ if(getenv("SYMX_DUMP")){ std::string fn=std::string(getenv("SYMX_DUMP"))+"/q"+std::to_string(getpid())+"_"+std::to_string(st.queries)+".smt2"; FILE*f=fopen(fn.c_str(),"w"); if(f){ fprintf(f,"%s",s.to_smt2().c_str()); fclose(f);} } return UNK; }
    if(out){ bool ap=false; getModel(s.get_model(),vs,*out,ap); }
    if(relaxed){ // must be validated by evaluation
      if(!out) return UNK; Eval ev(*out); for(E*c:cs){ if(!ev.truth(c)||ev.uncertain) return UNK; } return SAT; }
    return SAT; }
};
