// Exact rational-function normal form (Laurent polynomials over atoms, with sqrt / trig reduction)
// and symbolic differentiation.
#pragma once
#include "expr.h"
#include "solver.h"
#include <deque>
struct PolyTooBig{};
struct PolyEngine {
  struct Mon { std::vector<std::pair<uint32_t,int>> f; };
  struct MH { size_t operator()(const Mon*m)const{ size_t h=1469598103934665603ull; for(auto&p:m->f){ h=(h^p.first)*1099511628211ull; h=(h^(uint32_t)p.second)*1099511628211ull; } return h; } };
  struct MEq { bool operator()(const Mon*a,const Mon*b)const{ return a->f==b->f; } };
  std::unordered_set<const Mon*,MH,MEq> mons; const Mon* one;
  typedef std::unordered_map<const Mon*,mpq_class> Poly;
  enum AK { A_VAR, A_SQRT, A_DEN, A_SIN, A_COS };
  struct Atom { AK k; E* e; Poly p; uint32_t other; int lvl; };
  std::deque<Atom> atoms; std::unordered_map<E*,uint32_t> atomOf; std::map<std::string,uint32_t> polyKey;
  std::unordered_map<E*,Poly> memo; double deadline=0; uint64_t ops=0; size_t maxTerms=400000;
  PolyEngine(){ one=intern(Mon{}); }
  const Mon* intern(Mon m){ auto it=mons.find(&m); if(it!=mons.end())return *it; auto*n=new Mon(std::move(m)); mons.insert(n); return n; }
  void tick(uint64_t n=1){ ops+=n; if((ops&4095)<n && deadline>0 && nowS()>deadline) throw PolyTooBig{}; }
  static void addTo(Poly&p,const Mon*m,const mpq_class&c){ if(c==0)return; auto it=p.find(m); if(it==p.end()) p.emplace(m,c); else { it->second+=c; if(it->second==0) p.erase(it); } }
  Poly constant(const mpq_class&c){ Poly p; if(c!=0)p.emplace(one,c); return p; }
  Poly atomPoly(uint32_t a,int ex=1){ Poly p; p.emplace(intern(Mon{{{a,ex}}}),1); return p; }
  Poly add(const Poly&a,const Poly&b){ const Poly&big=a.size()>=b.size()?a:b; const Poly&sm=a.size()>=b.size()?b:a; Poly r=big; for(auto&t:sm)addTo(r,t.first,t.second); if(r.size()>maxTerms)throw PolyTooBig{}; return r; }
  Poly scale(const Poly&a,const mpq_class&c){ Poly r; if(c==0)return r; for(auto&t:a)r.emplace(t.first,t.second*c); return r; }
  // product of two monomials; returns false if a reduction (sqrt^2 / sin^2) is necessary
  bool mulMon(const Mon*a,const Mon*b,Mon&out){ bool plain=true; size_t i=0,j=0; out.f.clear(); while(i<a->f.size()||j<b->f.size()){ if(j>=b->f.size()||(i<a->f.size()&&a->f[i].first<b->f[j].first)) out.f.push_back(a->f[i++]); else if(i>=a->f.size()||b->f[j].first<a->f[i].first) out.f.push_back(b->f[j++]); else { int e=a->f[i].second+b->f[j].second; uint32_t t=a->f[i].first; i++;j++; if(e!=0) out.f.push_back({t,e}); if((atoms[t].k==A_SQRT||atoms[t].k==A_SIN)&&(e>1||e<0)) plain=false; } } return plain; }
  void reduceInto(Poly&r,Mon m,const mpq_class&c){ // reduce sqrt powers
    for(auto&f:m.f){ auto&A=atoms[f.first]; if((A.k==A_SQRT||A.k==A_SIN)&&(f.second>1||f.second<0)){ int e=f.second; uint32_t at=f.first; Mon rest; for(auto&g:m.f) if(g.first!=at) rest.f.push_back(g);
          int q=e>=0?e/2:-((-e+1)/2); int rem=e-2*q; if(rem) { rest.f.push_back({at,rem}); std::sort(rest.f.begin(),rest.f.end()); }
          Poly base=A.p;
          Poly pw; if(q>=0) pw=power(base,q); else pw=power(invPoly(base),-q);
          Poly rp; rp.emplace(intern(rest),c); Poly pr=mul(pw,rp); for(auto&t:pr)addTo(r,t.first,t.second); return; } }
    addTo(r,intern(std::move(m)),c); }
  Poly mul(const Poly&a,const Poly&b){ Poly r; if(a.empty()||b.empty())return r; if((double)a.size()*b.size()>6e7) throw PolyTooBig{}; Mon tmp; mpq_class c; for(auto&x:a){ for(auto&y:b){ tick(); c=x.second*y.second; if(mulMon(x.first,y.first,tmp)){ auto it=mons.find(&tmp); const Mon*m; if(it!=mons.end())m=*it; else m=intern(tmp); addTo(r,m,c); } else reduceInto(r,tmp,c); } if(r.size()>maxTerms) throw PolyTooBig{}; } return r; }
  Poly power(const Poly&a,int n){ Poly r=constant(1); for(int i=0;i<n;i++) r=mul(r,a); return r; }
  std::vector<std::pair<const Mon*,mpq_class>> sorted(const Poly&p){ std::vector<std::pair<const Mon*,mpq_class>> v(p.begin(),p.end()); std::sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first->f<b.first->f;}); return v; }
  std::string key(const Poly&p,mpq_class&lead){ auto v=sorted(p); lead=v[0].second; std::string s; for(auto&t:v){ mpq_class c=t.second/lead; s+=c.get_str(); for(auto&f:t.first->f) s+="*"+std::to_string(f.first)+"^"+std::to_string(f.second); s+=";"; } return s; }
  int lvlOf(const Poly&p){ int l=0; for(auto&t:p)for(auto&f:t.first->f) l=std::max(l,atoms[f.first].lvl); return l; }
  // extract the monomial content
  Mon content(const Poly&p){ std::map<uint32_t,int> mn; bool first=true; for(auto&t:p){ if(first){ for(auto&f:t.first->f) mn[f.first]=f.second; first=false; } else { std::map<uint32_t,int> cur; for(auto&f:t.first->f)cur[f.first]=f.second; for(auto it=mn.begin();it!=mn.end();){ auto j=cur.find(it->first); int e=j==cur.end()?0:j->second; it->second=std::min(it->second,e); ++it; } for(auto&c:cur) if(!mn.count(c.first)) mn[c.first]=std::min(0,c.second); } } Mon m; for(auto&x:mn) if(x.second!=0&&atoms[x.first].k!=A_SQRT&&atoms[x.first].k!=A_SIN) m.f.push_back(x); return m; }
  Poly mulMonPoly(const Poly&p,const Mon&m){ Poly q; q.emplace(intern(m),1); return mul(p,q); }
  Poly invMon(const Mon*m,const mpq_class&c){ Poly r=constant(1/c); for(auto&f:m->f){ auto&A=atoms[f.first]; if(A.k==A_SQRT||A.k==A_SIN){ // 1/s = s/x
        Poly s=atomPoly(f.first); r=mul(r,mul(s,invPoly(A.p))); } else if(A.k==A_DEN&&f.second<0){ r=mul(r,power(A.p,-f.second)); } else r=mul(r,atomPoly(f.first,-f.second)); } return r; }
  Poly invPoly(const Poly&p){ if(p.empty()) throw Unsupported{"division by zero polynomial"}; if(p.size()==1) return invMon(p.begin()->first,p.begin()->second);
    Mon ct=content(p); Poly q=p; Poly pre=constant(1); if(!ct.f.empty()){ Mon neg; for(auto&f:ct.f) neg.f.push_back({f.first,-f.second}); const Mon*ng=intern(neg); q=Poly(); for(auto&t:p){ Mon o; mulMon(t.first,ng,o); addTo(q,intern(o),t.second); } pre=invMon(intern(ct),1); }
    if(q.size()==1) return mul(pre,invMon(q.begin()->first,q.begin()->second));
    mpq_class lead; std::string k="D"+key(q,lead); uint32_t a; auto it=polyKey.find(k); if(it==polyKey.end()){ a=atoms.size(); int l=lvlOf(q)+1; atoms.push_back(Atom{A_DEN,nullptr,scale(q,1/lead),0,l}); polyKey[k]=a; } else a=it->second;
    return scale(mul(pre,atomPoly(a,-1)),1/lead); }
  uint32_t varAtom(E*e){ auto it=atomOf.find(e); if(it!=atomOf.end())return it->second; uint32_t a=atoms.size(); atoms.push_back(Atom{A_VAR,e,{},0,0}); atomOf[e]=a; return a; }
  // function applications whose arguments are identical rational functions share one atom
  std::map<uint64_t,std::vector<E*>> funSeen;
  E* canonFun(E*e){ auto&v=funSeen[e->c]; for(E*o:v) if(o==e) return e; for(E*o:v){ bool eq=o->n==e->n; for(int i=0;eq&&i<e->n;i++) if(o->a[i]!=e->a[i]) eq=clear(add(normal(e->a[i]),scale(normal(o->a[i]),-1))).empty(); if(eq) return o; } if(v.size()<60) v.push_back(e); return e; }
  uint32_t trigAtom(E*e0,int dep=0){ auto it=atomOf.find(e0); if(it!=atomOf.end())return it->second; E*e=dep>2?e0:canonFun(e0); if(e!=e0){ uint32_t r=trigAtom(e,dep+1); atomOf[e0]=r; return r; }
    if(dep<=2){ E*o=C->rfun((e->c&0xff)==F_SIN?F_COS:F_SIN,e->a[0]); E*oc=canonFun(o); if(oc!=o){ uint32_t r=trigAtom(C->rfun((Fun)(e->c&0xff),oc->a[0]),dep+1); atomOf[e0]=r; return r; } } int f=e->c&0xff; E*o=C->rfun(f==F_SIN?F_COS:F_SIN,e->a[0]); uint32_t a=atoms.size(); atoms.push_back(Atom{f==F_SIN?A_SIN:A_COS,e,{},a+1,0}); atoms.push_back(Atom{f==F_SIN?A_COS:A_SIN,o,{},a,0}); atomOf[e]=a; atomOf[o]=a+1; uint32_t sn=f==F_SIN?a:a+1, cs=f==F_SIN?a+1:a; Poly pp=constant(1); Poly c2=atomPoly(cs,2); pp=add(pp,scale(c2,-1)); atoms[sn].p=pp; return a; }
  Poly normal(E*e){
    auto it=memo.find(e); if(it!=memo.end())return it->second; Poly r; tick();
    switch(e->k){
      case RC: r=constant(*e->q); break;
      case RADD: r=add(normal(e->a[0]),normal(e->a[1])); break;
      case RMUL: r=mul(normal(e->a[0]),normal(e->a[1])); break;
      case RDIV: r=mul(normal(e->a[0]),inv(e->a[1])); break;
      case RSQRT: r=sqrtP(e); break;
      case RFUN: { int f=e->c&0xff; if(f==F_SIN||f==F_COS){ // odd/even normalisation on constant factor sign
            E*x=e->a[0]; if(x->k==RMUL&&Ctx::isR(x->a[1])&&*x->a[1]->q<0){ E*nx=C->rneg(x); r=normal(C->rfun((Fun)f,nx)); if(f==F_SIN) r=scale(r,-1); } else r=atomPoly(trigAtom(e)); }
          else if(f==F_TAN){ r=mul(normal(C->rfun(F_SIN,e->a[0])),inv(C->rfun(F_COS,e->a[0]))); }
          else r=atomPoly(varAtom(canonFun(e))); break; }
      case RSPEC: throw Unsupported{"inf/nan in identity"};
      default: r=atomPoly(varAtom(e)); }
    memo[e]=r; return r; }
  Poly sqrtP(E*e){ Poly p=normal(e->a[0]); if(p.empty())return p;
    mpq_class lead; std::string k=key(p,lead); // pull out |lead| if a perfect square
    // perfect-square monomial?
    if(p.size()==1&&p.begin()->first==one){ }
    mpq_class al=abs(lead); mpz_class nn=al.get_num(),dd=al.get_den(); mpq_class outc=1; Poly q=p; if(mpz_perfect_square_p(nn.get_mpz_t())&&mpz_perfect_square_p(dd.get_mpz_t())){ outc=mpq_class(sqrt(nn),sqrt(dd)); q=scale(p,1/al); }
    mpq_class l2; std::string kq=key(q,l2); std::string kk="S"+kq+"|"+l2.get_str(); uint32_t a; auto it=polyKey.find(kk); if(it==polyKey.end()){ a=atoms.size(); int l=lvlOf(q); atoms.push_back(Atom{A_SQRT,e,q,0,l}); polyKey[kk]=a; } else a=it->second;
    return scale(atomPoly(a),outc); }
  Poly inv(E*y){ switch(y->k){ case RMUL: return mul(inv(y->a[0]),inv(y->a[1])); case RDIV: return mul(inv(y->a[0]),normal(y->a[1])); case RC: return constant(1 / *y->q); default: return invPoly(normal(y)); } }
  // eliminate denominators; returns numerator polynomial
  Poly clear(Poly p){
    for(int guard=0;guard<200;guard++){ int best=-1; for(auto&t:p)for(auto&f:t.first->f) if(atoms[f.first].k==A_DEN&&(best<0||atoms[f.first].lvl>atoms[best].lvl||(atoms[f.first].lvl==atoms[best].lvl&&f.first>(uint32_t)best))) best=f.first; if(best<0) return p;
      int mn=0; for(auto&t:p)for(auto&f:t.first->f) if((int)f.first==best) mn=std::min(mn,f.second); std::map<int,Poly> by; for(auto&t:p){ int e=0; Mon rest; for(auto&f:t.first->f){ if((int)f.first==best)e=f.second; else rest.f.push_back(f);} addTo(by[e],intern(rest),t.second); }
      Poly r; // Horner from lowest exponent
      Poly pw=constant(1); int cur=mn; for(auto&b:by){ while(cur<b.first){ pw=mul(pw,atoms[best].p); cur++; } r=add(r,mul(b.second,pw)); } p=r; }
    throw PolyTooBig{}; }
  // 1 zero, 0 nonzero, -1 unknown
  int isZero(E*e,double tmo){ deadline=nowS()+tmo; ops=0; static const bool dbg=getenv("SYMX_DEBUG"); try { Poly p=normal(e); if(dbg){ fprintf(stderr,"normal %zu terms, %zu atoms\n",p.size(),atoms.size()); for(size_t i=0;i<atoms.size();i++) fprintf(stderr,"  atom %zu k%d lvl%d terms %zu %s\n",i,atoms[i].k,atoms[i].lvl,atoms[i].p.size(),atoms[i].p.size()==1?atoms[i].p.begin()->second.get_str().c_str():""); } p=clear(p); return p.empty()?1:0; } catch(PolyTooBig&){ memo.clear(); return -1; } catch(Unsupported&){ return -1; } }
  // ---------- exact square roots of rational functions: r with r*r identically equal to e, or null
  E* monE(const Mon&m){ E*n=C->R1,*d=C->R1; for(auto&f:m.f){ E*b=atoms[f.first].k==A_DEN?polyE(atoms[f.first].p):atoms[f.first].e; for(int i=0;i<std::abs(f.second);i++){ if(f.second>0) n=C->rmul(n,b); else d=C->rmul(d,b); } } return d==C->R1?n:C->rdiv(n,d); }
  E* polyE(const Poly&p){ E*r=C->R0; for(auto&t:sorted(p)) r=C->radd(r,C->rmul(monE(*t.first),C->rc(t.second))); return r; }
  static bool lexLess(const Mon*a,const Mon*b){ size_t i=0; for(;;i++){ if(i>=b->f.size()) return false; if(i>=a->f.size()) return true; if(a->f[i].first!=b->f[i].first) return a->f[i].first>b->f[i].first; if(a->f[i].second!=b->f[i].second) return a->f[i].second<b->f[i].second; } }
  static const Mon* leadM(const Poly&p){ const Mon*m=nullptr; for(auto&t:p) if(!m||lexLess(m,t.first)) m=t.first; return m; }
  E* squareRoot(E*e,double tmo){ deadline=nowS()+tmo; ops=0; try { Poly p=normal(e); if(p.empty()||p.size()>300) return nullptr; Poly den=constant(1); Mon dens;
      for(int guard=0;guard<20;guard++){ int best=-1; for(auto&t:p)for(auto&f:t.first->f) if(atoms[f.first].k==A_DEN&&(best<0||atoms[f.first].lvl>atoms[best].lvl||(atoms[f.first].lvl==atoms[best].lvl&&f.first>(uint32_t)best))) best=f.first; if(best<0) break; if(guard==19) return nullptr;
        int mn=0; for(auto&t:p)for(auto&f:t.first->f) if((int)f.first==best) mn=std::min(mn,f.second); if(mn&1) mn--; std::map<int,Poly> by; for(auto&t:p){ int ex=0; Mon rest; for(auto&f:t.first->f){ if((int)f.first==best)ex=f.second; else rest.f.push_back(f);} addTo(by[ex],intern(rest),t.second); }
        Poly r,pw=constant(1); int cur=mn; for(auto&b:by){ while(cur<b.first){ pw=mul(pw,atoms[best].p); cur++; } r=add(r,mul(b.second,pw)); } p=r; dens.f.push_back({(uint32_t)best,mn/2}); if(p.size()>300) return nullptr; }
      Mon ct=content(p),half; if(!ct.f.empty()){ Mon neg; for(auto&f:ct.f){ if(f.second&1) return nullptr; neg.f.push_back({f.first,-f.second}); half.f.push_back({f.first,f.second/2}); } const Mon*ng=intern(neg); Poly q; for(auto&t:p){ Mon o; mulMon(t.first,ng,o); addTo(q,intern(o),t.second); } p=q; }
      const Mon*lm=leadM(p); mpq_class lc=p[lm]; if(lc<=0) return nullptr; mpz_class nn=lc.get_num(),dd=lc.get_den(); if(!mpz_perfect_square_p(nn.get_mpz_t())||!mpz_perfect_square_p(dd.get_mpz_t())) return nullptr; Mon h; for(auto&f:lm->f){ if(f.second&1) return nullptr; h.f.push_back({f.first,f.second/2}); }
      const Mon*rl=intern(h); mpq_class rc=mpq_class(sqrt(nn),sqrt(dd)); Poly r; r.emplace(rl,rc); Mon inv; for(auto&f:rl->f) inv.f.push_back({f.first,-f.second}); const Mon*il=intern(inv); const Mon*last=rl; bool ok=false;
      for(int it=0;it<200;it++){ Poly rem=add(p,scale(mul(r,r),-1)); if(rem.empty()){ ok=true; break; } const Mon*m=leadM(rem); Mon o; mulMon(m,il,o); for(auto&f:o.f) if(f.second<0) return nullptr; const Mon*om=intern(o); if(!lexLess(om,last)) return nullptr; mpq_class cc=rem[m]/(2*rc); addTo(r,om,cc); last=om; }
      if(!ok) return nullptr; E*res=polyE(r); E*pre=monE(half); for(auto&f:dens.f) if(f.second>0) return nullptr; Mon dm=dens; std::sort(dm.f.begin(),dm.f.end()); return C->rmul(res,C->rmul(pre,monE(dm)));
    } catch(PolyTooBig&){ memo.clear(); return nullptr; } catch(Unsupported&){ return nullptr; } }
  // ---------- differentiation
  std::unordered_map<uint64_t,E*> dmemo;
  E* diff(E*e,E*x){
    if(!e->real||e->vs==C->vempty) return C->R0; if(e==x)return C->R1;
    if(!std::binary_search(e->vs->v.begin(),e->vs->v.end(),(uint32_t)x->c)) return C->R0;
    uint64_t key=((uint64_t)e->id<<32)|x->id; auto it=dmemo.find(key); if(it!=dmemo.end())return it->second; E**a=e->a; E*r=C->R0; auto D=[&](E*q){return diff(q,x);};
    switch(e->k){
      case RADD: r=C->radd(D(a[0]),D(a[1])); break;
      case RMUL: r=C->radd(C->rmul(D(a[0]),a[1]),C->rmul(a[0],D(a[1]))); break;
      case RDIV: { E*u=D(a[0]),*v=D(a[1]); r=C->rsub(C->rdiv(u,a[1]),C->rdiv(C->rmul(a[0],v),C->rmul(a[1],a[1]))); break; }
      case RSQRT: r=C->rdiv(D(a[0]),C->rmul(e,C->rc(2))); break;
      case RITE: r=C->rite(a[0],D(a[1]),D(a[2])); break;
      case RFUN: { E*u=D(a[0]); E*x0=a[0]; auto one_m=[&](){return C->rsub(C->R1,C->rmul(x0,x0));}; switch(e->c&0xff){
          case F_SIN: r=C->rmul(C->rfun(F_COS,x0),u); break; case F_COS: r=C->rneg(C->rmul(C->rfun(F_SIN,x0),u)); break;
          case F_TAN: { E*c=C->rfun(F_COS,x0); r=C->rdiv(u,C->rmul(c,c)); break; }
          case F_ASIN: r=C->rdiv(u,C->rsqrt(one_m())); break; case F_ACOS: r=C->rneg(C->rdiv(u,C->rsqrt(one_m()))); break;
          case F_ATAN: r=C->rdiv(u,C->radd(C->R1,C->rmul(x0,x0))); break;
          case F_ATAN2: { E*v=D(a[1]); r=C->rdiv(C->rsub(C->rmul(u,a[1]),C->rmul(x0,v)),C->radd(C->rmul(x0,x0),C->rmul(a[1],a[1]))); break; }
          case F_EXP: r=C->rmul(e,u); break; case F_LOG: r=C->rdiv(u,x0); break;
          case F_POW: if(Ctx::isR(a[1])) { r=C->rmul(C->rmul(a[1],C->rdiv(e,x0)),u); break; } throw Unsupported{"d pow"};
          case F_CBRT: r=C->rdiv(C->rmul(e,u),C->rmul(x0,C->rc(3))); break;
          default: throw Unsupported{"derivative of function"}; } break; }
      default: throw Unsupported{"derivative"}; }
    dmemo[key]=r; return r; }
  // ---------- substitution of a real variable by a real term
  E* subst(E*e,E*x,E*v){ std::unordered_map<uint32_t,E*> m; return subst_(e,x,v,m); }
  E* subst_(E*e,E*x,E*v,std::unordered_map<uint32_t,E*>&m){
    if(e==x) return v; if(e->vs==C->vempty||!std::binary_search(e->vs->v.begin(),e->vs->v.end(),(uint32_t)x->c)) return e;
    auto it=m.find(e->id); if(it!=m.end()) return it->second; E**a=e->a; E*r; auto S=[&](E*q){return subst_(q,x,v,m);};
    switch(e->k){
      case RADD: r=C->radd(S(a[0]),S(a[1])); break; case RMUL: r=C->rmul(S(a[0]),S(a[1])); break; case RDIV: r=C->rdiv(S(a[0]),S(a[1])); break; case RSQRT: r=C->rsqrt(S(a[0])); break;
      case RFUN: { Fun f=(Fun)(e->c&0xff); E*u=S(a[0]); if(u==C->R0&&e->n==1){ if(f==F_SIN||f==F_TAN||f==F_ASIN||f==F_ATAN){ r=C->R0; break; } if(f==F_COS||f==F_EXP){ r=C->R1; break; } } r=C->rfun(f,u,e->n>1?S(a[1]):nullptr,e->c>>8); break; }
      default: throw Unsupported{"substitution"}; }
    m[e->id]=r; return r; }
};
