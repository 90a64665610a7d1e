// Hash-consed expression DAG: bit-vectors (w<=64) and exact reals.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <gmpxx.h>

enum K : uint8_t {
  KC, KVAR, KADD, KMUL, KUDIV, KSDIV, KUREM, KSREM, KAND, KOR, KXOR, KSHL, KLSHR, KASHR,
  KCONCAT, KEXTRACT, KZEXT, KSEXT, KITE, KEQ, KULT, KULE, KSLT, KSLE,
  RC, RVAR, RSPEC, RADD, RMUL, RDIV, RSQRT, RFUN, RITE, RLT, RLE, REQ, I2R, RBITS
};
enum Fun : uint8_t { F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_ATAN2, F_EXP, F_LOG, F_POW, F_ABSTRACT, F_CBRT, F_SINH, F_COSH, F_TANH };
static const char* funName[] = {"sin","cos","tan","asin","acos","atan","atan2","exp","log","pow","abstract","cbrt","sinh","cosh","tanh"};

struct VSet { std::vector<uint32_t> v; uint32_t id; };
struct E {
  K k; uint8_t real; uint8_t n; uint8_t w;
  uint32_t id;
  uint64_t c;          // bv const / var index / extract lo / fun id / special id
  mpq_class* q;        // real const
  E* a[3];
  uint64_t umin, umax; // bv unsigned range
  const VSet* vs;
  uint32_t size;       // saturating dag-ish size (tree)
};

struct VarInfo { std::string name; bool real; int w; bool haslo=false, hashi=false; mpq_class lo, hi; E* e; int input=-1; };

static inline uint64_t maskw(int w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline int64_t sx64(uint64_t v,int w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }

struct Unsupported { std::string why; };

struct Ctx {
  std::vector<E*> all; std::vector<VarInfo> vars;
  struct Key { K k; uint8_t w; uint64_t c; E* a0; E* a1; E* a2; bool operator==(const Key&o)const{return k==o.k&&w==o.w&&c==o.c&&a0==o.a0&&a1==o.a1&&a2==o.a2;} };
  struct KH { size_t operator()(const Key&x)const{ size_t h=x.k*1315423911u+x.w; auto m=[&](uint64_t v){h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2);}; m(x.c);m((uint64_t)x.a0);m((uint64_t)x.a1);m((uint64_t)x.a2); return h; } };
  std::unordered_map<Key,E*,KH> tab;
  std::map<mpq_class,E*> rconst;
  std::unordered_map<std::string,E*> varByName;
  // var sets
  std::map<std::vector<uint32_t>,VSet*> vsets; std::unordered_map<uint64_t,const VSet*> vunion; const VSet* vempty;
  E *T,*Fa,*R0,*R1,*RM1,*INF,*NINF,*NAN_;
  std::vector<E*> piConst;

  Ctx(){ vempty=intern({}); T=bv(1,1);Fa=bv(0,1);R0=rc(0);R1=rc(1);RM1=rc(-1); INF=raw(RSPEC,1,0,0);NINF=raw(RSPEC,1,0,1);NAN_=raw(RSPEC,1,0,2); }
  const VSet* intern(const std::vector<uint32_t>&v){ auto it=vsets.find(v); if(it!=vsets.end())return it->second; auto*s=new VSet{v,(uint32_t)vsets.size()}; vsets[v]=s; return s; }
  const VSet* uni(const VSet*a,const VSet*b){ if(a==b||b==vempty)return a; if(a==vempty)return b; uint32_t x=a->id,y=b->id; if(x>y)std::swap(x,y); uint64_t key=((uint64_t)x<<32)|y; auto it=vunion.find(key); if(it!=vunion.end())return it->second; std::vector<uint32_t> r; std::set_union(a->v.begin(),a->v.end(),b->v.begin(),b->v.end(),std::back_inserter(r)); auto*s=intern(r); vunion[key]=s; return s; }

  E* raw(K k,int real,int w,uint64_t c,E*a0=nullptr,E*a1=nullptr,E*a2=nullptr){
    Key key{k,(uint8_t)w,c,a0,a1,a2}; auto it=tab.find(key); if(it!=tab.end())return it->second;
    E*e=new E; e->k=k;e->real=real;e->w=w;e->c=c;e->q=nullptr;e->a[0]=a0;e->a[1]=a1;e->a[2]=a2;e->n=a2?3:a1?2:a0?1:0;
    e->id=all.size(); e->umin=0;e->umax=real?0:maskw(w); e->size=1;
    const VSet*s=vempty; for(int i=0;i<e->n;i++){ s=uni(s,e->a[i]->vs); uint64_t z=(uint64_t)e->size+e->a[i]->size; e->size=z>1000000000?1000000000:z; } e->vs=s;
    if(!real) range(e);
    all.push_back(e); tab[key]=e; return e; }
  void range(E*e){ // unsigned interval
    uint64_t m=maskw(e->w); E*x=e->a[0],*y=e->a[1];
    switch(e->k){
      case KC: e->umin=e->umax=e->c; break;
      case KZEXT: e->umin=x->umin;e->umax=x->umax;break;
      case KSEXT: if(x->umax<=(maskw(x->w)>>1)){e->umin=x->umin;e->umax=x->umax;} break;
      case KADD: { unsigned __int128 lo=(unsigned __int128)x->umin+y->umin,hi=(unsigned __int128)x->umax+y->umax; if(hi<=m){e->umin=lo;e->umax=hi;} else if(lo>m && hi<=(unsigned __int128)2*m+1 ){ e->umin=(uint64_t)(lo-((unsigned __int128)m+1)); e->umax=(uint64_t)(hi-((unsigned __int128)m+1)); } break; }
      case KMUL: { unsigned __int128 hi=(unsigned __int128)x->umax*y->umax; if(hi<=m){e->umin=x->umin*y->umin;e->umax=hi;} break; }
      case KUDIV: if(y->umin>0){ e->umin=x->umin/y->umax; e->umax=x->umax/y->umin; } break;
      case KUREM: if(y->umin>0){ e->umax=std::min(x->umax,y->umax-1); } break;
      case KAND: e->umax=std::min(x->umax,y->umax); break;
      case KOR: { e->umin=std::max(x->umin,y->umin); uint64_t t=x->umax|y->umax; int b=0; while(b<64&&(t>>b))b++; e->umax=maskw(b)&m; break; }
      case KLSHR: if(y->k==KC&&y->c<64){ e->umin=x->umin>>y->c; e->umax=x->umax>>y->c; } break;
      case KSHL: if(y->k==KC&&y->c<64){ unsigned __int128 hi=(unsigned __int128)x->umax<<y->c; if(hi<=m){e->umin=x->umin<<y->c;e->umax=hi;} } break;
      case KEXTRACT: if(e->c==0 && x->umax<=m){ e->umin=x->umin;e->umax=x->umax; } break;
      case KITE: e->umin=std::min(y->umin,e->a[2]->umin); e->umax=std::max(y->umax,e->a[2]->umax); break;
      default: break; }
  }
  static bool isC(E*e){return e->k==KC;}
  E* bv(uint64_t v,int w){ v&=maskw(w); return raw(KC,0,w,v); }
  E* b(bool v){return v?T:Fa;}
  E* rc(const mpq_class&q){ auto it=rconst.find(q); if(it!=rconst.end())return it->second; E*e=new E; e->k=RC;e->real=1;e->n=0;e->w=0;e->c=0;e->q=new mpq_class(q);e->q->canonicalize(); e->a[0]=e->a[1]=e->a[2]=nullptr; e->id=all.size(); e->umin=e->umax=0; e->vs=vempty; e->size=1; all.push_back(e); rconst[*e->q]=e; return e; }
  E* var(const std::string&name,bool real,int w){ auto it=varByName.find(name); if(it!=varByName.end())return it->second; uint32_t ix=vars.size(); E*e=raw(real?RVAR:KVAR,real,w,ix); e->vs=intern({ix}); VarInfo vi; vi.name=name;vi.real=real;vi.w=w;vi.e=e; vars.push_back(vi); varByName[name]=e; return e; }
  // ---- signed range helper
  static void srange(E*e,int64_t&lo,int64_t&hi){ uint64_t half=maskw(e->w)>>1; if(e->umax<=half){lo=e->umin;hi=e->umax;} else if(e->umin>half){ lo=sx64(e->umin,e->w);hi=sx64(e->umax,e->w);} else { lo=-(int64_t)half-1; hi=half; if(e->k==KSEXT){ int64_t l,h; srange(e->a[0],l,h); lo=l;hi=h; } else if(e->k==KADD){ int64_t l1,h1,l2,h2; srange(e->a[0],l1,h1); srange(e->a[1],l2,h2); __int128 L=(__int128)l1+l2,H=(__int128)h1+h2; if(L>=lo&&H<=hi){lo=(int64_t)L;hi=(int64_t)H;} } else if(e->k==KMUL){ int64_t l1,h1,l2,h2; srange(e->a[0],l1,h1); srange(e->a[1],l2,h2); __int128 p[4]={(__int128)l1*l2,(__int128)l1*h2,(__int128)h1*l2,(__int128)h1*h2}; __int128 L=p[0],H=p[0]; for(auto v:p){L=std::min(L,v);H=std::max(H,v);} if(L>=lo&&H<=hi){lo=(int64_t)L;hi=(int64_t)H;} } else if(e->k==KITE){ int64_t l1,h1,l2,h2; srange(e->a[1],l1,h1); srange(e->a[2],l2,h2); lo=std::min(l1,l2);hi=std::max(h1,h2);} } }
  static uint64_t foldbv(K k,uint64_t x,uint64_t y,int w){ uint64_t m=maskw(w); switch(k){
      case KADD:return (x+y)&m; case KMUL:return (x*y)&m; case KUDIV:return y?x/y:m; case KUREM:return y?x%y:x;
      case KSDIV:{ int64_t p=sx64(x,w),q=sx64(y,w); if(q==0)return p<0?1:m; if(q==-1)return (uint64_t)(0-(uint64_t)p)&m; return (uint64_t)(p/q)&m; }
      case KSREM:{ int64_t p=sx64(x,w),q=sx64(y,w); if(q==0)return x; if(q==-1)return 0; return (uint64_t)(p%q)&m; }
      case KAND:return x&y; case KOR:return x|y; case KXOR:return x^y;
      case KSHL:return y>=(uint64_t)w?0:(x<<y)&m; case KLSHR:return y>=(uint64_t)w?0:x>>y; case KASHR:{ int64_t p=sx64(x,w); return (uint64_t)(p>>(y>=(uint64_t)w?63:y))&m; }
      default: return 0; } }
  static bool commut(K k){return k==KADD||k==KMUL||k==KAND||k==KOR||k==KXOR||k==KEQ;}
  E* notE(E*x){ return bin(KXOR,x,bv(maskw(x->w),x->w)); }
  E* bin(K k,E*x,E*y){
    int w=x->w; uint64_t m=maskw(w);
    if(isC(x)&&isC(y)) return bv(foldbv(k,x->c,y->c,w),w);
    if(commut(k)){ if(isC(x)||(!isC(y)&&x->id>y->id)) std::swap(x,y); }
    switch(k){
      case KADD: if(isC(y)){ if(y->c==0)return x; if(x->k==KADD&&isC(x->a[1])) return bin(KADD,x->a[0],bv(x->a[1]->c+y->c,w)); if(x->k==KITE&&isC(x->a[1])&&isC(x->a[2])) return ite(x->a[0],bv(x->a[1]->c+y->c,w),bv(x->a[2]->c+y->c,w)); }
        else { // x + (x*-1)
          if(y->k==KMUL&&isC(y->a[1])&&y->a[1]->c==m&&y->a[0]==x) return bv(0,w);
          if(x->k==KMUL&&isC(x->a[1])&&x->a[1]->c==m&&x->a[0]==y) return bv(0,w);
          if(x->k==KADD&&isC(x->a[1])) return bin(KADD,bin(KADD,x->a[0],y),x->a[1]);
          if(y->k==KADD&&isC(y->a[1])) return bin(KADD,bin(KADD,x,y->a[0]),y->a[1]);
        } break;
      case KMUL: if(isC(y)){ if(y->c==0)return y; if(y->c==1)return x; if(x->k==KMUL&&isC(x->a[1])) return bin(KMUL,x->a[0],bv(x->a[1]->c*y->c,w)); if(x->k==KADD&&isC(x->a[1])) return bin(KADD,bin(KMUL,x->a[0],y),bv(x->a[1]->c*y->c,w)); if(x->k==KITE&&isC(x->a[1])&&isC(x->a[2])) return ite(x->a[0],bv(x->a[1]->c*y->c,w),bv(x->a[2]->c*y->c,w)); } break;
      case KAND: if(isC(y)){ if(y->c==0)return y; if(y->c==m)return x; // low mask covering range
          if((y->c&(y->c+1))==0 && x->umax<=y->c) return x;
          if(x->k==KAND&&isC(x->a[1])) return bin(KAND,x->a[0],bv(x->a[1]->c&y->c,w)); }
        if(x==y)return x; if(w==1){ if(isNotOf(x,y))return Fa; } break;
      case KOR: if(isC(y)){ if(y->c==0)return x; if(y->c==m)return y; } if(x==y)return x; if(w==1){ if(isNotOf(x,y))return T; } break;
      case KXOR: if(isC(y)){ if(y->c==0)return x; if(x->k==KXOR&&isC(x->a[1])) return bin(KXOR,x->a[0],bv(x->a[1]->c^y->c,w));
          if(w==1&&y->c==1){ // negate comparisons
            if(x->k==KULT)return raw(KULE,0,1,0,x->a[1],x->a[0]); if(x->k==KULE)return raw(KULT,0,1,0,x->a[1],x->a[0]);
            if(x->k==KSLT)return raw(KSLE,0,1,0,x->a[1],x->a[0]); if(x->k==KSLE)return raw(KSLT,0,1,0,x->a[1],x->a[0]);
            if(x->k==RLT)return raw(RLE,0,1,0,x->a[1],x->a[0]); if(x->k==RLE)return raw(RLT,0,1,0,x->a[1],x->a[0]); } }
        if(x==y)return bv(0,w); break;
      case KUDIV: if(isC(y)){ if(y->c==1)return x; if(y->c && x->umax<y->c) return bv(0,w); if(y->c&&(y->c&(y->c-1))==0) return bin(KLSHR,x,bv(__builtin_ctzll(y->c),w)); } break;
      case KUREM: if(isC(y)){ if(y->c==1)return bv(0,w); if(y->c && x->umax<y->c) return x; if(y->c&&(y->c&(y->c-1))==0) return bin(KAND,x,bv(y->c-1,w)); } break;
      case KSDIV: if(isC(y)&&y->c==1)return x; break;
      case KSHL: if(isC(y)){ if(y->c==0)return x; if(y->c>=(uint64_t)w)return bv(0,w); return bin(KMUL,x,bv(1ull<<y->c,w)); } break;
      case KLSHR: if(isC(y)){ if(y->c==0)return x; if(y->c>=(uint64_t)w)return bv(0,w); if((x->umax>>y->c)==0) return bv(0,w); } break;
      case KASHR: if(isC(y)){ if(y->c==0)return x; if(x->umax<=(m>>1)) return bin(KLSHR,x,y); // ashr(shl(x,k),k) -> sext(trunc)
          if(x->k==KMUL&&isC(x->a[1])&&y->c<(uint64_t)w&&x->a[1]->c==(1ull<<y->c)) return sext(extract(x->a[0],0,w-(int)y->c),w); } break;
      default: break; }
    return raw(k,0,w,0,x,y); }
  static bool isNotOf(E*x,E*y){ if(y->k==KXOR&&isC(y->a[1])&&y->a[1]->c==1&&y->a[0]==x)return true; if(x->k==KXOR&&isC(x->a[1])&&x->a[1]->c==1&&x->a[0]==y)return true;
    if(x->k==KULT&&y->k==KULE&&x->a[0]==y->a[1]&&x->a[1]==y->a[0])return true; if(y->k==KULT&&x->k==KULE&&x->a[0]==y->a[1]&&x->a[1]==y->a[0])return true;
    if(x->k==KSLT&&y->k==KSLE&&x->a[0]==y->a[1]&&x->a[1]==y->a[0])return true; if(y->k==KSLT&&x->k==KSLE&&x->a[0]==y->a[1]&&x->a[1]==y->a[0])return true;
    if(x->k==RLT&&y->k==RLE&&x->a[0]==y->a[1]&&x->a[1]==y->a[0])return true; if(y->k==RLT&&x->k==RLE&&x->a[0]==y->a[1]&&x->a[1]==y->a[0])return true;
    return false; }
  E* add(E*x,E*y){return bin(KADD,x,y);} E* sub(E*x,E*y){ return bin(KADD,x,bin(KMUL,y,bv(~0ull,y->w))); } E* mul(E*x,E*y){return bin(KMUL,x,y);}
  E* and_(E*x,E*y){return bin(KAND,x,y);} E* or_(E*x,E*y){return bin(KOR,x,y);}
  E* zext(E*x,int w){ if(w==x->w)return x; if(isC(x))return bv(x->c,w); if(x->k==KZEXT)return zext(x->a[0],w); return raw(KZEXT,0,w,0,x); }
  E* sext(E*x,int w){ if(w==x->w)return x; if(isC(x))return bv((uint64_t)sx64(x->c,x->w),w); if(x->k==KZEXT)return zext(x->a[0],w); if(x->k==KSEXT)return sext(x->a[0],w); if(x->umax<=(maskw(x->w)>>1)) return zext(x,w); if(x->k==KITE&&isC(x->a[1])&&isC(x->a[2])) return ite(x->a[0],sext(x->a[1],w),sext(x->a[2],w)); return raw(KSEXT,0,w,0,x); }
  E* extract(E*x,int lo,int w){ if(lo==0&&w==x->w)return x; if(isC(x))return bv(x->c>>lo,w);
    if(x->k==KEXTRACT) return extract(x->a[0],(int)x->c+lo,w);
    if(x->k==KZEXT||x->k==KSEXT){ int iw=x->a[0]->w; if(lo+w<=iw) return extract(x->a[0],lo,w); if(x->k==KZEXT){ if(lo>=iw) return bv(0,w); if(lo==0) return zext(x->a[0],w); return zext(extract(x->a[0],lo,iw-lo),w);} if(lo==0) return sext(x->a[0],w); }
    if(x->k==KCONCAT){ int lw=x->a[1]->w; if(lo+w<=lw) return extract(x->a[1],lo,w); if(lo>=lw) return extract(x->a[0],lo-lw,w); }
    if(lo==0&&(x->k==KADD||x->k==KMUL||x->k==KAND||x->k==KOR||x->k==KXOR)&&isC(x->a[1])) return bin(x->k,extract(x->a[0],0,w),extract(x->a[1],0,w));
    if(x->k==KITE&&isC(x->a[1])&&isC(x->a[2])) return ite(x->a[0],extract(x->a[1],lo,w),extract(x->a[2],lo,w));
    if(x->k==RBITS&&(lo%8||w%8)) throw Unsupported{"partial bits of a symbolic real"};
    return raw(KEXTRACT,0,w,lo,x); }
  E* concat(E*hi,E*lo){ int w=hi->w+lo->w; if(w>64) throw Unsupported{"concat>64"}; if(isC(hi)&&isC(lo))return bv((hi->c<<lo->w)|lo->c,w); if(isC(hi)&&hi->c==0) return zext(lo,w);
    if(hi->k==KEXTRACT&&lo->k==KEXTRACT&&hi->a[0]==lo->a[0]&&hi->c==lo->c+lo->w) return extract(hi->a[0],lo->c,w);
    // concat(extract of x (whole low part), ...) where lo is full x truncated by zext/sext simplification
    return raw(KCONCAT,0,w,0,hi,lo); }
  E* ite(E*c,E*x,E*y){ if(isC(c))return c->c?x:y; if(x==y)return x;
    if(x->real||y->real){ return rite(c,x,y); }
    if(c->k==KXOR&&isC(c->a[1])) { return ite(c->a[0],y,x); }
    if(x->w==1){ if(isC(x)&&isC(y)) return x->c?c:notE(c); if(isC(x)) return x->c?or_(c,y):and_(notE(c),y); if(isC(y)) return y->c?or_(notE(c),x):and_(c,x); }
    if(x->k==KITE&&x->a[0]==c) x=x->a[1]; if(y->k==KITE&&y->a[0]==c) y=y->a[2]; if(x==y) return x;
    return raw(KITE,0,x->w,0,c,x,y); }
  static void uaff(E*x,E*&base,uint64_t&off){ if(x->k==KADD&&isC(x->a[1])){base=x->a[0];off=x->a[1]->c;} else {base=x;off=0;} }
  E* eq(E*x,E*y){
    if(x->real) return req(x,y);
    if(x==y)return T; if(isC(x)&&isC(y))return b(x->c==y->c);
    if(x->umax<y->umin||y->umax<x->umin) return Fa;
    if(isC(x)||(!isC(y)&&x->id>y->id)) std::swap(x,y);
    if(x->w==1){ if(isC(y)) return y->c?x:notE(x); }
    if(isC(y)){
      if(x->k==KADD&&isC(x->a[1])) return eq(x->a[0],bv(y->c-x->a[1]->c,x->w));
      if(x->k==KZEXT){ if(y->c>maskw(x->a[0]->w))return Fa; return eq(x->a[0],bv(y->c,x->a[0]->w)); }
      if(x->k==KSEXT){ uint64_t t=y->c&maskw(x->a[0]->w); if(((uint64_t)sx64(t,x->a[0]->w)&maskw(x->w))!=y->c) return Fa; return eq(x->a[0],bv(t,x->a[0]->w)); }
      if(x->k==KXOR&&isC(x->a[1])) return eq(x->a[0],bv(x->a[1]->c^y->c,x->w));
      if(x->k==KITE){ if(isC(x->a[1])||isC(x->a[2])){ E*p=eq(x->a[1],y),*q=eq(x->a[2],y); return ite(x->a[0],p,q); } }
      if(x->k==KMUL&&isC(x->a[1])){ uint64_t f=x->a[1]->c; unsigned __int128 hi=(unsigned __int128)x->a[0]->umax*f; if(f&&hi<=maskw(x->w)){ if(y->c%f) return Fa; return eq(x->a[0],bv(y->c/f,x->w)); } }
    } else { if(x->k==KZEXT&&y->k==KZEXT&&x->a[0]->w==y->a[0]->w) return eq(x->a[0],y->a[0]); if(x->k==KSEXT&&y->k==KSEXT&&x->a[0]->w==y->a[0]->w) return eq(x->a[0],y->a[0]);
      E*b1,*b2;uint64_t o1,o2; uaff(x,b1,o1);uaff(y,b2,o2); if(b1==b2) return b(o1==o2); if((x->k==KADD&&isC(x->a[1]))&&(y->k==KADD&&isC(y->a[1]))&&o1==o2) return eq(b1,b2);
      if(x->k==RBITS&&y->k==RBITS) return req(x->a[0],y->a[0]); }
    return raw(KEQ,0,1,0,x,y); }
  E* ult(E*x,E*y){ if(x==y)return Fa; if(isC(x)&&isC(y))return b(x->c<y->c); if(x->umax<y->umin)return T; if(x->umin>=y->umax)return Fa;
    if(isC(y)&&y->c==1) return eq(x,bv(0,x->w));
    if(isC(y)&&x->k==KITE&&(isC(x->a[1])||isC(x->a[2]))) return ite(x->a[0],ult(x->a[1],y),ult(x->a[2],y));
    if(x->k==KZEXT&&y->k==KZEXT&&x->a[0]->w==y->a[0]->w) return ult(x->a[0],y->a[0]);
    if(x->k==KZEXT&&isC(y)&&y->c<=maskw(x->a[0]->w)) return ult(x->a[0],bv(y->c,x->a[0]->w));
    if(y->k==KZEXT&&isC(x)&&x->c<=maskw(y->a[0]->w)) return ult(bv(x->c,y->a[0]->w),y->a[0]);
    return raw(KULT,0,1,0,x,y); }
  E* ule(E*x,E*y){ return notE2(ult(y,x)); }
  E* notE2(E*x){return notE(x);}
  E* slt(E*x,E*y){ if(x==y)return Fa; if(isC(x)&&isC(y))return b(sx64(x->c,x->w)<sx64(y->c,y->w)); int64_t l1,h1,l2,h2; srange(x,l1,h1);srange(y,l2,h2); if(h1<l2)return T; if(l1>=h2)return Fa;
    if(l1>=0&&l2>=0) return ult(x,y);
    if(isC(y)&&x->k==KITE&&(isC(x->a[1])||isC(x->a[2]))) return ite(x->a[0],slt(x->a[1],y),slt(x->a[2],y));
    if(x->k==KSEXT&&y->k==KSEXT&&x->a[0]->w==y->a[0]->w) return slt(x->a[0],y->a[0]);
    return raw(KSLT,0,1,0,x,y); }
  E* sle(E*x,E*y){ return notE(slt(y,x)); }
  // ---- reals
  static bool isR(E*e){return e->k==RC;} static bool isSp(E*e){return e->k==RSPEC;}
  int sgnC(E*e){ if(e->k==RC)return sgn(*e->q); if(e==INF)return 1; if(e==NINF)return -1; return 0; }
  E* radd(E*x,E*y){
    if(isSp(x)||isSp(y)){ if(x==NAN_||y==NAN_)return NAN_; if(isSp(x)&&isSp(y)) return x==y?x:NAN_; return isSp(x)?x:y; }
    if(isR(x)&&isR(y)) return rc(*x->q+*y->q);
    if(isR(x)||(!isR(y)&&x->id>y->id)) std::swap(x,y);
    if(isR(y)){ if(*y->q==0)return x; if(x->k==RADD&&isR(x->a[1])) return radd(x->a[0],rc(*x->a[1]->q+*y->q)); if(x->k==RITE&&isR(x->a[1])&&isR(x->a[2])) return rite(x->a[0],radd(x->a[1],y),radd(x->a[2],y)); }
    else { E*bx=x,*by=y; mpq_class cx=1,cy=1; if(x->k==RMUL&&isR(x->a[1])){bx=x->a[0];cx=*x->a[1]->q;} if(y->k==RMUL&&isR(y->a[1])){by=y->a[0];cy=*y->a[1]->q;} if(bx==by) return rmul(bx,rc(cx+cy));
      // (a + -1*b) + b = a
      if(x->k==RADD){ if(x->a[0]==rneg_lookup(y)) return x->a[1]; if(x->a[1]==rneg_lookup(y)) return x->a[0]; }
      if(y->k==RADD){ if(y->a[0]==rneg_lookup(x)) return y->a[1]; if(y->a[1]==rneg_lookup(x)) return y->a[0]; } }
    return raw(RADD,1,0,0,x,y); }
  E* rneg_lookup(E*x){ // existing structural negation or null
    if(x->k==RMUL&&isR(x->a[1])&&*x->a[1]->q==-1) return x->a[0];
    Key key{RMUL,0,0,x,RM1,nullptr}; auto it=tab.find(key); return it==tab.end()?nullptr:it->second; }
  E* rneg(E*x){ if(x==INF)return NINF; if(x==NINF)return INF; if(x==NAN_)return x; return rmul(x,RM1); }
  E* rsub(E*x,E*y){ if(x==y&&!isSp(x))return R0; return radd(x,rneg(y)); }
  E* rmul(E*x,E*y){
    if(isSp(x)||isSp(y)){ if(x==NAN_||y==NAN_)return NAN_; int s1=sgnC(x),s2=sgnC(y); if((isSp(x)||isR(x))&&(isSp(y)||isR(y))){ if(s1*s2==0)return NAN_; return s1*s2>0?INF:NINF; } throw Unsupported{"inf*symbolic"}; }
    if(isR(x)&&isR(y)) return rc(*x->q * *y->q);
    if(isR(x)||(!isR(y)&&x->id>y->id)) std::swap(x,y);
    if(isR(y)){ if(*y->q==0)return R0; if(*y->q==1)return x; if(x->k==RMUL&&isR(x->a[1])) return rmul(x->a[0],rc(*x->a[1]->q * *y->q)); if(x->k==RADD&&isR(x->a[1])) return radd(rmul(x->a[0],y),rc(*x->a[1]->q * *y->q)); if(x->k==RITE&&isR(x->a[1])&&isR(x->a[2])) return rite(x->a[0],rmul(x->a[1],y),rmul(x->a[2],y)); }
    else { if(x->k==RMUL&&isR(x->a[1])) return rmul(rmul(x->a[0],y),x->a[1]); if(y->k==RMUL&&isR(y->a[1])) return rmul(rmul(x,y->a[0]),y->a[1]);
      if(x==y&&x->k==RSQRT) return x->a[0]; }
    return raw(RMUL,1,0,0,x,y); }
  // precondition: y nonzero assumed by caller when symbolic
  E* rdiv(E*x,E*y){
    if(isSp(x)||isSp(y)){ if(x==NAN_||y==NAN_)return NAN_; if(isSp(x)&&isSp(y))return NAN_; if(isSp(y))return R0; if(isR(y)){ int s=sgnC(y); return (s>=0)==(x==INF)?INF:NINF;} throw Unsupported{"inf/symbolic"}; }
    if(isR(y)){ if(*y->q==0){ int s=sgnC(x); if(!isR(x)) throw Unsupported{"symbolic/0"}; return s==0?NAN_:s>0?INF:NINF; } return rmul(x,rc(1 / *y->q)); }
    if(isR(x)&&*x->q==0) return R0; if(x==y) return R1;
    if(y->k==RMUL&&isR(y->a[1])) return rmul(rdiv(x,y->a[0]),rc(1 / *y->a[1]->q));
    if(x->k==RMUL&&isR(x->a[1])) return rmul(rdiv(x->a[0],y),x->a[1]);
    if(y->k==RSQRT && x==y->a[0]) return y;
    return raw(RDIV,1,0,0,x,y); }
  E* rsqrt(E*x){ if(isR(x)){ if(*x->q<0)return NAN_; mpz_class n=x->q->get_num(),d=x->q->get_den(); if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())){ mpz_class a=sqrt(n),b2=sqrt(d); return rc(mpq_class(a,b2)); } 
      // pull out square part for small rationals: sqrt(n/d)=sqrt(n*d)/d
      return raw(RSQRT,1,0,0,x); } if(x==INF)return INF; if(isSp(x))return NAN_;
    return raw(RSQRT,1,0,0,x); }
  E* rfun(Fun f,E*x,E*y=nullptr,uint64_t tag=0){ return raw(RFUN,1,0,(uint64_t)f|(tag<<8),x,y); }
  E* rite(E*c,E*x,E*y){ if(isC(c))return c->c?x:y; if(x==y)return x; if(isSp(x)||isSp(y)) throw Unsupported{"ite with inf/nan"}; if(c->k==KXOR&&isC(c->a[1])) return rite(c->a[0],y,x); if(x->k==RITE&&x->a[0]==c)x=x->a[1]; if(y->k==RITE&&y->a[0]==c)y=y->a[2]; if(x==y) return x; return raw(RITE,1,0,0,c,x,y); }
  E* rlt(E*x,E*y){ if(x==NAN_||y==NAN_)return Fa; if(isSp(x)||isSp(y)){ if(x==y)return Fa; if(x==NINF||y==INF)return T; return Fa; }
    if(x==y)return Fa; if(isR(x)&&isR(y))return b(*x->q<*y->q);
    if(x->k==RSQRT&&y->k==RSQRT) return rlt(x->a[0],y->a[0]);
    if(x->k==RSQRT&&isR(y)){ if(*y->q<=0)return Fa; return rlt(x->a[0],rc(*y->q * *y->q)); }
    if(y->k==RSQRT&&isR(x)){ if(*x->q<0)return T; return rlt(rc(*x->q * *x->q),y->a[0]); }
    if(x->k==RSQRT&&sqrtfree(y)) return and_(rlt(R0,y),rlt(x->a[0],rmul(y,y)));
    if(y->k==RSQRT&&sqrtfree(x)) return or_(rlt(x,R0),rlt(rmul(x,x),y->a[0]));
    if(x->k==I2R&&y->k==I2R){ int w=std::max(x->a[0]->w,y->a[0]->w); return slt(sext(x->a[0],w),sext(y->a[0],w)); }
    if(isR(y)&&x->k==RITE&&(isR(x->a[1])||isR(x->a[2]))) return ite(x->a[0],rlt(x->a[1],y),rlt(x->a[2],y));
    if(isR(x)&&y->k==RITE&&(isR(y->a[1])||isR(y->a[2]))) return ite(y->a[0],rlt(x,y->a[1]),rlt(x,y->a[2]));
    if(isR(x)&&*x->q==0){ int s=signOf(y); if(s==1)return T; if(s==0||s==-1)return Fa; if(y->k==RMUL&&isR(y->a[1])) return *y->a[1]->q>0?rlt(x,y->a[0]):rlt(y->a[0],x); }
    if(isR(y)&&*y->q==0){ int s=signOf(x); if(s==-1)return T; if(s==1||s==2||s==0)return Fa; if(x->k==RMUL&&isR(x->a[1])) return *x->a[1]->q>0?rlt(x->a[0],y):rlt(y,x->a[0]); }
    return raw(RLT,0,1,0,x,y); }
  static bool sqrtfree(E*e,int d=0){ if(e->k==RSQRT||e->k==RFUN)return false; if(d>12) return false; for(int i=0;i<e->n;i++) if(e->a[i]->real&&!sqrtfree(e->a[i],d+1))return false; return true; }
  // 1: >0, -1: <0, 0: ==0, 2: >=0, -2: unknown
  int signOf(E*e,int d=0){ if(d>8)return -2; switch(e->k){ case RC: return sgn(*e->q)>0?1:sgn(*e->q)<0?-1:0; case RSQRT: { int s=signOf(e->a[0],d+1); return s==1?1:2; }
      case RMUL: if(e->a[0]==e->a[1]) return 2; { int s1=signOf(e->a[0],d+1),s2=signOf(e->a[1],d+1); if(s1==-2||s2==-2)return -2; if(s1==1&&s2==1)return 1; if(s1==-1&&s2==-1)return 1; if((s1==1||s1==2)&&(s2==1||s2==2))return 2; if((s1==-1&&s2==1)||(s1==1&&s2==-1))return -1; return -2; }
      case RADD: { int s1=signOf(e->a[0],d+1),s2=signOf(e->a[1],d+1); if((s1==1&&(s2==1||s2==2))||(s2==1&&(s1==1||s1==2)))return 1; if(s1==2&&s2==2)return 2; if(s1==-1&&s2==-1)return -1; return -2; }
      case RDIV: { int s1=signOf(e->a[0],d+1),s2=signOf(e->a[1],d+1); if(s1==-2||s2==-2)return -2; if(s2==2)s2=1; if(s2==1) return s1; if(s2==-1&&s1==1)return -1; if(s2==-1&&s1==-1)return 1; return -2; }
      case RVAR: { auto&v=vars[e->c]; if(v.haslo&&v.lo>0)return 1; if(v.haslo&&v.lo>=0)return 2; if(v.hashi&&v.hi<0)return -1; return -2; }
      case I2R: { int64_t l,h; srange(e->a[0],l,h); if(l>0)return 1; if(l>=0)return 2; if(h<0)return -1; return -2; }
      case RFUN: if((e->c&0xff)==F_EXP) return 1; return -2;
      case RITE: { int s1=signOf(e->a[1],d+1),s2=signOf(e->a[2],d+1); if(s1==s2)return s1; if((s1==1||s1==2||s1==0)&&(s2==1||s2==2||s2==0))return 2; return -2; }
      default: return -2; } }
  E* rle(E*x,E*y){ if(x==NAN_||y==NAN_)return Fa; return notE(rlt(y,x)); }
  E* req(E*x,E*y){ if(x==NAN_||y==NAN_)return Fa; if(x==y)return T; if(isSp(x)||isSp(y))return Fa; if(isR(x)&&isR(y))return b(*x->q==*y->q);
    if(isR(x)||(!isR(y)&&x->id>y->id)) std::swap(x,y);
    if(isR(y)){ if(x->k==RSQRT){ if(*y->q<0)return Fa; return req(x->a[0],rc(*y->q * *y->q)); }
      if(x->k==I2R){ if(y->q->get_den()!=1) return Fa; int w=x->a[0]->w; mpz_class n=y->q->get_num(); if(w<63){ mpz_class lim=mpz_class(1)<<(w-1); if(n>=lim||n<-lim) return Fa; } return eq(x->a[0],bv((uint64_t)n.get_si(),w)); }
      if(x->k==RADD&&isR(x->a[1])) return req(x->a[0],rc(*y->q - *x->a[1]->q));
      if(x->k==RMUL&&isR(x->a[1])) return req(x->a[0],rc(*y->q / *x->a[1]->q));
      if(*y->q==0){ if(x->k==RDIV) return req(x->a[0],y); if(x->k==RMUL) return or_(req(x->a[0],y),req(x->a[1],y)); int s=signOf(x); if(s==1||s==-1)return Fa; }
      if(x->k==RITE&&(isR(x->a[1])||isR(x->a[2]))) return ite(x->a[0],req(x->a[1],y),req(x->a[2],y)); }
    else { if(x->k==RSQRT&&y->k==RSQRT) return req(x->a[0],y->a[0]); if(x->k==I2R&&y->k==I2R){ int w=std::max(x->a[0]->w,y->a[0]->w); return eq(sext(x->a[0],w),sext(y->a[0],w)); } }
    return raw(REQ,0,1,0,x,y); }
  E* i2r(E*x){ // signed
    if(isC(x)){ mpz_class z; long v=(long)sx64(x->c,x->w); z=v; return rc(mpq_class(z)); }
    if(x->k==KSEXT) return i2r(x->a[0]);
    if(x->k==KITE&&isC(x->a[1])&&isC(x->a[2])) return rite(x->a[0],i2r(x->a[1]),i2r(x->a[2]));
    if(x->k==KADD&&isC(x->a[1])){ int64_t l,h; srange(x->a[0],l,h); int64_t k=sx64(x->a[1]->c,x->w); __int128 L=(__int128)l+k,H=(__int128)h+k; int64_t lim=(int64_t)(maskw(x->w)>>1); if(L>=-(__int128)lim-1&&H<=lim) return radd(i2r(x->a[0]),rc(mpq_class((long)k))); }
    if(x->k==KZEXT&&x->w>x->a[0]->w+1) return i2r(zext(x->a[0],x->a[0]->w+1));
    return raw(I2R,1,0,0,x); }
  E* u2r(E*x){ if(isC(x)){ mpz_class z; mpz_set_ui(z.get_mpz_t(),x->c); return rc(mpq_class(z)); } if(x->umax<=(maskw(x->w)>>1)) return i2r(x); if(x->w<64) return i2r(zext(x,x->w+1)); throw Unsupported{"u64 to real"}; }
};
extern Ctx* C;
