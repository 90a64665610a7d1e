// symx: symbolic executor for LLVM IR (bit-vectors + exact reals) with complete path exploration.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <ucontext.h>
#include <cxxabi.h>
#include <atomic>
#include "expr.h"
#include "solver.h"
#include "poly.h"
using namespace llvm;
Ctx* C=nullptr; static Solver* S; static PolyEngine* PE;
typedef std::string str;

// ---------------- path ending exceptions
struct PathEnd { int why; str msg; }; // 0 infeasible/assume, 1 unsupported, 2 limit, 3 violation stop, 4 timeout
struct SxThrow { uint64_t obj; uint64_t type; str stdname; };

// ---------------- shared memory queue
struct Dec { uint8_t kind; uint64_t v; };
struct Item { int entry; std::vector<Dec> d; };
struct Shm {
  pthread_mutex_t mu; uint32_t nitems; uint32_t idle; uint32_t stop; uint64_t arena; uint64_t arenaCap;
  struct Rec { uint32_t entry,n; uint64_t off; uint64_t pr; } rec[1<<16];
  struct Ent { uint32_t nviol; uint32_t done; uint64_t paths; double deadline; uint32_t pending; uint32_t skipped; double cpu; uint64_t lab[32]; uint32_t labn[32]; } ent[512]; uint32_t nextEntry;
};
static Shm* G; static Dec* GA; static int NW=8; static double T0,DEADLINE;
static std::map<int,std::vector<Item>> locals; static size_t nLocal=0;
struct Lock { Lock(){pthread_mutex_lock(&G->mu);} ~Lock(){pthread_mutex_unlock(&G->mu);} };
static bool pushShared(const Item&it){ if(G->nitems>=(1u<<16)-1||G->arena+it.d.size()>G->arenaCap) return false; auto&r=G->rec[G->nitems++]; r.entry=it.entry;r.n=it.d.size();r.off=G->arena; for(size_t i=0;i<it.d.size();i++)GA[G->arena+i]=it.d[i]; G->arena+=it.d.size(); return true; }
static bool popShared(Item&it){ if(!G->nitems) return false; auto&r=G->rec[--G->nitems]; it.entry=r.entry; it.d.assign(GA+r.off,GA+r.off+r.n); if(r.off+r.n==G->arena) G->arena=r.off; if(!G->nitems) G->arena=0; return true; }

// ---------------- values & memory
struct V { uint8_t t=0; uint64_t c=0,hi=0; E* e=nullptr; std::vector<V>* a=nullptr; };
static inline V VI(uint64_t c){ V v; v.t=1; v.c=c; return v; }
static inline V VE(E*e){ V v; if(e->k==KC){ v.t=1; v.c=e->c; } else { v.t=2; v.e=e; } return v; }
struct SymB { E* e; uint8_t ix; };
struct Obj { uint64_t addr,size; std::vector<uint8_t> data,st; std::vector<SymB> sym; bool alive=true; uint8_t kind=0; str name; bool shared=false; };

static Module* M; static const DataLayout* DL; static LLVMContext* LC;
struct Opn { int r; }; // >=0 reg, <0 const ~r
struct DI { Instruction* I; unsigned op; int dst; std::vector<int> o; int w; uint8_t real; uint64_t aux; Type* ty; std::vector<std::pair<int,int64_t>> gi; Function* callee; int b0,b1; int bbidx; std::vector<std::pair<int,int>> phi; /*pred bb->operand*/ };
struct BB { std::vector<DI> ins; int nphi=0; };
struct FnD { Function* F; std::vector<BB> bb; std::vector<V> cst; int nreg=0; std::vector<int> args; uint64_t calls=0; bool own=false; };
static std::unordered_map<Function*,FnD*> fnd; static std::unordered_map<Function*,uint64_t> faddr; static std::unordered_map<uint64_t,Function*> fbyaddr;
static std::unordered_map<const GlobalValue*,uint64_t> gaddr;
struct GInit { GlobalVariable* g; Obj* proto; };
static std::vector<Obj*> globalsProto; static uint64_t gEnd;
static std::vector<Function*> entries; static std::vector<str> entryNames;

struct Inp { str name; char kind; E* e; long c; };
struct Path {
  int entry; std::vector<Dec> prefix, dec; size_t pos=0; std::vector<E*> pc; std::unordered_set<E*> pcs; Model m; bool mv=true;
  std::vector<Obj*> objs; uint64_t bump; Obj* last=nullptr; uint64_t steps=0, maxSteps=20000000; int depth=0;
  std::vector<Inp> inputs; std::unordered_map<str,int> cnt; std::vector<E*> derivs; std::vector<std::pair<str,V>> obs; std::vector<char> obsReal; std::vector<std::vector<V>*> arena;
  int fresh=0; str errWhere; std::unordered_map<str,long> opt; int fsel=0; bool inexact=false; std::vector<std::pair<uint64_t,uint64_t>> caught; std::vector<Function*> atexit_; std::map<str,int> reach; int tmoBranch=4000,tmoCheck=20000; int nchk=0; double t0; bool div0=false; int concIdx=0; int maxIte=72; std::vector<uint64_t> excStack; std::unordered_map<uint64_t,SxThrow> excInfo; bool ieee=false; std::vector<str> cstack; bool noUB=true; std::vector<struct Co*> cos; int coCur=0; std::exception_ptr coErr;
};
static Path* P;
// coroutines of the program under analysis (sx_co_*): each runs the interpreter on a stack of its own
struct Co { ucontext_t ctx; void* stk=nullptr; size_t sz=0; V fn,arg; bool done=false; std::vector<str> cstack; int depth=0; std::vector<std::pair<uint64_t,uint64_t>> caught; };
struct Stats { uint64_t paths=0,infeasible=0,unsup=0,limit=0,unkBranch=0,unkCheck=0,obl=0,oblConst=0,oblSolver=0,oblPoly=0,viol=0,decisions=0,steps=0,nodes=0,undef=0,conc=0; std::map<str,uint64_t> unsupWhy, unkLabel, labels, reach; int wit=0; double wall=0; };
static std::vector<Stats> ST; static FILE* OUT; static std::set<Function*> used;

static str jesc(const str&s){ str r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static void emitCase(const char* kind,const str&label,const Model&m,const str&extra="");

// ---------------- constraints & decisions
static uint64_t evalB(E*e,const Model&m,bool&unc){ Eval ev(m); uint64_t r=ev.bv(e); unc=ev.uncertain||ev.dom; return r; }
static void addPc(E*c){ if(c->k==KC){ if(!c->c) throw PathEnd{0,"const false"}; return; } if(c->k==KAND){ addPc(c->a[0]);addPc(c->a[1]); return; } if(c->k==KXOR&&Ctx::isC(c->a[1])&&c->a[0]->k==KOR){ addPc(C->notE(c->a[0]->a[0])); addPc(C->notE(c->a[0]->a[1])); return; } if(P->pcs.insert(c).second){ P->pc.push_back(c); if(P->mv){ bool u; if(!evalB(c,P->m,u)||u) P->mv=false; } } }
static void slice(const std::vector<E*>&goal,std::vector<E*>&out){
  std::vector<char> mark(C->vars.size()+1,0); for(E*g:goal)for(uint32_t v:g->vs->v)mark[v]=1; std::vector<char> in(P->pc.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<P->pc.size();i++) if(!in[i]){ bool hit=false; for(uint32_t v:P->pc[i]->vs->v) if(mark[v]){hit=true;break;} if(hit){ in[i]=1; ch=true; for(uint32_t v:P->pc[i]->vs->v)mark[v]=1; } } }
  for(size_t i=0;i<P->pc.size();i++) if(in[i]) out.push_back(P->pc[i]); }
static std::vector<Model> recent; static size_t recentPos=0;
static void remember(const Model&m){ if(recent.size()<24) recent.push_back(m); else { recent[recentPos]=m; recentPos=(recentPos+1)%24; } }
static std::unordered_map<str,std::pair<Res,Model>> qcache;
static void checkTime(){ if(nowS()>DEADLINE) throw PathEnd{4,"time"}; }
// feasibility of pc & extra ; on SAT fills full model
static Res feasible(const std::vector<E*>&extra,Model*out,int tmo){
  std::vector<E*> cs; slice(extra,cs); for(E*e:extra) cs.push_back(e);
  for(E*e:cs) if(e->k==KC&&!e->c) return UNSAT;
  for(int k=(int)recent.size()-1;k>=0;k--){ Eval ev(recent[k]); bool ok=true; for(int i=(int)cs.size()-1;i>=0&&ok;i--) if(!ev.truth(cs[i])||ev.uncertain||ev.dom) ok=false; if(ok){ S->st.cachehit++; if(out){ Model r=P->m; r.fit(C->vars.size()); std::set<uint32_t> vs; for(E*c:cs)vs.insert(c->vs->v.begin(),c->vs->v.end()); Model&q=recent[k]; q.fit(C->vars.size()); for(uint32_t v:vs){ r.has[v]=1; if(q.has[v]){ r.has[v]=q.has[v]; r.b[v]=q.b[v]; r.r[v]=q.r[v]; } else { r.b[v]=0; Eval e2(q); if(C->vars[v].real) r.r[v]=e2.re(C->vars[v].e).q; } } *out=r; } return SAT; } }
  std::vector<uint32_t> ids; for(E*e:cs)ids.push_back(e->id); std::sort(ids.begin(),ids.end()); str key((char*)ids.data(),ids.size()*4);
  auto it=qcache.find(key); Res r; Model sm; if(it!=qcache.end()){ S->st.cachehit++; r=it->second.first; sm=it->second.second; }
  else { checkTime(); double left=(DEADLINE-nowS())*1000; if(left<200) left=200; r=S->query(cs,&sm,(int)std::min<double>(tmo,left)); if(r!=UNK||true) { if(qcache.size()>200000) qcache.clear(); qcache[key]={r,sm}; } if(r==SAT){ remember(sm); } }
  if(r==SAT&&out){ Model f=P->m; f.fit(C->vars.size()); sm.fit(C->vars.size()); for(size_t v=0;v<sm.has.size();v++) if(sm.has[v]){ f.has[v]=sm.has[v]; f.b[v]=sm.b[v]; f.r[v]=sm.r[v]; } *out=f; }
  return r; }
static void ensureModel(){ if(P->mv) return; Model m; // component-wise
  std::vector<E*> todo; Eval ev(P->m); for(E*c:P->pc){ Eval e2(P->m); if(!e2.truth(c)||e2.uncertain||e2.dom) todo.push_back(c); }
  for(E*c:todo){ bool u; if(evalB(c,P->m,u)&&!u) continue; Model f; Res r=feasible({c},&f,P->tmoBranch); if(r==UNSAT) throw PathEnd{0,"infeasible"}; if(r==SAT) P->m=f; else return; }
  bool ok=true; Eval e3(P->m); for(E*c:P->pc) if(!e3.truth(c)||e3.uncertain||e3.dom) ok=false; P->mv=ok; }
static void pushAlt(Dec d){ Item it; it.entry=P->entry; it.d=P->dec; it.d.push_back(d); locals[it.entry].push_back(std::move(it)); nLocal++; }
static bool sibling(E*c){ return P->pcs.count(c); }
static bool decide(E*c){
  if(c->k==KC) return c->c; if(sibling(c)) return true; E*nc=C->notE(c); if(sibling(nc)) return false;
  if(c->k==KXOR&&Ctx::isC(c->a[1])) return !decide(c->a[0]);
  if(P->pos<P->prefix.size()){ Dec d=P->prefix[P->pos++]; P->dec.push_back(d); if(d.kind==0){ addPc(d.v?c:nc); } else if(d.kind!=1) throw PathEnd{1,"replay divergence"}; return d.v; }
  checkTime(); ensureModel(); Res rt=UNK,rf=UNK; Model mt,mf; bool ht=false,hf=false;
  if(P->mv){ bool u; uint64_t b=evalB(c,P->m,u); if(!u){ if(b){rt=SAT;mt=P->m;ht=true;} else {rf=SAT;mf=P->m;hf=true;} } }
  if(rt!=SAT){ rt=feasible({c},&mt,P->tmoBranch); ht=rt==SAT; } if(rf!=SAT){ rf=feasible({nc},&mf,P->tmoBranch); hf=rf==SAT; }
  if(rt==UNSAT&&rf==UNSAT) throw PathEnd{0,"infeasible"};
  ST[P->entry].decisions++;
  if(rt==UNSAT||rf==UNSAT){ bool v=rt!=UNSAT; P->dec.push_back({1,(uint64_t)v}); return v; }
  if(rt==UNK||rf==UNK) ST[P->entry].unkBranch++;
  bool first=rt==SAT; // prefer a known side
  if(rt==SAT&&rf==SAT) first=true;
  pushAlt({0,(uint64_t)!first}); P->dec.push_back({0,(uint64_t)first});
  Model&nm=first?mt:mf; bool have=first?ht:hf; if(have&&P->mv) P->m=nm; bool mvOld=P->mv; addPc(first?c:nc); if(have&&!mvOld){ /* model may be fixed */ P->m=nm; bool ok=true; Eval e3(P->m); for(E*k:P->pc) if(!e3.truth(k)||e3.uncertain||e3.dom){ok=false;break;} P->mv=ok; }
  return first; }
static uint64_t concretize(E*x,const char*why){
  if(x->k==KC) return x->c;
  if(P->pos<P->prefix.size()){ Dec d=P->prefix[P->pos++]; P->dec.push_back(d); if(d.kind==2) addPc(C->eq(x,C->bv(d.v,x->w))); else if(d.kind!=3) throw PathEnd{1,"replay divergence"}; return d.v; }
  checkTime(); ensureModel(); ST[P->entry].conc++; std::vector<uint64_t> vals; std::vector<E*> ex; bool complete=true; Model first; bool hf=false;
  if(P->mv){ bool u; uint64_t v=evalB(x,P->m,u); if(!u){ vals.push_back(v); ex.push_back(C->notE(C->eq(x,C->bv(v,x->w)))); first=P->m; hf=true; } }
  while(true){ Model m; std::vector<E*> q=ex; if(q.empty()) q.push_back(C->eq(x,x)); Res r; if(ex.empty()){ // need some constraint mentioning x
        q.clear(); E*tau=C->raw(KULE,0,1,0,x,x); q.push_back(tau); }
    r=feasible(q,&m,P->tmoBranch); if(r==UNSAT) break; if(r==UNK){ complete=false; ST[P->entry].unkBranch++; break; }
    Eval ev(m); uint64_t v=ev.bv(x); vals.push_back(v); ex.push_back(C->notE(C->eq(x,C->bv(v,x->w)))); if(!hf){first=m;hf=true;} if(vals.size()>4096) throw PathEnd{1,str("too many values: ")+why}; }
  if(vals.empty()){ if(complete) throw PathEnd{0,"infeasible"}; throw PathEnd{1,str("cannot concretize ")+why}; }
  (void)complete;
  ST[P->entry].decisions++;
  if(vals.size()==1&&complete){ P->dec.push_back({3,vals[0]}); return vals[0]; }
  for(size_t i=vals.size();i-->1;) pushAlt({2,vals[i]}); P->dec.push_back({2,vals[0]}); bool mv=P->mv; if(hf&&mv)P->m=first; addPc(C->eq(x,C->bv(vals[0],x->w))); return vals[0]; }
static long chooseN(long n){ if(n<=1) return 0; if(P->pos<P->prefix.size()){ Dec d=P->prefix[P->pos++]; P->dec.push_back(d); return (long)d.v; } for(long i=n-1;i>=1;i--) pushAlt({2,(uint64_t)i}); P->dec.push_back({2,0}); ST[P->entry].decisions++; return 0; }
// integer part of a symbolic real (mode 0 trunc,1 floor,2 ceil)
static mpz_class realInt(E*x,int mode){
  auto rd=[&](const mpq_class&q){ mpz_class r; if(mode==1||(mode==0&&q>=0)) mpz_fdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); else mpz_cdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return r; };
  if(x->k==RC) return rd(*x->q); if(x->k==RSPEC) throw Unsupported{"int of inf/nan"};
  auto cons=[&](const mpz_class&v)->E*{ E*a=C->rc(mpq_class(v)); E*b=C->rc(mpq_class(v+1)); E*z=C->rc(mpq_class(v-1)); if(mode==1||(mode==0&&v>0)) return C->and_(C->rle(a,x),C->rlt(x,b)); if(mode==2||(mode==0&&v<0)) return C->and_(C->rlt(z,x),C->rle(x,a)); return C->and_(C->rlt(z,x),C->rlt(x,b)); };
  if(P->pos<P->prefix.size()){ Dec d=P->prefix[P->pos++]; P->dec.push_back(d); mpz_class v((long)d.v); if(d.kind==2) addPc(cons(v)); return v; }
  checkTime(); ensureModel(); std::vector<mpz_class> vals; std::vector<E*> ex; Model first; bool hf=false,complete=true; 
  while(true){ Model m; Res r; if(ex.empty()){ if(P->mv){ m=P->m; r=SAT; } else { E*tau=C->raw(RLE,0,1,0,x,x); r=feasible({tau},&m,P->tmoBranch);} } else r=feasible(ex,&m,P->tmoBranch);
    if(r==UNSAT)break; if(r==UNK){complete=false;ST[P->entry].unkBranch++;break;} Eval ev(m); Num n=ev.re(x); if(n.sp){complete=false;break;} mpz_class v=rd(n.q); bool dup=false; for(auto&w:vals) if(w==v) dup=true; if(dup){complete=false;break;} vals.push_back(v); ex.push_back(C->notE(cons(v))); if(!hf){first=m;hf=true;} if(vals.size()>4096) throw PathEnd{1,"too many integer parts"}; }
  if(vals.empty()){ if(complete) throw PathEnd{0,"infeasible"}; throw PathEnd{1,"cannot take integer part"}; }
  ST[P->entry].decisions++; if(!complete) P->inexact=true;
  if(vals.size()==1&&complete){ P->dec.push_back({3,(uint64_t)vals[0].get_si()}); return vals[0]; }
  for(size_t i=vals.size();i-->1;) pushAlt({2,(uint64_t)vals[i].get_si()}); P->dec.push_back({2,(uint64_t)vals[0].get_si()}); addPc(cons(vals[0])); return vals[0]; }

// ---------------- violations
static str replayLine(const Model&m){ Eval ev(m); str s; for(auto&i:P->inputs){ s+=i.name+" "; if(i.kind=='c') s+=std::to_string(i.c); else if(i.kind=='r'){ Num n=ev.re(i.e); char b[64]; snprintf(b,64,"%.17g",toD(n.q)); s+=b; } else if(i.kind=='i'){ s+=std::to_string((long)sx64(ev.bv(i.e),i.e->w)); } else { s+=std::to_string((unsigned long)ev.bv(i.e)); } s+="\n"; }
  for(size_t k=0;k<P->derivs.size();k++){ Num n=ev.re(P->derivs[k]); char b[64]; snprintf(b,64,"%.17g",n.sp?NAN:toD(n.q)); s+="@d "+str(b)+"\n"; } return s; }
static void emitCase(const char* kind,const str&label,const Model&m,const str&extra){
  str o; Eval ev(m); for(size_t k=0;k<P->obs.size();k++){ auto&ob=P->obs[k]; char b[64]; if(P->obsReal[k]){ Num n=ob.second.t==2?ev.re(ob.second.e):Num(); snprintf(b,64,"%.17g",n.sp?NAN:toD(n.q)); } else { long x=ob.second.t==1?(long)ob.second.c:(long)ev.bv(ob.second.e); snprintf(b,64,"%ld",x); } o+=ob.first+" "+b+"\n"; }
  fprintf(OUT,"{\"t\":\"%s\",\"entry\":\"%s\",\"label\":\"%s\",\"input\":\"%s\",\"obs\":\"%s\",\"extra\":\"%s\"}\n",kind,entryNames[P->entry].c_str(),jesc(label).c_str(),jesc(replayLine(m)).c_str(),jesc(o).c_str(),jesc(extra).c_str()); fflush(OUT); }
static str stackStr(){ str s; for(auto&x:P->cstack){ s+=x+" > "; } return s; }
static void violation(const str&label,const Model&m,const str&extra=""){
  ST[P->entry].viol++; { uint64_t h=std::hash<str>()(label)|1; Lock l; auto&e=G->ent[P->entry]; int k=0; while(k<31&&e.lab[k]&&e.lab[k]!=h) k++; e.lab[k]=h; if(e.labn[k]>=3) return; e.labn[k]++; e.nviol++; } str ex=extra+" @ "+stackStr(); if(getenv("SYMX_DEBUG")){ Eval ev(m); for(auto&i:P->inputs) if(i.kind=='r'){ Num n=ev.re(i.e); ex+=" "+i.name+"="+n.q.get_str()+(n.ap?"~":""); } for(E*c:P->pc){ Eval e2(m); bool t=e2.truth(c); if(!t||e2.uncertain){ ex+=t?" U":" FALSE"; if(c->k==RLT||c->k==RLE||c->k==REQ){ ex+="("+e2.re(c->a[0]).q.get_str()+" vs "+e2.re(c->a[1]).q.get_str()+")"; } else ex+="k"+std::to_string(c->k); } } } emitCase("violation",label,m,ex); }
// hard failure on this path
[[noreturn]] static void failPath(const str&label){ ensureModel(); if(P->mv){ violation(label,P->m); } else { // try hard for a model
    Model m=P->m; std::vector<E*> all=P->pc; Model sm; Res r=S->query(all,&sm,P->tmoCheck); if(r==SAT){ violation(label,sm); } else if(r!=UNSAT){ ST[P->entry].unkCheck++; ST[P->entry].unkLabel[label]++; } }
  throw PathEnd{3,label}; }
static void obligation(E*cond,const str&label){
  auto&st=ST[P->entry]; st.obl++; st.labels[label]++;
  if(cond->k==KC&&cond->c){ st.oblConst++; return; }
  if(P->pcs.count(cond)){ st.oblConst++; return; }
  E*nc=C->notE(cond);
  if(P->mv){ bool u; uint64_t b=evalB(cond,P->m,u); if(!b&&!u){ violation(label,P->m); addPc(cond); return; } }
  // conjunction: check parts separately (smaller queries)
  if(!P->mv) ensureModel();
  Model m; Res r=feasible({nc},&m,P->tmoCheck);
  if(r==UNSAT){ st.oblSolver++; return; }
  if(r==SAT&&!P->mv){ // the rest of the path condition has no model yet: decide it together
    Eval e3(m); bool ok=true; for(E*k:P->pc) if(!e3.truth(k)||e3.uncertain||e3.dom){ok=false;break;}
    if(!ok){ std::vector<E*> all=P->pc; all.push_back(nc); Model sm; r=nc->k==KC&&!nc->c?UNSAT:S->query(all,&sm,P->tmoCheck); if(r==UNSAT){ if(nc->k==KC) throw PathEnd{0,"infeasible"}; st.oblSolver++; return; } if(r==SAT) m=sm; } }
  if(r==SAT){ violation(label,m); addPc(cond); return; }
  st.unkCheck++; st.unkLabel[label]++; addPc(cond); }
static uint64_t rngState=88172645463325252ull; static uint64_t rng(){ rngState^=rngState<<13; rngState^=rngState>>7; rngState^=rngState<<17; return rngState; }
static bool randomCex(E*diff,Model&best){ // look for an assignment of the real inputs satisfying pc with a visible difference
  double bestv=0; bool found=false; std::set<uint32_t> vs(diff->vs->v.begin(),diff->vs->v.end()); for(E*c:P->pc) vs.insert(c->vs->v.begin(),c->vs->v.end()); double tend=nowS()+3;
  for(int it=0;it<400;it++){ if((it&15)==0&&nowS()>tend) break; Model m=P->m; m.fit(C->vars.size()); for(uint32_t v:vs){ auto&vi=C->vars[v]; m.has[v]=1; if(vi.real){ mpq_class q; if(vi.haslo&&vi.hashi){ q=vi.lo+(vi.hi-vi.lo)*mpq_class((long)(rng()%17),16); } else if(vi.haslo){ q=vi.lo+mpq_class((long)(rng()%33)+1,8); } else q=mpq_class((long)(rng()%65)-32,(it&1)?4:8); q.canonicalize(); m.r[v]=q; } else if(it>8){ m.b[v]=rng()&maskw(vi.w); } }
    Eval ev(m); bool ok=true; for(E*c:P->pc) if(!ev.truth(c)||ev.uncertain||ev.dom){ok=false;break;} if(!ok) continue; Num n=ev.re(diff); if(n.sp||ev.dom) continue; double d=fabs(toD(n.q)); if(n.ap&&d<1e-7) continue; if(d>bestv){ bestv=d; best=m; found=true; if(d>1e-2) break; } }
  return found; }
static void obligationEq(E*a,E*b,const str&label){
  auto&st=ST[P->entry]; st.obl++; st.labels[label]++;
  if(a==b&&!Ctx::isSp(a)){ st.oblConst++; return; }
  if(Ctx::isSp(a)||Ctx::isSp(b)){ if(a==b&&a!=C->NAN_){ st.oblConst++; return; } ensureModel(); if(P->mv) violation(label+" (non-finite)",P->m); return; }
  E*d=C->rsub(a,b);
  if(d->k==RC){ if(*d->q==0) st.oblConst++; else if(fabs(toD(*d->q))<1e-9&&(fabs(toD(*d->q))<1e-9*(1e-3+ (a->k==RC?fabs(toD(*a->q)):0)))) st.oblConst++; else { ensureModel(); if(P->mv) violation(label,P->m); } return; }
  int cl=S->classify(d); 
  if(!(cl&7)){ E*c=C->req(a,b); st.obl--; st.labels[label]--; obligation(c,label); return; }
  double left=DEADLINE-nowS(); int z=PE->isZero(d,std::min(left,(double)P->tmoCheck/1000.0*2));
  if(z==1){ static std::map<int,int> crossed; S->st.polyq++; if(crossed[P->entry]<100&&left>20){ crossed[P->entry]++; Model xm; if(S->query({C->notE(C->req(a,b))},&xm,300)==UNSAT){ st.oblSolver++; return; } crossed[P->entry]+=20; } st.oblPoly++; return; } // the first identities of an entry are also put to the solver
  Model m; ensureModel(); if(randomCex(d,m)){ violation(label,m); return; }
  Res r=feasible({C->notE(C->req(a,b))},&m,P->tmoCheck);
  if(r==UNSAT){ st.oblSolver++; return; }
  if(r==SAT){ violation(label,m); return; }
  st.unkCheck++; st.unkLabel[label]++; }

#include "interp.h"
