// LLVM IR interpreter over symbolic values
#pragma once
// ---------------- memory
static Obj* newObjAt(uint64_t addr,uint64_t size,int kind,const str&name){ Obj*o=new Obj; o->addr=addr;o->size=size;o->kind=kind;o->name=name; o->data.assign(size,0); o->st.assign(size,0); return o; }
static uint64_t allocObj(uint64_t size,int kind,const str&name){ if(size>(1ull<<28)) throw PathEnd{2,"huge allocation"}; uint64_t a=(P->bump+31)&~15ull; a=(a+15)&~15ull; Obj*o=newObjAt(a,size,kind,name); P->objs.push_back(o); P->bump=a+size+32; return a; }
static Obj* findObj(uint64_t addr){ if(P->last&&addr>=P->last->addr&&addr<P->last->addr+P->last->size) return P->last; size_t lo=0,hi=P->objs.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(P->objs[m]->addr<=addr) lo=m+1; else hi=m; } if(!lo) return nullptr; Obj*o=P->objs[lo-1]; if(addr<o->addr+o->size||(o->size==0&&addr==o->addr)){ P->last=o; return o; } return nullptr; }
static Obj* access(uint64_t addr,uint64_t n,bool wr){
  if(n==0) return nullptr; Obj*o=findObj(addr); if(!o||addr+n>o->addr+o->size){ if(addr<4096) failPath("null-pointer access"); failPath(wr?"out-of-bounds write":"out-of-bounds read"); }
  if(!o->alive) failPath(o->kind==1?"use of dead stack object":"use after free");
  if(wr&&o->shared){ // copy-on-write of a global image
    Obj*c=new Obj(*o); c->shared=false; for(auto&x:P->objs) if(x==o){x=c;break;} P->last=c; return c; }
  return o; }
static void setSym(Obj*o,uint64_t off,E*e,uint8_t ix){ if(o->sym.empty()) o->sym.resize(o->size); o->sym[off]={e,ix}; o->st[off]=2; }
enum TK { T_INT, T_REAL, T_AGG, T_VOID };
static TK tk(Type*t){ if(t->isIntegerTy()||t->isPointerTy()) return T_INT; if(t->isFloatingPointTy()) return T_REAL; if(t->isVoidTy()) return T_VOID; return T_AGG; }
static int twidth(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); return 0; }
static std::vector<V>* newAgg(size_t n){ auto*v=new std::vector<V>(n); P->arena.push_back(v); return v; }
static unsigned aggN(Type*t){ if(auto*s=dyn_cast<StructType>(t)) return s->getNumElements(); if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* aggT(Type*t,unsigned i){ if(auto*s=dyn_cast<StructType>(t)) return s->getElementType(i); if(auto*a=dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static uint64_t aggOff(Type*t,unsigned i){ if(auto*s=dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); if(auto*a=dyn_cast<ArrayType>(t)) return i*DL->getTypeAllocSize(a->getElementType()); return i*DL->getTypeStoreSize(cast<FixedVectorType>(t)->getElementType()); }
// real constant from a double: simplest rational that rounds to it
static std::unordered_map<uint64_t,E*> dcache;
static E* realFromDouble(double d,bool isf=false){
  if(std::isnan(d))return C->NAN_; if(std::isinf(d))return d>0?C->INF:C->NINF; uint64_t key; memcpy(&key,&d,8); key^=isf?0x5555:0; auto it=dcache.find(key); if(it!=dcache.end())return it->second;
  E*r=nullptr; double a=fabs(d); if(a==std::floor(a)&&a<1e15) r=C->rc(mpqFromDouble(d));
  else { // continued fraction
    mpq_class x=mpqFromDouble(a); mpz_class p0=0,q0=1,p1=1,q1=0; mpq_class y=x; for(int i=0;i<40;i++){ mpz_class t; mpz_fdiv_q(t.get_mpz_t(),y.get_num_mpz_t(),y.get_den_mpz_t()); mpz_class p2=t*p1+p0,q2=t*q1+q0; if(q2>100000000) break; if(!(p2>1000000&&q2>20000)){ mpq_class cnd(p2,q2); cnd.canonicalize(); // round-to-nearest conversion
          double back; { mpz_class n=cnd.get_num(),dd=cnd.get_den(); if(mpz_sizeinbase(n.get_mpz_t(),2)<53&&mpz_sizeinbase(dd.get_mpz_t(),2)<53) back=n.get_d()/dd.get_d(); else back=NAN; } if(isf? (float)back==(float)a : back==a){ if((q2<=20000)|| [&]{ // powers of ten denominators (1e-3,1e-10 ...)
              mpz_class z=q2; while(z%10==0) z/=10; while(z%2==0) z/=2; while(z%5==0) z/=5; return z==1; }()){ r=C->rc(d<0?mpq_class(-cnd):cnd); break; } } }
        p0=p1;q0=q1;p1=p2;q1=q2; mpq_class f=y-mpq_class(t); if(f==0)break; y=1/f; }
    if(!r){ // decimal literal?
      char b[64]; for(int prec=1;prec<=(isf?8:15)&&!r;prec++){ snprintf(b,64,"%.*e",prec,a); double bb=strtod(b,nullptr); if(isf?(float)bb==(float)a:bb==a){ str s=b; size_t e=s.find('e'); int ex=atoi(s.c_str()+e+1); str ms=s.substr(0,e); ms.erase(ms.find('.'),1); mpz_class n(ms,10); ex-=prec; mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(),10,abs(ex)); mpq_class q=ex>=0?mpq_class(n*t):mpq_class(n,t); q.canonicalize(); r=C->rc(d<0?mpq_class(-q):q); } } }
    if(!r) r=C->rc(mpqFromDouble(d)); }
  dcache[key]=r; return r; }
static double exactDouble(E*e,bool&ok){ ok=false; if(e->k!=RC) { if(e==C->INF){ok=true;return INFINITY;} if(e==C->NINF){ok=true;return -INFINITY;} if(e==C->NAN_){ok=true;return NAN;} return 0; } double d=e->q->get_d(); // nearest double
  // round to nearest properly
  mpq_class back=mpqFromDouble(d); if(back==*e->q){ok=true;return d;} // get_d truncates: try neighbours
  double d2=std::nextafter(d,d>=0?INFINITY:-INFINITY); mpq_class b2=mpqFromDouble(d2); mpq_class e1=abs(back-*e->q),e2=abs(b2-*e->q); if(e2<e1||(e1==e2&&(*(uint64_t*)&d&1))) d=d2; ok=true; return d; }
static E* ieeeRound(E*e){ if(!P->ieee||e->k!=RC) return e; bool ok; double d=exactDouble(e,ok); mpq_class b=mpqFromDouble(d); return b==*e->q?e:C->rc(b); }
static E* freshUndef(Type*t){ ST[P->entry].undef++; int k=P->fresh++; if(tk(t)==T_REAL) return C->var("undef"+std::to_string(k)+"r",true,0); return C->var("undef"+std::to_string(k)+"w"+std::to_string(twidth(t)),false,twidth(t)); }
static E* asE(const V&v,int w){ if(v.t==1) return C->bv(v.c,w); if(v.t==2) return v.e; if(v.t==0){ ST[P->entry].undef++; return C->var("undef"+std::to_string(P->fresh++)+"w"+std::to_string(w),false,w);} throw Unsupported{"aggregate as scalar"}; }
static E* asR(const V&v){ if(v.t==2) return v.e; if(v.t==0){ ST[P->entry].undef++; return C->var("undef"+std::to_string(P->fresh++)+"r",true,0); } throw Unsupported{"int as real"}; }
static V loadS(uint64_t addr,Type*ty);
static V loadV(uint64_t addr,Type*ty){
  if(tk(ty)==T_AGG){ V r; r.t=3; unsigned n=aggN(ty); r.a=newAgg(n); for(unsigned i=0;i<n;i++) (*r.a)[i]=loadV(addr+aggOff(ty,i),aggT(ty,i)); return r; }
  return loadS(addr,ty); }
static E* loadBytes(Obj*o,uint64_t off,int nb){ // little-endian bitvector of nb bytes, mixed
  E*r=nullptr; for(int i=0;i<nb;i++){ E*b; if(o->st[off+i]==1) b=C->bv(o->data[off+i],8); else if(o->st[off+i]==2){ auto&s=o->sym[off+i]; if(s.e->real){ throw Unsupported{"byte of a real"}; } b=s.e->w<8?C->zext(s.e,8):C->extract(s.e,s.ix*8,8); } else b=C->var("undef"+std::to_string(P->fresh++)+"w8",false,8); r=r?C->concat(b,r):b; } return r; }
static V loadS(uint64_t addr,Type*ty){
  int nb=DL->getTypeStoreSize(ty); Obj*o=access(addr,nb,false); uint64_t off=addr-o->addr; bool real=tk(ty)==T_REAL; int w=twidth(ty);
  bool allc=true,allu=true,alls=true; for(int i=0;i<nb;i++){ uint8_t s=o->st[off+i]; if(s!=1)allc=false; if(s!=0)allu=false; if(s!=2)alls=false; }
  if(allu){ return V(); }
  if(real){
    if(alls){ auto&s0=o->sym[off]; bool whole=s0.ix==0; for(int i=1;i<nb&&whole;i++) if(o->sym[off+i].e!=s0.e||o->sym[off+i].ix!=i) whole=false; if(whole){ if(s0.e->real) return VE(s0.e); if(s0.e->k==RBITS) return VE(s0.e->a[0]); throw Unsupported{"real from symbolic bits"}; } 
      throw Unsupported{"real from mixed bytes"}; }
    if(allc){ if(nb==8){ double d; memcpy(&d,&o->data[off],8); return VE(P->ieee?(std::isfinite(d)?C->rc(mpqFromDouble(d)):realFromDouble(d)):realFromDouble(d)); } if(nb==4){ float f; memcpy(&f,&o->data[off],4); return VE(realFromDouble(f,true)); } if(nb==16||nb==10){ long double ld=0; memcpy(&ld,&o->data[off],10); return VE(realFromDouble((double)ld)); } }
    throw Unsupported{"partially undefined real"}; }
  if(allc){ V v=VI(0); if(nb<=8){ memcpy(&v.c,&o->data[off],nb); v.c&=maskw(w); } else if(nb==16){ memcpy(&v.c,&o->data[off],8); memcpy(&v.hi,&o->data[off+8],8); } else throw Unsupported{"wide int load"}; return v; }
  if(alls){ auto&s0=o->sym[off]; bool whole=s0.ix==0; for(int i=1;i<nb&&whole;i++) if(o->sym[off+i].e!=s0.e||o->sym[off+i].ix!=i) whole=false; if(whole){ E*e=s0.e; if(e->real){ int eb=nb*8; bool ok=false; if(e->k==RC||e->k==RSPEC){ double d=exactDouble(e,ok); if(ok){ if(eb==64){ V v=VI(0); memcpy(&v.c,&d,8); return v; } if(eb==32){ float f=d; V v=VI(0); memcpy(&v.c,&f,4); return v; } } } return VE(C->raw(RBITS,0,eb,0,e)); }
      int eb=(e->w+7)/8; if(eb==nb){ return VE(e->w==w?e:(e->w<w?C->zext(e,w):C->extract(e,0,w))); } } }
  if(nb>8) throw Unsupported{"wide symbolic load"};
  E*e=loadBytes(o,off,nb); if(e->w!=w) e=C->extract(e,0,w); return VE(e); }
static void storeV(uint64_t addr,const V&v,Type*ty){
  if(tk(ty)==T_AGG){ unsigned n=aggN(ty); for(unsigned i=0;i<n;i++) storeV(addr+aggOff(ty,i),v.t==3?(*v.a)[i]:V(),aggT(ty,i)); return; }
  int nb=DL->getTypeStoreSize(ty); Obj*o=access(addr,nb,true); uint64_t off=addr-o->addr;
  if(v.t==0){ for(int i=0;i<nb;i++) o->st[off+i]=0; return; }
  if(v.t==1){ if(nb<=8) memcpy(&o->data[off],&v.c,nb); else if(nb==16){ memcpy(&o->data[off],&v.c,8); memcpy(&o->data[off+8],&v.hi,8);} else throw Unsupported{"wide int store"}; for(int i=0;i<nb;i++) o->st[off+i]=1; return; }
  E*e=v.e; if(!e->real&&e->k==KEXTRACT&&e->a[0]->k==RBITS&&e->c%8==0&&e->w==nb*8){ for(int i=0;i<nb;i++) setSym(o,off+i,e->a[0]->a[0],(int)e->c/8+i); return; }
  if(!e->real&&e->k==RBITS) e=e->a[0]; for(int i=0;i<nb;i++) setSym(o,off+i,e,i); }
static void copyBytes(uint64_t d,uint64_t s,uint64_t n){ if(!n||d==s)return; Obj*so=access(s,n,false); Obj*dobj=access(d,n,true); so=access(s,n,false); uint64_t so_=s-so->addr,do_=d-dobj->addr; 
  bool anysym=false; for(uint64_t i=0;i<n;i++) if(so->st[so_+i]==2) anysym=true;
  if(anysym&&dobj->sym.empty()) dobj->sym.resize(dobj->size);
  memmove(&dobj->data[do_],&so->data[so_],n); memmove(&dobj->st[do_],&so->st[so_],n); if(anysym) memmove((void*)&dobj->sym[do_],(void*)&so->sym[so_],n*sizeof(SymB)); }

// symbolic address resolution
static int strideOf(E*e){ // gcd of the varying part (power of two part only)
  switch(e->k){ case KC: return 0; case KMUL: if(Ctx::isC(e->a[1])){ uint64_t c=e->a[1]->c; int s=strideOf(e->a[0]); uint64_t low=c&(~c+1); uint64_t r=low*(s?s&-s:1); (void)c; return r>64?64:(int)r; } return 1;
    case KADD: { int a=strideOf(e->a[0]),b=strideOf(e->a[1]); if(!a)return b; if(!b)return a; return std::min(a&-a,b&-b); }
    case KITE: { if(Ctx::isC(e->a[1])&&Ctx::isC(e->a[2])){ uint64_t d=e->a[1]->c-e->a[2]->c; uint64_t l=d&(~d+1); return l>64?64:l?(int)l:64; } return 1; }
    default: return 1; } }
static V loadAny(const V&p,Type*ty){
  if(p.t==1) return loadV(p.c,ty); if(p.t==0) failPath("load through undefined pointer");
  E*a=p.e; ensureModel(); 
  if(P->mv&&tk(ty)!=T_AGG&&P->maxIte>0&&!ty->isPointerTy()){
    bool u; uint64_t c0=evalB(a,P->m,u); Obj*o=u?nullptr:findObj(c0); int nb=DL->getTypeStoreSize(ty);
    if(o&&o->alive){ int st=std::max(1,strideOf(a)); uint64_t rem=(c0-o->addr)%st; uint64_t ncand=(o->size+st-1)/st;
      if(st>=nb&&ncand<=(uint64_t)P->maxIte){ E*lo=C->bv(o->addr,64),*span=C->bv(o->size-nb,64); E*inb=C->ule(C->sub(a,lo),span);
        if(!decide(inb)) failPath("out-of-bounds read (symbolic index)");
        // ite chain over candidate offsets
        E*r=nullptr; bool real=tk(ty)==T_REAL; bool ok=true; int w=twidth(ty); E*off=C->sub(a,lo);
        std::vector<std::pair<uint64_t,E*>> cs; for(uint64_t f=rem;f+nb<=o->size;f+=st){ bool und=true; for(int i=0;i<nb;i++) if(o->st[f+i]) und=false; if(und) continue; E*cond=C->eq(off,C->bv(f,64)); if(cond==C->Fa) continue; try { V v=loadS(o->addr+f,ty); cs.push_back({f,real?asR(v):asE(v,w)}); if(real&&Ctx::isSp(cs.back().second)) ok=false; } catch(Unsupported&){ ok=false; } }
        if(ok&&!cs.empty()){ for(auto&c:cs){ if(!r) r=c.second; else r=C->ite(C->eq(off,C->bv(c.first,64)),c.second,r); } return VE(r); } } } }
  uint64_t c=concretize(a,"load address"); return loadV(c,ty); }
static uint64_t addrOf(const V&p,const char*why){ if(p.t==1) return p.c; if(p.t==0) failPath("use of undefined pointer"); return concretize(p.e,why); }

// ---------------- decode
static FnD* decode(Function*F);
static V constV(Constant*c){
  Type*ty=c->getType();
  if(isa<UndefValue>(c)) { V v; if(tk(ty)==T_AGG){ v.t=3; v.a=new std::vector<V>(aggN(ty)); for(unsigned i=0;i<aggN(ty);i++) (*v.a)[i]=constV(UndefValue::get(aggT(ty,i))); } return v; }
  if(auto*ci=dyn_cast<ConstantInt>(c)){ V v=VI(0); v.c=ci->getValue().extractBitsAsZExtValue(std::min(64u,ci->getBitWidth()),0); if(ci->getBitWidth()>64) v.hi=ci->getValue().extractBitsAsZExtValue(ci->getBitWidth()-64,64); return v; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ APFloat f=cf->getValueAPF(); bool li; bool isf=ty->isFloatTy(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return VE(realFromDouble(f.convertToDouble(),isf)); }
  if(isa<ConstantPointerNull>(c)) return VI(0);
  if(auto*f=dyn_cast<Function>(c)) return VI(faddr[f]);
  if(auto*g=dyn_cast<GlobalVariable>(c)) return VI(gaddr[g]);
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return constV(ga->getAliasee());
  if(isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ V v; v.t=3; unsigned n=aggN(ty); v.a=new std::vector<V>(n); for(unsigned i=0;i<n;i++) (*v.a)[i]=constV(c->getAggregateElement(i)); return v; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(g->accumulateConstantOffset(*DL,off)){ V b=constV(g->getPointerOperand()->stripPointerCasts()==g->getPointerOperand()?cast<Constant>(g->getPointerOperand()):cast<Constant>(g->getPointerOperand())); return VI(b.c+off.getSExtValue()); } break; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { V b=constV(ce->getOperand(0)); int w=twidth(ty); if(b.t==1&&w) b.c&=maskw(w); return b; }
      case Instruction::Trunc: { V b=constV(ce->getOperand(0)); b.c&=maskw(twidth(ty)); return b; }
      case Instruction::Sub: { V a=constV(ce->getOperand(0)),b=constV(ce->getOperand(1)); return VI((a.c-b.c)&maskw(twidth(ty))); }
      case Instruction::Add: { V a=constV(ce->getOperand(0)),b=constV(ce->getOperand(1)); return VI((a.c+b.c)&maskw(twidth(ty))); }
      default: break; } }
  throw Unsupported{"constant"}; }
static void writeConst(Obj*o,uint64_t off,Constant*c){ // into a global image
  Type*ty=c->getType(); if(isa<UndefValue>(c)){ return; }
  if(isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)){ uint64_t n=DL->getTypeAllocSize(ty); for(uint64_t i=0;i<n&&off+i<o->size;i++){o->data[off+i]=0;o->st[off+i]=1;} return; }
  if(tk(ty)==T_AGG){ unsigned n=aggN(ty); for(unsigned i=0;i<n;i++) writeConst(o,off+aggOff(ty,i),c->getAggregateElement(i)); return; }
  int nb=DL->getTypeStoreSize(ty);
  if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); for(int i=0;i<nb;i++){ o->data[off+i]=(uint8_t)b.extractBitsAsZExtValue(8,i*8); o->st[off+i]=1; } return; }
  V v; try { v=constV(c); } catch(Unsupported&){ return; } for(int i=0;i<nb;i++){ o->data[off+i]=i<8?(uint8_t)(v.c>>(8*i)):(uint8_t)(v.hi>>(8*(i-8))); o->st[off+i]=1; } }

static FnD* decode(Function*F){
  auto it=fnd.find(F); if(it!=fnd.end())return it->second; FnD*d=new FnD; d->F=F; fnd[F]=d;
  std::unordered_map<const Value*,int> reg; std::unordered_map<const BasicBlock*,int> bbi; int n=0; for(auto&a:F->args()){ reg[&a]=n++; }
  int k=0; for(auto&B:*F){ bbi[&B]=k++; for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++; } d->nreg=n; d->bb.resize(k);
  std::unordered_map<const Value*,int> cidx;
  auto opn=[&](Value*v)->int{ auto r=reg.find(v); if(r!=reg.end())return r->second; if(auto*c=dyn_cast<Constant>(v)){ auto i=cidx.find(c); if(i!=cidx.end())return ~i->second; V cv; try { cv=constV(c); } catch(Unsupported&){ cv=V(); } int ix=d->cst.size(); d->cst.push_back(cv); cidx[c]=ix; return ~ix; } int ix=d->cst.size(); d->cst.push_back(V()); return ~ix; };
  k=0; for(auto&B:*F){ auto&bb=d->bb[k++]; for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; DI x; x.I=&I; x.op=I.getOpcode(); x.dst=I.getType()->isVoidTy()?-1:reg[&I]; x.ty=I.getType(); x.w=twidth(x.ty); x.real=tk(x.ty)==T_REAL; x.aux=0; x.callee=nullptr; x.b0=x.b1=-1; x.bbidx=k-1;
      if(auto*ph=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<ph->getNumIncomingValues();i++) x.phi.push_back({bbi[ph->getIncomingBlock(i)],opn(ph->getIncomingValue(i))}); bb.nphi++; }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ x.o.push_back(opn(g->getPointerOperand())); int64_t off=0; for(auto gt=gep_type_begin(g),ge=gep_type_end(g);gt!=ge;++gt){ Value*ix=gt.getOperand(); if(StructType*st=gt.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { uint64_t sz=DL->getTypeAllocSize(gt.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*(int64_t)sz; else { x.gi.push_back({opn(ix),(int64_t)sz}); x.o.push_back(twidth(ix->getType())); } } } x.aux=off; }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()) x.o.push_back(opn(a.get())); x.callee=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(!x.callee){ if(auto*al=dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) x.callee=dyn_cast<Function>(al->getAliaseeObject()); } x.aux=(uint64_t)(int64_t)opn(cb->getCalledOperand()); if(auto*iv=dyn_cast<InvokeInst>(&I)){ x.b0=bbi[iv->getNormalDest()]; x.b1=bbi[iv->getUnwindDest()]; } }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ x.o.push_back(opn(br->getCondition())); x.b0=bbi[br->getSuccessor(0)]; x.b1=bbi[br->getSuccessor(1)]; } else x.b0=bbi[br->getSuccessor(0)]; }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ x.o.push_back(opn(sw->getCondition())); x.w=twidth(sw->getCondition()->getType()); x.b0=bbi[sw->getDefaultDest()]; for(auto&c:sw->cases()) x.gi.push_back({bbi[c.getCaseSuccessor()],(int64_t)c.getCaseValue()->getZExtValue()}); }
      else { for(auto&o:I.operands()) if(!isa<BasicBlock>(o.get())) x.o.push_back(opn(o.get())); }
      if(auto*al=dyn_cast<AllocaInst>(&I)) x.aux=DL->getTypeAllocSize(al->getAllocatedType());
      bb.ins.push_back(std::move(x)); } }
  return d; }

// ---------------- calls
static V callFunction(Function*F,std::vector<V>&args,CallBase*cb);
static bool ext(const str&nm,Function*F,std::vector<V>&a,V&ret,CallBase*cb);
static V intrinsic(Function*F,std::vector<V>&a,CallBase*cb);
static E* foldConst(E*x){ // polynomial normal form is a constant?
  if(x->k==RC||x->k==RSPEC||x->k==RVAR||!x->real) return x; static std::unordered_map<E*,E*> memo; auto it=memo.find(x); if(it!=memo.end()) return it->second; E*r=x;
  try { PE->deadline=nowS()+0.03; PE->ops=0; PolyEngine::Poly p=PE->normal(x); if(p.empty()) r=C->R0; else if(p.size()==1&&p.begin()->first->f.empty()) r=C->rc(p.begin()->second); } catch(PolyTooBig&){ PE->memo.clear(); } catch(Unsupported&){}
  return memo[x]=r; }
static E* demand(E*num,E*den){ // division with domain handling
  den=foldConst(den);
  if(den->k!=RC&&den->k!=RSPEC){ E*z=C->req(den,C->R0); if(z==C->T){ den=C->R0; } else if(z!=C->Fa&&!P->pcs.count(C->notE(z))){ if(P->div0){ if(decide(z)) failPath("division by zero"); } else addPc(C->notE(z)); } }
  if(den->k==RC&&*den->q==0&&num->k!=RC&&num->k!=RSPEC){ if(decide(C->rlt(C->R0,num))) return C->INF; if(decide(C->rlt(num,C->R0))) return C->NINF; return C->NAN_; }
  if(Ctx::isSp(num)&&den->k!=RC&&den->k!=RSPEC){ bool pos=decide(C->rlt(C->R0,den)); return (num==C->NAN_)?num:pos==(num==C->INF)?C->INF:C->NINF; }
  return ieeeRound(C->rdiv(num,den)); }
static E* rmulX(E*x,E*y){ if(Ctx::isSp(x)&&y->k!=RC&&y->k!=RSPEC) std::swap(x,y); if(Ctx::isSp(y)&&y!=C->NAN_&&x->k!=RC&&x->k!=RSPEC){ if(decide(C->rlt(C->R0,x))) return y; if(decide(C->rlt(x,C->R0))) return C->rneg(y); return C->NAN_; } return ieeeRound(C->rmul(x,y)); }
static E* fabsX(E*x);
static E* sqrtX(E*x){ x=foldConst(x); if(x->k!=RC&&x->k!=RSPEC&&P->opt.count("sqrt_square")){ E*r=PE->squareRoot(x,0.5); if(r) return fabsX(r); } if(x->k==RC&&*x->q>0&&P->opt.count("float_sqrt")){ mpz_class n=x->q->get_num(),d=x->q->get_den(); if(!mpz_perfect_square_p(n.get_mpz_t())||!mpz_perfect_square_p(d.get_mpz_t())) return realFromDouble(std::sqrt(toD(*x->q))); } if(x->k!=RC&&x->k!=RSPEC){ int s=C->signOf(x); if(s==-2){ E*neg=C->rlt(x,C->R0); if(neg!=C->Fa&&!P->pcs.count(C->notE(neg))) addPc(C->notE(neg)); } } if(P->ieee&&x->k==RC){ bool ok; double d=exactDouble(x,ok); return realFromDouble(std::sqrt(d)); } return C->rsqrt(x); }
static E* fabsX(E*x){ if(P->opt.count("fold")) x=foldConst(x); if(x->k==RC) return C->rc(abs(*x->q)); if(x==C->NINF)return C->INF; if(x->k==RSPEC)return x; int s=C->signOf(x); if(s==1||s==2)return x; if(s==-1)return C->rneg(x); E*c=C->rlt(x,C->R0); if(P->fsel) return decide(c)?C->rneg(x):x; return C->rite(c,C->rneg(x),x); }
static E* selR(E*c,E*x,E*y){ if(x==y)return x; if(c->k==KC) return c->c?x:y; if(P->fsel||Ctx::isSp(x)||Ctx::isSp(y)) return decide(c)?x:y; return C->rite(c,x,y); }
static E* funX(Fun f,E*x,E*y=nullptr){
  if(Ctx::isSp(x)||(y&&Ctx::isSp(y))){ double dx=x==C->INF?INFINITY:x==C->NINF?-INFINITY:NAN; switch(f){ case F_EXP: return x==C->INF?C->INF:x==C->NINF?C->R0:C->NAN_; case F_ATAN: return realFromDouble(atan(dx)); case F_LOG: return x==C->INF?C->INF:C->NAN_; default: return C->NAN_; } }
  if(x->k==RC&&(!y||y->k==RC)){ if(*x->q==0&&!y){ switch(f){ case F_SIN:case F_TAN:case F_ASIN:case F_ATAN:case F_CBRT:case F_SINH:case F_TANH: return C->R0; case F_COS:case F_EXP:case F_COSH: return C->R1; default:break; } } if(f==F_POW&&y->k==RC&&y->q->get_den()==1&&abs(*y->q)<=64){ long n=y->q->get_num().get_si(); E*r=C->R1; for(long i=0;i<std::labs(n);i++) r=C->rmul(r,x); return n>=0?r:demand(C->R1,r); }
    if(f==F_SIN||f==F_COS){ // exact multiples of pi/12?
    }
    double v=0,p=toD(*x->q),q=y?toD(*y->q):0; switch(f){ case F_SIN:v=sin(p);break;case F_COS:v=cos(p);break;case F_TAN:v=tan(p);break;case F_ASIN:v=asin(p);break;case F_ACOS:v=acos(p);break;case F_ATAN:v=atan(p);break;case F_ATAN2:v=atan2(p,q);break;case F_EXP:v=exp(p);break;case F_LOG:v=log(p);break;case F_POW:v=pow(p,q);break;case F_CBRT:v=cbrt(p);break;case F_SINH:v=sinh(p);break;case F_COSH:v=cosh(p);break;case F_TANH:v=tanh(p);break; default: break; }
    return std::isfinite(v)?C->rc(mpqFromDouble(v)):realFromDouble(v); }
  switch(f){
    case F_POW: { if(y->k==RC){ if(y->q->get_den()==1&&abs(*y->q)<=16){ long n=y->q->get_num().get_si(); E*r=C->R1; for(long i=0;i<std::labs(n);i++) r=C->rmul(r,x); return n>=0?r:demand(C->R1,r); } if(y->q->get_den()==2&&abs(*y->q)<=8){ E*s=sqrtX(x); long n=y->q->get_num().get_si(); E*r=C->R1; for(long i=0;i<std::labs(n);i++) r=C->rmul(r,s); return n>=0?r:demand(C->R1,r); } } addPc(C->rlt(C->R0,x)); break; }
    case F_LOG: addPc(C->rlt(C->R0,x)); break;
    case F_ASIN: case F_ACOS: addPc(C->rle(C->RM1,x)); addPc(C->rle(x,C->R1)); break;
    case F_TAN: return demand(C->rfun(F_SIN,x),C->rfun(F_COS,x));
    default: break; }
  if((f==F_SIN||f==F_COS)){ // sin(acos x), cos(acos x), of asin, atan, atan2
    if(x->k==RFUN){ int g=x->c&0xff; E*t=x->a[0]; if(g==F_ACOS){ if(f==F_COS)return t; return sqrtX(C->rsub(C->R1,C->rmul(t,t))); } if(g==F_ASIN){ if(f==F_SIN)return t; return sqrtX(C->rsub(C->R1,C->rmul(t,t))); } if(g==F_ATAN){ E*h=sqrtX(C->radd(C->R1,C->rmul(t,t))); return f==F_SIN?demand(t,h):demand(C->R1,h); } if(g==F_ATAN2){ E*h=sqrtX(C->radd(C->rmul(t,t),C->rmul(x->a[1],x->a[1]))); return demand(f==F_SIN?t:x->a[1],h); } }
    if(x->k==RMUL&&Ctx::isR(x->a[1])&&*x->a[1]->q<0){ E*v=funX(f,C->rneg(x)); return f==F_SIN?C->rneg(v):v; }
    if(x->k==RMUL&&Ctx::isR(x->a[1])&&*x->a[1]->q==2){ E*s=funX(F_SIN,x->a[0]),*c=funX(F_COS,x->a[0]); return f==F_SIN?C->rmul(C->rmul(s,c),C->rc(2)):C->rsub(C->rmul(c,c),C->rmul(s,s)); }
    if(x->k==RMUL&&Ctx::isR(x->a[1])&&*x->a[1]->q==1&&false) return x;
    if(x->k==RADD&&!Ctx::isR(x->a[1])){ E*s1=funX(F_SIN,x->a[0]),*c1=funX(F_COS,x->a[0]),*s2=funX(F_SIN,x->a[1]),*c2=funX(F_COS,x->a[1]); return f==F_SIN?C->radd(C->rmul(s1,c2),C->rmul(c1,s2)):C->rsub(C->rmul(c1,c2),C->rmul(s1,s2)); }
    if(x->k==RMUL&&Ctx::isR(x->a[1])&&*x->a[1]->q==mpq_class(1,2)&&x->a[0]->k==RFUN&&(x->a[0]->c&0xff)==F_ACOS){ E*t=x->a[0]->a[0]; return sqrtX(C->rmul(f==F_COS?C->radd(C->R1,t):C->rsub(C->R1,t),C->rc(mpq_class(1,2)))); }
    // half of a polar angle: t=atan2(y,x) lies in (-pi,pi], so cos(t/2)>=0
    if(x->k==RMUL&&Ctx::isR(x->a[1])&&*x->a[1]->q==mpq_class(1,2)&&x->a[0]->k==RFUN&&(x->a[0]->c&0xff)==F_ATAN2){ E*yy=x->a[0]->a[0],*xx=x->a[0]->a[1]; if(decide(C->rle(yy,C->R0))&&decide(C->rle(C->R0,yy))){ bool neg=decide(C->rlt(xx,C->R0)); return (f==F_SIN)==neg?C->R1:C->R0; } E*r=sqrtX(C->radd(C->rmul(yy,yy),C->rmul(xx,xx))); E*c=sqrtX(demand(C->radd(r,xx),C->rmul(r,C->rc(2)))); return f==F_COS?c:demand(yy,C->rmul(C->rmul(r,c),C->rc(2))); }
    // canonical half angle basis: sin(t) with atom t -> 2 s(t/2) c(t/2) when requested
    if(P->opt.count("halfangle")){ E*h=C->rmul(x,C->rc(mpq_class(1,2))); if(!(x->k==RMUL&&Ctx::isR(x->a[1])&&x->a[1]->q->get_den()==2)){ E*s=C->rfun(F_SIN,h),*c=C->rfun(F_COS,h); return f==F_SIN?C->rmul(C->rmul(s,c),C->rc(2)):C->rsub(C->rmul(c,c),C->rmul(s,s)); } } }
  return C->rfun(f,x,y); }

static V binop(unsigned op,const V&x,const V&y,int w,Instruction*I){
  if(w>64){ if(x.t==1&&y.t==1){ typedef unsigned __int128 u; u a=((u)x.hi<<64)|x.c,b=((u)y.hi<<64)|y.c,r=0; switch(op){ case Instruction::Add:r=a+b;break;case Instruction::Sub:r=a-b;break;case Instruction::Mul:r=a*b;break;case Instruction::And:r=a&b;break;case Instruction::Or:r=a|b;break;case Instruction::Xor:r=a^b;break;case Instruction::LShr:r=b<128?a>>(int)b:0;break;case Instruction::Shl:r=b<128?a<<(int)b:0;break;case Instruction::UDiv: if(!b) failPath("division by zero"); r=a/b;break;case Instruction::URem: if(!b) failPath("division by zero"); r=a%b;break; default: throw Unsupported{"i128 op"}; } V v=VI((uint64_t)r); v.hi=(uint64_t)(r>>64); return v; } throw Unsupported{"symbolic i128"}; }
  if(x.t==0&&y.t==0) return V();
  if(x.t==1&&y.t==1){ K k; switch(op){ case Instruction::Add:return VI((x.c+y.c)&maskw(w));case Instruction::Sub:return VI((x.c-y.c)&maskw(w));case Instruction::Mul:k=KMUL;break;case Instruction::UDiv:k=KUDIV;break;case Instruction::SDiv:k=KSDIV;break;case Instruction::URem:k=KUREM;break;case Instruction::SRem:k=KSREM;break;case Instruction::And:return VI(x.c&y.c);case Instruction::Or:return VI(x.c|y.c);case Instruction::Xor:return VI(x.c^y.c);case Instruction::Shl:k=KSHL;break;case Instruction::LShr:k=KLSHR;break;case Instruction::AShr:k=KASHR;break;default:throw Unsupported{"binop"}; } if((k==KUDIV||k==KSDIV||k==KUREM||k==KSREM)&&y.c==0) failPath("integer division by zero"); return VI(Ctx::foldbv(k,x.c,y.c,w)); }
  E*a=asE(x,w),*b=asE(y,w);
  if(a->k==RBITS||b->k==RBITS){ // sign-bit tricks
    E*r=a->k==RBITS?a:b,*o=a->k==RBITS?b:a; if(Ctx::isC(o)){ uint64_t sb=1ull<<(w-1); if(op==Instruction::Xor&&o->c==sb) return VE(C->raw(RBITS,0,w,0,C->rneg(r->a[0]))); if(op==Instruction::And&&o->c==sb-1) return VE(C->raw(RBITS,0,w,0,fabsX(r->a[0]))); if(op==Instruction::LShr&&r==a&&o->c<(uint64_t)w&&o->c%8==0) return VE(C->zext(C->extract(a,(int)o->c,w-(int)o->c),w)); }
    throw Unsupported{"integer arithmetic on the bits of a symbolic real"}; }
  switch(op){
    case Instruction::Add:return VE(C->add(a,b)); case Instruction::Sub:return VE(C->sub(a,b)); case Instruction::Mul:return VE(C->mul(a,b));
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { E*z=C->eq(b,C->bv(0,w)); if(decide(z)) failPath("integer division by zero"); return VE(C->bin(op==Instruction::UDiv?KUDIV:op==Instruction::SDiv?KSDIV:op==Instruction::URem?KUREM:KSREM,a,b)); }
    case Instruction::And:return VE(C->and_(a,b)); case Instruction::Or:return VE(C->or_(a,b)); case Instruction::Xor:return VE(C->bin(KXOR,a,b));
    case Instruction::Shl:return VE(C->bin(KSHL,a,b)); case Instruction::LShr:return VE(C->bin(KLSHR,a,b)); case Instruction::AShr:return VE(C->bin(KASHR,a,b));
    default: throw Unsupported{"binop"}; } }
static E* icmpE(CmpInst::Predicate p,E*a,E*b){ switch(p){ case CmpInst::ICMP_EQ:return C->eq(a,b);case CmpInst::ICMP_NE:return C->notE(C->eq(a,b));case CmpInst::ICMP_ULT:return C->ult(a,b);case CmpInst::ICMP_ULE:return C->ule(a,b);case CmpInst::ICMP_UGT:return C->ult(b,a);case CmpInst::ICMP_UGE:return C->ule(b,a);case CmpInst::ICMP_SLT:return C->slt(a,b);case CmpInst::ICMP_SLE:return C->sle(a,b);case CmpInst::ICMP_SGT:return C->slt(b,a);case CmpInst::ICMP_SGE:return C->sle(b,a);default:throw Unsupported{"icmp"}; } }
static V icmpV(CmpInst::Predicate p,const V&x,const V&y,int w){
  if(w>64){ if(x.t==1&&y.t==1){ typedef unsigned __int128 u; u a=((u)x.hi<<64)|x.c,b=((u)y.hi<<64)|y.c; bool r; switch(p){ case CmpInst::ICMP_EQ:r=a==b;break;case CmpInst::ICMP_NE:r=a!=b;break;case CmpInst::ICMP_ULT:r=a<b;break;case CmpInst::ICMP_ULE:r=a<=b;break;case CmpInst::ICMP_UGT:r=a>b;break;case CmpInst::ICMP_UGE:r=a>=b;break;default:throw Unsupported{"i128 cmp"}; } return VI(r); } throw Unsupported{"i128 cmp"}; }
  if(x.t==1&&y.t==1){ int64_t a=sx64(x.c,w),b=sx64(y.c,w); bool r; switch(p){ case CmpInst::ICMP_EQ:r=x.c==y.c;break;case CmpInst::ICMP_NE:r=x.c!=y.c;break;case CmpInst::ICMP_ULT:r=x.c<y.c;break;case CmpInst::ICMP_ULE:r=x.c<=y.c;break;case CmpInst::ICMP_UGT:r=x.c>y.c;break;case CmpInst::ICMP_UGE:r=x.c>=y.c;break;case CmpInst::ICMP_SLT:r=a<b;break;case CmpInst::ICMP_SLE:r=a<=b;break;case CmpInst::ICMP_SGT:r=a>b;break;case CmpInst::ICMP_SGE:r=a>=b;break;default:throw Unsupported{"icmp"}; } return VI(r); }
  E*a=asE(x,w),*b=asE(y,w);
  if(a->k==RBITS||b->k==RBITS){ E*r=a->k==RBITS?a:b,*o=a->k==RBITS?b:a; if(p==CmpInst::ICMP_SLT&&r==a&&Ctx::isC(o)&&o->c==0) return VE(C->rlt(r->a[0],C->R0)); if(p==CmpInst::ICMP_SGT&&r==a&&Ctx::isC(o)&&o->c==maskw(w)) return VE(C->rle(C->R0,r->a[0])); if((p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)&&a->k==RBITS&&b->k==RBITS){ E*q=C->req(a->a[0],b->a[0]); return VE(p==CmpInst::ICMP_EQ?q:C->notE(q)); } throw Unsupported{"comparison of real bits"}; }
  return VE(icmpE(p,a,b)); }
static E* fcmpE(CmpInst::Predicate p,E*a,E*b){ bool nan=a==C->NAN_||b==C->NAN_; switch(p){ case CmpInst::FCMP_FALSE:return C->Fa;case CmpInst::FCMP_TRUE:return C->T;
    case CmpInst::FCMP_ORD:return C->b(!nan);case CmpInst::FCMP_UNO:return C->b(nan);
    case CmpInst::FCMP_OEQ:return C->req(a,b);case CmpInst::FCMP_UEQ:return nan?C->T:C->req(a,b);case CmpInst::FCMP_ONE:return nan?C->Fa:C->notE(C->req(a,b));case CmpInst::FCMP_UNE:return nan?C->T:C->notE(C->req(a,b));
    case CmpInst::FCMP_OLT:return C->rlt(a,b);case CmpInst::FCMP_ULT:return nan?C->T:C->rlt(a,b);case CmpInst::FCMP_OLE:return C->rle(a,b);case CmpInst::FCMP_ULE:return nan?C->T:C->rle(a,b);
    case CmpInst::FCMP_OGT:return C->rlt(b,a);case CmpInst::FCMP_UGT:return nan?C->T:C->rlt(b,a);case CmpInst::FCMP_OGE:return C->rle(b,a);case CmpInst::FCMP_UGE:return nan?C->T:C->rle(b,a);default:throw Unsupported{"fcmp"}; } }
static V vecmap(Type*ty,const V&x,const V&y,std::function<V(Type*,const V&,const V&)> f){ V r; r.t=3; unsigned n=aggN(ty); r.a=newAgg(n); for(unsigned i=0;i<n;i++) (*r.a)[i]=f(aggT(ty,i),x.t==3?(*x.a)[i]:V(),y.t==3?(*y.a)[i]:V()); return r; }
static V selectV(E*c,const V&x,const V&y,Type*ty){
  if(tk(ty)==T_AGG){ return decide(c)?x:y; } if(tk(ty)==T_REAL) return VE(selR(c,asR(x),asR(y)));
  if(ty->isPointerTy()||x.t==0||y.t==0||twidth(ty)>64) return decide(c)?x:y;
  int w=twidth(ty); E*a=asE(x,w),*b=asE(y,w); if(a->k==RBITS||b->k==RBITS) return decide(c)?x:y; if(P->fsel==2&&w>1) return decide(c)?x:y; return VE(C->ite(c,a,b)); }

static uint64_t typeinfoMatch(uint64_t thrown,uint64_t want){ // walk si_class chain: name compare by address + base pointer at +16
  for(int i=0;i<8&&thrown;i++){ if(thrown==want)return 1; Obj*o=findObj(thrown); if(!o||o->size<24) return 0; bool allc=true; for(int k=16;k<24;k++) if(o->st[k]!=1) allc=false; if(!allc) return 0; uint64_t b; memcpy(&b,&o->data[16],8); if(o->size!=24) { if(o->size<40) return 0; memcpy(&b,&o->data[24],8); } thrown=b; } return 0; }
static V execFn(FnD*d,std::vector<V>&args){
  if(P->depth>400) throw PathEnd{2,"recursion depth"}; struct Dp{ Dp(FnD*d){P->depth++; P->cstack.push_back(d->F->getName().str());} ~Dp(){P->depth--; if(std::uncaught_exceptions()&&P->errWhere.empty()) P->errWhere=P->cstack.back(); P->cstack.pop_back();} } dp(d);
  d->calls++; std::vector<V> R(d->nreg); for(size_t i=0;i<args.size()&&i<d->F->arg_size();i++) R[i]=args[i];
  std::vector<size_t> allocas; struct Al { std::vector<Obj*> v; ~Al(){ if(P) for(auto*o:v) o->alive=false; } } als;
  auto val=[&](int o)->const V&{ return o>=0?R[o]:d->cst[~o]; };
  int bb=0,pred=-1; std::vector<V> phv; V excv; 
  while(true){
    BB&B=d->bb[bb];
    if(B.nphi){ phv.clear(); for(int i=0;i<B.nphi;i++){ auto&x=B.ins[i]; int o=0; bool f=false; for(auto&p:x.phi) if(p.first==pred){o=p.second;f=true;break;} if(!f) throw Unsupported{"phi"}; phv.push_back(val(o)); } for(int i=0;i<B.nphi;i++) R[B.ins[i].dst]=phv[i]; }
    int next=-1;
    for(size_t ip=B.nphi;ip<B.ins.size();ip++){
      DI&x=B.ins[ip]; if(++P->steps>P->maxSteps){ if(P->opt.count("steps_are_violation")) failPath("non-termination (step limit)"); throw PathEnd{2,"step limit"}; }
      if((P->steps&0xffff)==0) checkTime();
      switch(x.op){
        case Instruction::Ret: return x.o.empty()?V():val(x.o[0]);
        case Instruction::Br: if(x.o.empty()) next=x.b0; else { const V&c=val(x.o[0]); bool t; if(c.t==1) t=c.c&1; else t=decide(asE(c,1)); next=t?x.b0:x.b1; } break;
        case Instruction::Switch: { const V&c=val(x.o[0]); next=x.b0; if(c.t==1){ for(auto&g:x.gi) if((uint64_t)g.second==c.c){next=g.first;break;} } else { E*e=asE(c,x.w); for(auto&g:x.gi){ if(decide(C->eq(e,C->bv((uint64_t)g.second,x.w)))){ next=g.first; break; } } } break; }
        case Instruction::Unreachable: throw PathEnd{1,"unreachable executed in "+P->cstack.back()};
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
          if(x.w) R[x.dst]=binop(x.op,val(x.o[0]),val(x.o[1]),x.w,x.I); else { unsigned op=x.op; Instruction*I=x.I; R[x.dst]=vecmap(x.ty,val(x.o[0]),val(x.o[1]),[&](Type*t,const V&p,const V&q){return binop(op,p,q,twidth(t),I);}); } break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
          unsigned op=x.op; auto f=[&](Type*,const V&p,const V&q)->V{ E*a=asR(p),*b=asR(q); switch(op){ case Instruction::FAdd:return VE(ieeeRound(C->radd(a,b)));case Instruction::FSub:return VE(ieeeRound(C->rsub(a,b)));case Instruction::FMul:return VE(rmulX(a,b));default:return VE(demand(a,b)); } };
          if(x.real) R[x.dst]=f(x.ty,val(x.o[0]),val(x.o[1])); else R[x.dst]=vecmap(x.ty,val(x.o[0]),val(x.o[1]),f); break; }
        case Instruction::FNeg: if(x.real) R[x.dst]=VE(C->rneg(asR(val(x.o[0])))); else R[x.dst]=vecmap(x.ty,val(x.o[0]),val(x.o[0]),[&](Type*,const V&p,const V&)->V{return VE(C->rneg(asR(p)));}); break;
        case Instruction::FRem: { E*a=asR(val(x.o[0])),*b=asR(val(x.o[1])); if(a->k==RC&&b->k==RC&&*b->q!=0) { R[x.dst]=VE(realFromDouble(fmod(toD(*a->q),toD(*b->q)))); } else { E*q=demand(a,b); mpz_class n=realInt(q,0); R[x.dst]=VE(C->rsub(a,C->rmul(b,C->rc(mpq_class(n))))); } break; }
        case Instruction::ICmp: { auto pr=cast<ICmpInst>(x.I)->getPredicate(); Type*ot=x.I->getOperand(0)->getType(); if(tk(ot)==T_AGG){ V r; r.t=3; unsigned n=aggN(ot); r.a=newAgg(n); const V&p=val(x.o[0]),&q=val(x.o[1]); for(unsigned i=0;i<n;i++) (*r.a)[i]=icmpV(pr,(*p.a)[i],(*q.a)[i],twidth(aggT(ot,i))); R[x.dst]=r; } else R[x.dst]=icmpV(pr,val(x.o[0]),val(x.o[1]),twidth(ot)); break; }
        case Instruction::FCmp: { auto pr=cast<FCmpInst>(x.I)->getPredicate(); Type*ot=x.I->getOperand(0)->getType(); if(tk(ot)==T_AGG){ V r; r.t=3; unsigned n=aggN(ot); r.a=newAgg(n); const V&p=val(x.o[0]),&q=val(x.o[1]); for(unsigned i=0;i<n;i++) (*r.a)[i]=VE(fcmpE(pr,asR((*p.a)[i]),asR((*q.a)[i]))); R[x.dst]=r; } else R[x.dst]=VE(fcmpE(pr,asR(val(x.o[0])),asR(val(x.o[1])))); break; }
        case Instruction::Select: { const V&c=val(x.o[0]); if(c.t==3){ const V&p=val(x.o[1]),&q=val(x.o[2]); V r; r.t=3; unsigned n=aggN(x.ty); r.a=newAgg(n); for(unsigned i=0;i<n;i++) (*r.a)[i]=selectV(asE((*c.a)[i],1),(*p.a)[i],(*q.a)[i],aggT(x.ty,i)); R[x.dst]=r; } else if(c.t==1) R[x.dst]=(c.c&1)?val(x.o[1]):val(x.o[2]); else R[x.dst]=selectV(asE(c,1),val(x.o[1]),val(x.o[2]),x.ty); break; }
        case Instruction::Alloca: { uint64_t n=1; const V&c=val(x.o[0]); n=c.t==1?c.c:concretize(asE(c,64),"alloca"); uint64_t a=allocObj(x.aux*n,1,"stack"); als.v.push_back(P->objs.back()); R[x.dst]=VI(a); break; }
        case Instruction::Load: R[x.dst]=loadAny(val(x.o[0]),x.ty); break;
        case Instruction::Store: { Type*t=x.I->getOperand(0)->getType(); uint64_t a=addrOf(val(x.o[1]),"store address"); V v=val(x.o[0]); storeV(a,v,t); break; }
        case Instruction::GetElementPtr: { const V&b=val(x.o[0]); if(b.t==3||(x.ty->isVectorTy())) throw Unsupported{"vector gep"}; bool conc=b.t==1; uint64_t a=b.c+x.aux; for(size_t i=0;i<x.gi.size()&&conc;i++){ const V&iv=val(x.gi[i].first); if(iv.t!=1){conc=false;break;} a+=(uint64_t)(sx64(iv.c,x.o[1+i])*x.gi[i].second); } if(conc){ R[x.dst]=VI(a); break; }
          if(b.t==0){ R[x.dst]=V(); break; }
          E*e=C->add(asE(b,64),C->bv(x.aux,64)); for(size_t i=0;i<x.gi.size();i++){ E*ie=asE(val(x.gi[i].first),x.o[1+i]); if(ie->w<64) ie=C->sext(ie,64); e=C->add(e,C->mul(ie,C->bv((uint64_t)x.gi[i].second,64))); } R[x.dst]=VE(e); break; }
        case Instruction::Trunc: { auto f=[](Type*t,const V&p)->V{ if(p.t==1) return VI(p.c&maskw(twidth(t))); if(p.t==0) return V(); return VE(C->extract(p.e,0,twidth(t))); }; if(x.w) R[x.dst]=f(x.ty,val(x.o[0])); else R[x.dst]=vecmap(x.ty,val(x.o[0]),V(),[&](Type*t,const V&p,const V&)->V{return f(t,p);}); break; }
        case Instruction::ZExt: { Type*st=x.I->getOperand(0)->getType(); auto f=[](Type*t,Type*s,const V&p)->V{ if(p.t==1){ return VI(p.c&maskw(twidth(s))); } if(p.t==0) return VE(C->zext(asE(p,twidth(s)),twidth(t))); if(twidth(t)>64) throw Unsupported{"zext128"}; return VE(C->zext(p.e,twidth(t))); }; if(x.w) R[x.dst]=f(x.ty,st,val(x.o[0])); else { Type*se=cast<VectorType>(st)->getElementType(); R[x.dst]=vecmap(x.ty,val(x.o[0]),V(),[&](Type*t,const V&p,const V&)->V{return f(t,se,p);}); } break; }
        case Instruction::SExt: { Type*st=x.I->getOperand(0)->getType(); auto f=[](Type*t,Type*s,const V&p)->V{ int w=twidth(t); if(p.t==1){ int64_t v=sx64(p.c,twidth(s)); V r=VI((uint64_t)v&maskw(w)); if(w>64) r.hi=v<0?~0ull:0; return r; } if(w>64) throw Unsupported{"sext128"}; if(P->fsel>=2&&w>=16&&twidth(s)==1){ E*c=asE(p,1); { bool d=decide(c); return VI(d?maskw(w):0); } } return VE(C->sext(asE(p,twidth(s)),w)); }; if(x.w) R[x.dst]=f(x.ty,st,val(x.o[0])); else { Type*se=cast<VectorType>(st)->getElementType(); R[x.dst]=vecmap(x.ty,val(x.o[0]),V(),[&](Type*t,const V&p,const V&)->V{return f(t,se,p);}); } break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: { const V&p=val(x.o[0]); int sw=twidth(x.I->getOperand(0)->getType()); if(p.t==1) R[x.dst]=VI(p.c&maskw(x.w)); else if(p.t==0) R[x.dst]=V(); else R[x.dst]=VE(x.w<sw?C->extract(p.e,0,x.w):C->zext(p.e,x.w)); break; }
        case Instruction::BitCast: { Type*st=x.I->getOperand(0)->getType(); const V&p=val(x.o[0]); TK a=tk(st),b=tk(x.ty); if(a==b&&a!=T_AGG) R[x.dst]=p; else { uint64_t m=allocObj(DL->getTypeAllocSize(st),1,"bc"); Obj*o=P->objs.back(); storeV(m,p,st); V r=loadV(m,x.ty); o->alive=false; R[x.dst]=r; } break; }
        case Instruction::FPExt: R[x.dst]=val(x.o[0]); break;
        case Instruction::FPTrunc: R[x.dst]=val(x.o[0]); break;
        case Instruction::SIToFP: case Instruction::UIToFP: { bool sg=x.op==Instruction::SIToFP; Type*st=x.I->getOperand(0)->getType(); auto f=[&](Type*s,const V&p)->V{ int sw=twidth(s); E*e=asE(p,sw); if(sw==1){ if(P->fsel>=2&&e->k!=KC) e=C->bv(decide(e)?1:0,1); e=sg?C->sext(e,8):C->zext(e,8); sw=8; } if(e->k==RBITS) throw Unsupported{"bits to fp"}; return VE(sg?C->i2r(e):C->u2r(e)); }; if(x.real) R[x.dst]=f(st,val(x.o[0])); else { Type*se=cast<VectorType>(st)->getElementType(); R[x.dst]=vecmap(x.ty,val(x.o[0]),V(),[&](Type*,const V&p,const V&)->V{return f(se,p);}); } break; }
        case Instruction::FPToSI: case Instruction::FPToUI: { auto f=[&](Type*t,const V&p)->V{ int w=twidth(t); E*e=asR(p); if(e->k==RC&&P->ieee){ bool ok; double dd=exactDouble(e,ok); mpz_class z((long)dd); return VI((uint64_t)z.get_si()&maskw(w)); } if(e->k==I2R){ E*b=e->a[0]; return VE(b->w>=w?C->extract(b,0,w):C->sext(b,w)); } if(e->k==RADD&&e->a[0]->k==I2R&&Ctx::isR(e->a[1])&&e->a[1]->q->get_den()==1){ E*b=e->a[0]->a[0]; b=b->w>=w?C->extract(b,0,w):C->sext(b,w); return VE(C->add(b,C->bv((uint64_t)e->a[1]->q->get_num().get_si(),w))); } if(e->k==RITE){ bool c=decide(e->a[0]); e=c?e->a[1]:e->a[2]; } mpz_class z=realInt(e,0); return VI((uint64_t)z.get_si()&maskw(w)); }; if(x.w) R[x.dst]=f(x.ty,val(x.o[0])); else R[x.dst]=vecmap(x.ty,val(x.o[0]),V(),[&](Type*t,const V&p,const V&)->V{return f(t,p);}); break; }
        case Instruction::ExtractValue: { V v=val(x.o[0]); for(unsigned i:cast<ExtractValueInst>(x.I)->indices()){ if(v.t!=3){v=V();break;} V u=(*v.a)[i]; v=u; } R[x.dst]=v; break; }
        case Instruction::InsertValue: { auto*iv=cast<InsertValueInst>(x.I); std::function<V(const V&,Type*,unsigned)> ins=[&](const V&v,Type*t,unsigned k)->V{ if(k==iv->getNumIndices()) return val(x.o[1]); V r; r.t=3; r.a=newAgg(aggN(t)); if(v.t==3) *r.a=*v.a; unsigned ix=iv->getIndices()[k]; V inner=(*r.a)[ix]; (*r.a)[ix]=ins(inner,aggT(t,ix),k+1); return r; }; V base=val(x.o[0]); R[x.dst]=ins(base,x.ty,0); break; }
        case Instruction::ExtractElement: { const V&v=val(x.o[0]); const V&i=val(x.o[1]); uint64_t k=i.t==1?i.c:concretize(asE(i,64),"vec index"); R[x.dst]=v.t==3&&k<v.a->size()?(*v.a)[k]:V(); break; }
        case Instruction::InsertElement: { V r; r.t=3; r.a=newAgg(aggN(x.ty)); const V&v=val(x.o[0]); if(v.t==3)*r.a=*v.a; const V&i=val(x.o[2]); (*r.a)[i.c]=val(x.o[1]); R[x.dst]=r; break; }
        case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(x.I); const V&p=val(x.o[0]),&q=val(x.o[1]); unsigned n=aggN(sv->getOperand(0)->getType()); V r; r.t=3; auto mask=sv->getShuffleMask(); r.a=newAgg(mask.size()); for(size_t i=0;i<mask.size();i++){ int k=mask[i]; if(k<0) continue; (*r.a)[i]=(unsigned)k<n?(p.t==3?(*p.a)[k]:V()):(q.t==3?(*q.a)[k-n]:V()); } R[x.dst]=r; break; }
        case Instruction::Freeze: { V v=val(x.o[0]); if(v.t==0&&tk(x.ty)!=T_AGG) v=VE(freshUndef(x.ty)); R[x.dst]=v; break; }
        case Instruction::Call: case Instruction::Invoke: {
          std::vector<V> args2; args2.reserve(x.o.size()); for(int o:x.o) args2.push_back(val(o)); Function*F=x.callee; auto*cb=cast<CallBase>(x.I);
          if(!F){ if(cb->isInlineAsm()) { if(x.dst>=0) throw Unsupported{"inline asm"}; break; } const V&fp=val((int)(int64_t)x.aux); uint64_t a=fp.t==1?fp.c:addrOf(fp,"call target"); auto it=fbyaddr.find(a); if(it==fbyaddr.end()) failPath("call of an invalid function pointer"); F=it->second; }
          try { V r=callFunction(F,args2,cb); if(x.dst>=0) R[x.dst]=r; if(x.op==Instruction::Invoke) next=x.b0; }
          catch(SxThrow&t){ if(x.op!=Instruction::Invoke) throw; V r; r.t=3; r.a=newAgg(2); (*r.a)[0]=VI(t.obj); (*r.a)[1]=VI(0); P->excInfo[t.obj]=t; excv=r; next=x.b1; }
          break; }
        case Instruction::LandingPad: { auto*lp=cast<LandingPadInst>(x.I); uint64_t ob=(*excv.a)[0].c; SxThrow&t=P->excInfo[ob]; uint64_t sel=0; bool any=lp->isCleanup(); for(unsigned i=0;i<lp->getNumClauses();i++){ if(!lp->isCatch(i)) continue; V cv; try{ cv=constV(cast<Constant>(lp->getClause(i))); }catch(Unsupported&){ continue; } if(cv.c==0||(t.type&&typeinfoMatch(t.type,cv.c))||(!t.type&&lp->getClause(i)->getName().starts_with("_ZTISt"))){ sel=cv.c?cv.c&0x7fffffff:1; any=true; break; } }
          if(!any) { SxThrow tt=t; throw tt; } V r; r.t=3; r.a=newAgg(2); (*r.a)[0]=VI(ob); (*r.a)[1]=VI(sel); R[x.dst]=r; break; }
        case Instruction::Resume: { const V&v=val(x.o[0]); SxThrow t=P->excInfo[(*v.a)[0].c]; throw t; }
        case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(x.I); uint64_t a=addrOf(val(x.o[0]),"atomic"); V old=loadV(a,x.ty); const V&v=val(x.o[1]); V nv; switch(rm->getOperation()){ case AtomicRMWInst::Add: nv=binop(Instruction::Add,old,v,x.w,x.I);break; case AtomicRMWInst::Sub: nv=binop(Instruction::Sub,old,v,x.w,x.I);break; case AtomicRMWInst::Xchg: nv=v;break; case AtomicRMWInst::Or: nv=binop(Instruction::Or,old,v,x.w,x.I);break; case AtomicRMWInst::And: nv=binop(Instruction::And,old,v,x.w,x.I);break; default: throw Unsupported{"atomicrmw"}; } storeV(a,nv,x.ty); R[x.dst]=old; break; }
        case Instruction::AtomicCmpXchg: { uint64_t a=addrOf(val(x.o[0]),"atomic"); Type*t=x.I->getOperand(1)->getType(); V old=loadV(a,t); V eq=icmpV(CmpInst::ICMP_EQ,old,val(x.o[1]),twidth(t)); bool s=eq.t==1?eq.c:decide(eq.e); if(s) storeV(a,val(x.o[2]),t); V r; r.t=3; r.a=newAgg(2); (*r.a)[0]=old; (*r.a)[1]=VI(s); R[x.dst]=r; break; }
        case Instruction::Fence: break;
        default: throw Unsupported{str("instruction ")+x.I->getOpcodeName()};
      }
      if(next>=0) break;
    }
    pred=bb; bb=next; if(bb<0) throw Unsupported{"fallthrough"};
  } }
static V callFunction(Function*F,std::vector<V>&args,CallBase*cb){
  if(F->isIntrinsic()) return intrinsic(F,args,cb);
  V ret; str nm=F->getName().str();
  if(F->isDeclaration()||nm.compare(0,3,"sx_")==0){ if(ext(nm,F,args,ret,cb)) return ret; if(F->isDeclaration()) throw PathEnd{1,"external "+nm}; }
  used.insert(F);
  // by-value aggregates (byval) need a private copy
  for(unsigned i=0;i<args.size()&&i<F->arg_size();i++) if(F->getArg(i)->hasByValAttr()){ uint64_t n=DL->getTypeAllocSize(F->getArg(i)->getParamByValType()); uint64_t a=allocObj(n,1,"byval"); copyBytes(a,addrOf(args[i],"byval"),n); args[i]=VI(a); }
  return execFn(decode(F),args); }
static V intrinsic(Function*F,std::vector<V>&a,CallBase*cb){
  Type*ty=F->getReturnType(); int w=twidth(ty);
  auto lift=[&](std::function<E*(E*,E*)> f)->V{ if(tk(ty)==T_AGG){ V r; r.t=3; unsigned n=aggN(ty); r.a=newAgg(n); for(unsigned i=0;i<n;i++) (*r.a)[i]=VE(f(asR((*a[0].a)[i]),a.size()>1&&a[1].t==3?asR((*a[1].a)[i]):nullptr)); return r; } return VE(f(asR(a[0]),a.size()>1&&a[1].t==2?asR(a[1]):nullptr)); };
  switch(F->getIntrinsicID()){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n=a[2].t==1?a[2].c:concretize(asE(a[2],twidth(F->getArg(2)->getType())),"memcpy length"); if(n) copyBytes(addrOf(a[0],"memcpy"),addrOf(a[1],"memcpy"),n); return V(); }
    case Intrinsic::memset: { uint64_t n=a[2].t==1?a[2].c:concretize(asE(a[2],twidth(F->getArg(2)->getType())),"memset length"); if(!n) return V(); uint64_t d=addrOf(a[0],"memset"); Obj*o=access(d,n,true); uint64_t off=d-o->addr; if(a[1].t==1){ memset(&o->data[off],(int)a[1].c,n); memset(&o->st[off],1,n); } else if(a[1].t==0) memset(&o->st[off],0,n); else for(uint64_t i=0;i<n;i++) setSym(o,off+i,a[1].e,0); return V(); }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return V();
    case Intrinsic::stacksave: return VI(0x999000);
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return a[0];
    case Intrinsic::is_constant: return VI(0); case Intrinsic::objectsize: return VI(~0ull);
    case Intrinsic::trap: failPath("trap");
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { auto id=F->getIntrinsicID(); auto f=[&](const V&p,const V&q,int w)->V{ E*x=asE(p,w),*y=asE(q,w); E*c=(id==Intrinsic::umax||id==Intrinsic::umin)?C->ult(x,y):C->slt(x,y); if(id==Intrinsic::umin||id==Intrinsic::smin) return VE(C->ite(c,x,y)); return VE(C->ite(c,y,x)); }; if(w) return f(a[0],a[1],w); return vecmap(ty,a[0],a[1],[&](Type*t,const V&p,const V&q){return f(p,q,twidth(t));}); }
    case Intrinsic::abs: { auto f=[&](const V&p,int w)->V{ E*x=asE(p,w); return VE(C->ite(C->slt(x,C->bv(0,w)),C->sub(C->bv(0,w),x),x)); }; if(w) return f(a[0],w); return vecmap(ty,a[0],a[0],[&](Type*t,const V&p,const V&){return f(p,twidth(t));}); }
    case Intrinsic::ctpop: { E*x=asE(a[0],w); E*r=C->bv(0,w); for(int i=0;i<w;i++) r=C->add(r,C->zext(C->extract(x,i,1),w)); return VE(r); }
    case Intrinsic::ctlz: { E*x=asE(a[0],w); if(x->k==KC){ int n=0; for(int i=w-1;i>=0&&!((x->c>>i)&1);i--) n++; return VI(n); } E*r=C->bv(w,w); for(int i=0;i<w;i++) r=C->ite(C->extract(x,i,1),C->bv(w-1-i,w),r); return VE(r); }
    case Intrinsic::cttz: { E*x=asE(a[0],w); if(x->k==KC){ int n=0; for(int i=0;i<w&&!((x->c>>i)&1);i++) n++; return VI(n); } E*r=C->bv(w,w); for(int i=w-1;i>=0;i--) r=C->ite(C->extract(x,i,1),C->bv(i,w),r); return VE(r); }
    case Intrinsic::bswap: { E*x=asE(a[0],w); E*r=nullptr; for(int i=0;i<w/8;i++){ E*b=C->extract(x,i*8,8); r=r?C->concat(r,b):b; } return VE(r); }
    case Intrinsic::bitreverse: { E*x=asE(a[0],w); E*r=nullptr; for(int i=0;i<w;i++){ E*b=C->extract(x,i,1); r=r?C->concat(r,b):b; } return VE(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { E*x=asE(a[0],w),*y=asE(a[1],w),*s=asE(a[2],w); s=C->bin(KUREM,s,C->bv(w,w)); E*inv=C->sub(C->bv(w,w),s); E*z=C->eq(s,C->bv(0,w)); if(F->getIntrinsicID()==Intrinsic::fshl) return VE(C->ite(z,x,C->or_(C->bin(KSHL,x,s),C->bin(KLSHR,y,inv)))); return VE(C->ite(z,y,C->or_(C->bin(KSHL,x,inv),C->bin(KLSHR,y,s)))); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: { int ww=twidth(aggT(ty,0)); V r; r.t=3; r.a=newAgg(2); auto id=F->getIntrinsicID(); E*x,*y; if(a[0].t==1&&a[1].t==1){ __int128 p,q,z; bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; if(sg){p=sx64(a[0].c,ww);q=sx64(a[1].c,ww);} else {p=a[0].c;q=a[1].c;} if(id==Intrinsic::sadd_with_overflow||id==Intrinsic::uadd_with_overflow) z=p+q; else if(id==Intrinsic::ssub_with_overflow||id==Intrinsic::usub_with_overflow) z=p-q; else z=(ww==64&&!sg)?(__int128)((unsigned __int128)p*(unsigned __int128)q):p*q; uint64_t lo=(uint64_t)z&maskw(ww); bool ov=sg?(z!=(__int128)sx64(lo,ww)):((unsigned __int128)z!=lo); (*r.a)[0]=VI(lo); (*r.a)[1]=VI(ov); return r; }
      x=asE(a[0],ww);y=asE(a[1],ww);
      if(id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow){ if((unsigned __int128)x->umax*y->umax<=maskw(ww)>>1){ (*r.a)[0]=VE(C->mul(x,y)); (*r.a)[1]=VI(0); return r; } uint64_t cx=concretize(x,"mul overflow"),cy=concretize(y,"mul overflow"); std::vector<V> b{VI(cx),VI(cy)}; return intrinsic(F,b,cb); }
      E*s; E*ov; if(id==Intrinsic::uadd_with_overflow){ s=C->add(x,y); ov=C->ult(s,x);} else if(id==Intrinsic::usub_with_overflow){ s=C->sub(x,y); ov=C->ult(x,y);} else if(id==Intrinsic::sadd_with_overflow){ s=C->add(x,y); E*z=C->bv(0,ww); ov=C->ite(C->slt(y,z),C->slt(x,s),C->slt(s,x)); } else { s=C->sub(x,y); E*z=C->bv(0,ww); ov=C->ite(C->slt(y,z),C->slt(s,x),C->slt(x,s)); } (*r.a)[0]=VE(s); (*r.a)[1]=VE(ov); return r; }
    case Intrinsic::usub_sat: { E*x=asE(a[0],w),*y=asE(a[1],w); return VE(C->ite(C->ult(x,y),C->bv(0,w),C->sub(x,y))); }
    case Intrinsic::uadd_sat: { E*x=asE(a[0],w),*y=asE(a[1],w); E*s=C->add(x,y); return VE(C->ite(C->ult(s,x),C->bv(maskw(w),w),s)); }
    case Intrinsic::fabs: return lift([](E*x,E*){return fabsX(x);});
    case Intrinsic::sqrt: return lift([](E*x,E*){return sqrtX(x);});
    case Intrinsic::sin: return lift([](E*x,E*){return funX(F_SIN,x);}); case Intrinsic::cos: return lift([](E*x,E*){return funX(F_COS,x);});
    case Intrinsic::exp: return lift([](E*x,E*){return funX(F_EXP,x);}); case Intrinsic::log: return lift([](E*x,E*){return funX(F_LOG,x);});
    case Intrinsic::exp2: return lift([](E*x,E*){ if(x->k==RC) return realFromDouble(exp2(toD(*x->q))); throw Unsupported{"exp2"}; }); case Intrinsic::log2: return lift([](E*x,E*)->E*{ if(x->k==RC) return realFromDouble(log2(toD(*x->q))); throw Unsupported{"log2"}; });
    case Intrinsic::pow: return lift([](E*x,E*y){return funX(F_POW,x,y);});
    case Intrinsic::powi: { long n=(int)a[1].c; return VE(funX(F_POW,asR(a[0]),C->rc(mpq_class(n)))); }
    case Intrinsic::floor: return lift([](E*x,E*)->E*{ if(x->k==I2R) return x; return C->rc(mpq_class(realInt(x,1)));}); case Intrinsic::ceil: return lift([](E*x,E*)->E*{ if(x->k==I2R) return x; return C->rc(mpq_class(realInt(x,2)));}); case Intrinsic::trunc: return lift([](E*x,E*)->E*{ if(x->k==I2R) return x; return C->rc(mpq_class(realInt(x,0)));});
    case Intrinsic::round: return lift([](E*x,E*)->E*{ if(x->k==I2R) return x; bool ng=decide(C->rlt(x,C->R0)); E*h=C->rc(mpq_class(1,2)); return C->rc(mpq_class(ng?realInt(C->rsub(x,h),2):realInt(C->radd(x,h),1)));});
    case Intrinsic::copysign: return lift([](E*x,E*y)->E*{ E*ax=fabsX(x); if(y->k==RC) return *y->q<0?C->rneg(ax):ax; if(Ctx::isSp(y)) return y==C->NINF?C->rneg(ax):ax; return decide(C->rlt(y,C->R0))?C->rneg(ax):ax; });
    case Intrinsic::minnum: case Intrinsic::minimum: return lift([](E*x,E*y)->E*{ if(x==C->NAN_)return y; if(y==C->NAN_) return x; return selR(C->rlt(y,x),y,x);}); case Intrinsic::maxnum: case Intrinsic::maximum: return lift([](E*x,E*y)->E*{ if(x==C->NAN_)return y; if(y==C->NAN_) return x; return selR(C->rlt(x,y),y,x);});
    case Intrinsic::fma: case Intrinsic::fmuladd: { if(tk(ty)==T_AGG) throw Unsupported{"vector fma"}; return VE(ieeeRound(C->radd(rmulX(asR(a[0]),asR(a[1])),asR(a[2])))); }
    case Intrinsic::is_fpclass: { E*x=asR(a[0]); uint64_t m=a[1].c; bool r=false; if(x==C->NAN_) r=m&3; else if(x==C->INF) r=m&512; else if(x==C->NINF) r=m&4; else if(x->k==RC){ int s=sgn(*x->q); r= s==0? (m&96): s>0?(m&256):(m&8); } else { uint64_t fin=m&(8|16|32|64|128|256); if(fin==0) r=false; else if(fin==(8|16|32|64|128|256)) r=true; else throw Unsupported{"fpclass"}; } return VI(r); }
    case Intrinsic::eh_typeid_for: return VI(a[0].c&0x7fffffff);
    case Intrinsic::vector_reduce_add: { V r=(*a[0].a)[0]; for(size_t i=1;i<a[0].a->size();i++) r=binop(Instruction::Add,r,(*a[0].a)[i],w,nullptr); return r; }
    case Intrinsic::vector_reduce_or: { V r=(*a[0].a)[0]; for(size_t i=1;i<a[0].a->size();i++) r=binop(Instruction::Or,r,(*a[0].a)[i],w,nullptr); return r; }
    case Intrinsic::vector_reduce_and: { V r=(*a[0].a)[0]; for(size_t i=1;i<a[0].a->size();i++) r=binop(Instruction::And,r,(*a[0].a)[i],w,nullptr); return r; }
    case Intrinsic::vector_reduce_fadd: { E*r=asR(a[0]); for(auto&v:*a[1].a) r=C->radd(r,asR(v)); return VE(r); }
    case Intrinsic::vastart: case Intrinsic::vaend: return V();
    default: throw PathEnd{1,"intrinsic "+F->getName().str()}; } }

#include "externals.h"
