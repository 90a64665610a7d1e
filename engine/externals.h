#pragma once
static str cstr(const V&v){ uint64_t a=addrOf(v,"string"); str s; while(true){ Obj*o=access(a,1,false); uint64_t f=a-o->addr; if(o->st[f]!=1) throw Unsupported{"symbolic C string"}; char c=o->data[f]; if(!c) break; s+=c; a++; if(s.size()>4096) break; } return s; }
static str uniq(const str&n){ int k=P->cnt[n]++; return k?n+"#"+std::to_string(k):n; }
static E* boundedInt(const str&n,long lo,long hi,int w){ uint64_t span=(uint64_t)(hi-lo); if(span==0) return C->bv((uint64_t)lo,w); int nb=64-__builtin_clzll(span); E*v=C->var(n+"_"+std::to_string(lo)+"_"+std::to_string(hi),false,nb); if(span!=maskw(nb)) { E*c=C->ule(v,C->bv(span,nb)); addPc(c); } E*z=C->zext(v,w); if(z->umax>span){ } return C->add(z,C->bv((uint64_t)lo,w)); }
static V throwStd(const char*name){ uint64_t o=allocObj(64,2,"exception"); SxThrow t{o,0,name}; throw t; }
typedef std::function<V(std::vector<V>&)> H;
static std::unordered_map<str,H> HT;
static long argI(const V&v,int w,const char*why){ return sx64(v.t==1?v.c:concretize(asE(v,w),why),w); }
static void freeObj(const V&p){ uint64_t a=addrOf(p,"free"); if(!a) return; Obj*o=findObj(a); if(!o||o->addr!=a||o->kind!=2) failPath("free of an invalid pointer"); if(!o->alive) failPath("double free"); o->alive=false; }
static V mallocV(const V&n,bool zero=false){ uint64_t s=n.t==1?n.c:concretize(asE(n,64),"allocation size"); uint64_t a=allocObj(s,2,"heap"); if(zero){ Obj*o=P->objs.back(); memset(o->st.data(),1,s); } return VI(a); }
static void coSwitch(int id){ // suspend the running coroutine, continue coroutine id (0: the entry function)
  if(id==P->coCur) return; if(id<0||id>=(int)P->cos.size()||P->cos[id]->done) failPath("switch to a finished thread");
  Co*a=P->cos[P->coCur],*b=P->cos[id]; a->cstack.swap(P->cstack); a->depth=P->depth; a->caught.swap(P->caught); P->coCur=id; P->cstack=b->cstack; P->depth=b->depth; P->caught=b->caught;
  swapcontext(&a->ctx,&b->ctx);
  if(P->coCur==0&&P->coErr){ auto e=P->coErr; P->coErr=nullptr; std::rethrow_exception(e); } }
static void coEntry(){ { Co*c=P->cos[P->coCur]; try { uint64_t f=addrOf(c->fn,"thread function"); auto it=fbyaddr.find(f); if(it==fbyaddr.end()) failPath("call of an invalid function pointer"); std::vector<V> a{c->arg}; callFunction(it->second,a,nullptr); } catch(...){ P->coErr=std::current_exception(); }
  c->done=true; Co*m=P->cos[0]; P->coCur=0; P->cstack=m->cstack; P->depth=m->depth; P->caught=m->caught; }
  setcontext(&P->cos[0]->ctx); }
static void setupHandlers(){
  auto h=[&](const char*n,H f){ HT[n]=f; };
  h("sx_real",[](std::vector<V>&a){ str n=uniq(cstr(a[0])); E*e=C->var(n,true,0); P->inputs.push_back({n,'r',e,0}); return VE(e); });
  h("sx_real_in",[](std::vector<V>&a){ str n=uniq(cstr(a[0])); E*lo=asR(a[1]),*hi=asR(a[2]); str key=n; if(lo->k==RC) key+="_L"+lo->q->get_str(); if(hi->k==RC) key+="_H"+hi->q->get_str(); E*e=C->var(key,true,0); auto&vi=C->vars[e->c]; if(lo->k==RC){vi.haslo=true;vi.lo=*lo->q; addPc(C->raw(RLE,0,1,0,lo,e)); } if(hi->k==RC){vi.hashi=true;vi.hi=*hi->q; addPc(C->raw(RLE,0,1,0,e,hi)); } P->inputs.push_back({n,'r',e,0}); return VE(e); });
  h("sx_grid",[](std::vector<V>&a){ str n=uniq(cstr(a[0])); long lo=argI(a[1],32,"range"),hi=argI(a[2],32,"range"); E*b=boundedInt(n,lo,hi,32); P->inputs.push_back({n,'i',b,0}); return VE(C->i2r(b)); });
  h("sx_int",[](std::vector<V>&a){ str n=uniq(cstr(a[0])); long lo=argI(a[1],32,"range"),hi=argI(a[2],32,"range"); E*b=boundedInt(n,lo,hi,32); P->inputs.push_back({n,'i',b,0}); return VE(b); });
  h("sx_bits",[](std::vector<V>&a){ str n=uniq(cstr(a[0])); int w=argI(a[1],32,"width"); E*v=C->var(n+"_w"+std::to_string(w),false,w); P->inputs.push_back({n,'u',v,0}); return VE(C->zext(v,64)); });
  h("sx_choose",[](std::vector<V>&a){ str n=uniq(cstr(a[0])); long k=chooseN(argI(a[1],32,"n")); P->inputs.push_back({n,'c',nullptr,k}); return VI((uint32_t)k); });
  h("sx_assume",[](std::vector<V>&a){ E*c=asE(a[0],1); if(c->w!=1) c=C->notE(C->eq(c,C->bv(0,c->w))); addPc(c); if(!P->mv){ /* prune early */ ensureModel(); } return V(); });
  h("sx_check_",[](std::vector<V>&a){ E*c=asE(a[0],1); obligation(c,cstr(a[1])); return V(); });
  h("sx_eq",[](std::vector<V>&a){ obligationEq(asR(a[0]),asR(a[1]),cstr(a[2])); return V(); });
  h("sx_le",[](std::vector<V>&a){ obligation(C->rle(asR(a[0]),asR(a[1])),cstr(a[2])); return V(); });
  h("sx_lt",[](std::vector<V>&a){ obligation(C->rlt(asR(a[0]),asR(a[1])),cstr(a[2])); return V(); });
  h("sx_at",[](std::vector<V>&a){ E*y=asR(a[0]),*x=asR(a[1]),*v=asR(a[2]); if(x->k!=RVAR) throw Unsupported{"substitution of a non-variable"}; if(Ctx::isSp(y)) throw Unsupported{"substitution in inf"}; E*d=PE->subst(y,x,v); P->derivs.push_back(d); return VE(d); });
  h("sx_d",[](std::vector<V>&a){ E*y=asR(a[0]),*x=asR(a[1]); if(x->k!=RVAR) throw Unsupported{"derivative w.r.t. non-variable"}; if(Ctx::isSp(y)) throw Unsupported{"derivative of inf"}; E*d=PE->diff(y,x); P->derivs.push_back(d); return VE(d); });
  h("sx_reach",[](std::vector<V>&a){ P->reach[cstr(a[0])]++; return V(); });
  h("sx_observe",[](std::vector<V>&a){ P->obs.push_back({cstr(a[0]),VE(asR(a[1]))}); P->obsReal.push_back(1); return V(); });
  h("sx_observe_i",[](std::vector<V>&a){ V v=a[1]; if(v.t==0) v=VE(asE(v,64)); P->obs.push_back({cstr(a[0]),v}); P->obsReal.push_back(0); return V(); });
  h("sx_concrete",[](std::vector<V>&a){ return VI(a[0].t==1?a[0].c:concretize(asE(a[0],32),"sx_concrete")); });
  h("sx_fork",[](std::vector<V>&a){ return VI(a[0].t==1?(a[0].c&1):(uint64_t)decide(asE(a[0],1))); });
  h("sx_is_true",[](std::vector<V>&a){ E*c=asE(a[0],1); return VI(c==C->T||P->pcs.count(c)); });
  h("sx_co_new",[](std::vector<V>&a){ if(P->cos.empty()) P->cos.push_back(new Co); Co*c=new Co; c->sz=16u<<20; c->stk=mmap(nullptr,c->sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(c->stk==MAP_FAILED) throw PathEnd{2,"coroutine stack"}; c->fn=a[0]; c->arg=a[1]; getcontext(&c->ctx); c->ctx.uc_stack.ss_sp=c->stk; c->ctx.uc_stack.ss_size=c->sz; c->ctx.uc_link=nullptr; makecontext(&c->ctx,coEntry,0); P->cos.push_back(c); return VI((uint32_t)(P->cos.size()-1)); });
  h("sx_co_switch",[](std::vector<V>&a){ int id=(int)argI(a[0],32,"thread"); coSwitch(id); return V(); });
  h("sx_native",[](std::vector<V>&){ return VI(0); });
  h("sx_note",[](std::vector<V>&){ return V(); });
  h("sx_opt",[](std::vector<V>&a){ str k=cstr(a[0]); long v=argI(a[1],32,"opt"); P->opt[k]=v; if(k=="fork_select")P->fsel=v; else if(k=="max_steps")P->maxSteps=v; else if(k=="check_ms")P->tmoCheck=v; else if(k=="branch_ms")P->tmoBranch=v; else if(k=="div0")P->div0=v; else if(k=="max_ite")P->maxIte=v; else if(k=="ieee")P->ieee=v; else if(k=="budget_s"){ Lock l; auto&e=G->ent[P->entry]; if(e.deadline==0) e.deadline=nowS()+v; } return V(); });
  for(const char*n:{"malloc","_Znwm","_Znam"}) h(n,[](std::vector<V>&a){ return mallocV(a[0]); });
  for(const char*n:{"_ZnwmSt11align_val_t","_ZnamSt11align_val_t","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"}) h(n,[](std::vector<V>&a){ return mallocV(a[0]); });
  h("calloc",[](std::vector<V>&a){ V n=VI((uint64_t)argI(a[0],64,"calloc")*(uint64_t)argI(a[1],64,"calloc")); return mallocV(n,true); });
  h("realloc",[](std::vector<V>&a){ uint64_t p=addrOf(a[0],"realloc"); uint64_t n=argI(a[1],64,"realloc"); V r=mallocV(VI(n)); if(p){ Obj*o=findObj(p); if(!o) failPath("realloc of invalid pointer"); uint64_t k=std::min(n,o->size); if(k) copyBytes(r.c,p,k); freeObj(a[0]); } return r; });
  for(const char*n:{"free","_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t"}) h(n,[](std::vector<V>&a){ if(a[0].t==0) failPath("free of undefined pointer"); freeObj(a[0]); return V(); });
  h("__cxa_allocate_exception",[](std::vector<V>&a){ return VI(allocObj(argI(a[0],64,"exc")+64,2,"exception")); });
  h("__cxa_free_exception",[](std::vector<V>&a){ return V(); });
  h("__cxa_throw",[](std::vector<V>&a)->V{ SxThrow t{addrOf(a[0],"throw"),addrOf(a[1],"throw"),"user"}; throw t; });
  h("__cxa_begin_catch",[](std::vector<V>&a){ P->excStack.push_back(a[0].c); return a[0]; });
  h("__cxa_get_exception_ptr",[](std::vector<V>&a){ return a[0]; });
  h("__cxa_end_catch",[](std::vector<V>&a){ if(!P->excStack.empty())P->excStack.pop_back(); return V(); });
  h("__cxa_rethrow",[](std::vector<V>&a)->V{ SxThrow t=P->excInfo[P->excStack.back()]; throw t; });
  h("__cxa_guard_acquire",[](std::vector<V>&a){ uint64_t p=addrOf(a[0],"guard"); Obj*o=access(p,1,true); uint64_t f=p-o->addr; return VI(!(o->st[f]==1&&o->data[f])); });
  h("__cxa_guard_release",[](std::vector<V>&a){ uint64_t p=addrOf(a[0],"guard"); Obj*o=access(p,1,true); uint64_t f=p-o->addr; o->st[f]=1;o->data[f]=1; return V(); });
  h("__cxa_guard_abort",[](std::vector<V>&a){ return V(); });
  h("__cxa_atexit",[](std::vector<V>&a){ return VI(0); }); h("atexit",[](std::vector<V>&a){ return VI(0); });
  h("__cxa_pure_virtual",[](std::vector<V>&a)->V{ failPath("pure virtual call"); }); h("_ZSt9terminatev",[](std::vector<V>&a)->V{ failPath("std::terminate"); });
  h("__assert_fail",[](std::vector<V>&a)->V{ failPath("assertion failed: "+cstr(a[0])); });
  h("abort",[](std::vector<V>&a)->V{ failPath("abort"); }); h("exit",[](std::vector<V>&a)->V{ failPath("exit called"); }); h("_ZSt21__glibcxx_assert_failPKciS0_S0_",[](std::vector<V>&a)->V{ failPath("libstdc++ assertion"); });
  for(const char*n:{"_ZSt17__throw_bad_allocv","_ZSt20__throw_length_errorPKc","_ZSt24__throw_out_of_range_fmtPKcz","_ZSt28__throw_bad_array_new_lengthv","_ZSt19__throw_logic_errorPKc","_ZSt20__throw_out_of_rangePKc","_ZSt25__throw_bad_function_callv","_ZSt16__throw_bad_castv","_ZSt24__throw_invalid_argumentPKc","_ZSt21__throw_runtime_errorPKc","_ZSt20__throw_domain_errorPKc","_ZSt20__throw_system_errori"}) { str nn=n; h(n,[nn](std::vector<V>&a)->V{ return throwStd(nn.c_str()); }); }
  auto m1=[&](const char*n,Fun f){ auto g=[f](std::vector<V>&a){ return VE(funX(f,asR(a[0]))); }; HT[n]=g; HT[str(n)+"f"]=g; HT[str(n)+"l"]=g; };
  m1("sin",F_SIN);m1("cos",F_COS);m1("tan",F_TAN);m1("asin",F_ASIN);m1("acos",F_ACOS);m1("atan",F_ATAN);m1("exp",F_EXP);m1("log",F_LOG);m1("cbrt",F_CBRT);m1("sinh",F_SINH);m1("cosh",F_COSH);m1("tanh",F_TANH);
  for(const char*n:{"atan2","atan2f"}) h(n,[](std::vector<V>&a){ return VE(funX(F_ATAN2,asR(a[0]),asR(a[1]))); });
  for(const char*n:{"pow","powf","powl"}) h(n,[](std::vector<V>&a){ return VE(funX(F_POW,asR(a[0]),asR(a[1]))); });
  for(const char*n:{"sqrt","sqrtf","sqrtl"}) h(n,[](std::vector<V>&a){ return VE(sqrtX(asR(a[0]))); });
  for(const char*n:{"hypot","hypotf"}) h(n,[](std::vector<V>&a){ E*x=asR(a[0]),*y=asR(a[1]); return VE(sqrtX(C->radd(C->rmul(x,x),C->rmul(y,y)))); });
  for(const char*n:{"fabs","fabsf"}) h(n,[](std::vector<V>&a){ return VE(fabsX(asR(a[0]))); });
  for(const char*n:{"floor","floorf"}) h(n,[](std::vector<V>&a){ E*x=asR(a[0]); return x->k==I2R?VE(x):VE(C->rc(mpq_class(realInt(x,1)))); }); for(const char*n:{"ceil","ceilf"}) h(n,[](std::vector<V>&a){ E*x=asR(a[0]); return x->k==I2R?VE(x):VE(C->rc(mpq_class(realInt(x,2)))); });
  for(const char*n:{"fmod","fmodf"}) h(n,[](std::vector<V>&a){ E*x=asR(a[0]),*y=asR(a[1]); if(x->k==RC&&y->k==RC&&*y->q!=0){ mpq_class q=*x->q / *y->q; mpz_class t; mpz_tdiv_q(t.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return VE(C->rc(*x->q-*y->q*t)); } E*q=demand(x,y); mpz_class n=realInt(q,0); return VE(C->rsub(x,C->rmul(y,C->rc(mpq_class(n))))); });
  for(const char*n:{"ldexp","scalbn"}) h(n,[](std::vector<V>&a){ long k=argI(a[1],32,"ldexp"); mpz_class t=mpz_class(1)<<std::labs(k); return VE(C->rmul(asR(a[0]),k>=0?C->rc(mpq_class(t)):C->rc(mpq_class(mpz_class(1),t)))); });
  for(const char*n:{"log2","log10","log1p","expm1"}) { str nn=n; h(n,[nn](std::vector<V>&a){ E*x=asR(a[0]); if(x->k!=RC) throw Unsupported{nn}; double d=toD(*x->q); return VE(realFromDouble(nn=="log2"?log2(d):nn=="log10"?log10(d):nn=="log1p"?log1p(d):expm1(d))); }); }
  for(const char*n:{"printf","puts","putchar","fprintf","fwrite","fputs","fputc","putc","fflush","vprintf","vfprintf","perror","srand","usleep","fclose","setbuf"}) h(n,[](std::vector<V>&a){ return VI(1); });
  h("_ZNSt8ios_base4InitC1Ev",[](std::vector<V>&a){ return V(); }); h("_ZNSt8ios_base4InitD1Ev",[](std::vector<V>&a){ return V(); });
  h("__gxx_personality_v0",[](std::vector<V>&a){ return VI(0); });
  h("__dynamic_cast",[](std::vector<V>&a)->V{ throw Unsupported{"dynamic_cast"}; });
  h("time",[](std::vector<V>&a){ return VI(1000); }); h("clock",[](std::vector<V>&a){ return VI(1000); });
  h("rand",[](std::vector<V>&a)->V{ throw Unsupported{"rand"}; });
  h("_ZSt18_Rb_tree_dummy",[](std::vector<V>&a){ return V(); });
}
static bool ext(const str&nm,Function*F,std::vector<V>&a,V&ret,CallBase*cb){
  auto it=HT.find(nm); if(it!=HT.end()){ ret=it->second(a); return true; }
  // output streams: no observable effect on the properties
  if(nm.compare(0,4,"_ZNS")==0||nm.compare(0,4,"_ZSt")==0||nm.compare(0,5,"_ZNKS")==0){ 
    if(nm.find("basic_ostream")!=str::npos||nm.compare(0,5,"_ZNSo")==0||nm.find("__ostream_insert")!=str::npos||nm.find("_ZSt4endl")==0||nm.find("St9basic_ios")!=str::npos||nm.find("_ZSt5flush")==0){ if(!a.empty()&&F->getReturnType()->isPointerTy()) ret=a[0]; else if(F->getReturnType()->isIntegerTy()) ret=VI(0); return true; }
    if(nm.find("ctype")!=str::npos){ ret=VI(10); return true; }
    if(nm.find("St9exception")!=str::npos||nm.find("_errorC")!=str::npos||nm.find("_errorD")!=str::npos||nm.find("out_of_rangeC")!=str::npos||nm.find("invalid_argumentC")!=str::npos||nm.find("out_of_rangeD")!=str::npos||nm.find("invalid_argumentD")!=str::npos){ return true; } }
  return false; }

// ---------------- globals
static void layoutGlobals(){
  uint64_t fa=0x10000; for(auto&F:*M){ faddr[&F]=fa; fbyaddr[fa]=&F; fa+=16; }
  uint64_t a=0x10000000; for(auto&g:M->globals()){ uint64_t sz=0; if(g.getValueType()->isSized()) sz=DL->getTypeAllocSize(g.getValueType()); if(g.isDeclaration()) sz=std::max<uint64_t>(sz,512); gaddr[&g]=a; Obj*o=newObjAt(a,sz,0,g.getName().str()); o->shared=true; globalsProto.push_back(o); a=(a+sz+32+15)&~15ull; }
  size_t i=0; for(auto&g:M->globals()){ Obj*o=globalsProto[i++]; if(g.hasInitializer()) { // padding counts as zero
      std::fill(o->st.begin(),o->st.end(),isa<UndefValue>(g.getInitializer())?0:1); writeConst(o,0,g.getInitializer()); } }
  // fake stream objects
  gEnd=a; uint64_t vt=gEnd; Obj*vo=newObjAt(vt,256,0,"fake_vtable"); std::fill(vo->st.begin(),vo->st.end(),1); vo->shared=true; gEnd+=512; Obj*ct=newObjAt(gEnd,1024,0,"fake_ctype"); std::fill(ct->st.begin(),ct->st.end(),1); std::fill(ct->data.begin(),ct->data.end(),10); ct->shared=true; uint64_t cta=gEnd; gEnd+=2048; globalsProto.push_back(vo); globalsProto.push_back(ct);
  i=0; for(auto&g:M->globals()){ Obj*o=globalsProto[i++]; if(g.isDeclaration()){ str n=g.getName().str(); if(n=="_ZSt4cout"||n=="_ZSt4cerr"||n=="_ZSt4clog"){ std::fill(o->st.begin(),o->st.end(),1); uint64_t p=vt+64; memcpy(&o->data[0],&p,8); memcpy(&o->data[240],&cta,8); } else if(n.compare(0,4,"_ZTI")==0||n.compare(0,4,"_ZTV")==0||n=="stdout"||n=="stderr"||n=="stdin"){ std::fill(o->st.begin(),o->st.end(),1); } } }
  gEnd=(gEnd+0xfffff)&~0xfffffull; }
static std::vector<Function*> ctors;
static void findCtors(){ auto*g=M->getGlobalVariable("llvm.global_ctors"); if(!g||!g->hasInitializer())return; auto*ca=dyn_cast<ConstantArray>(g->getInitializer()); if(!ca)return; std::vector<std::pair<uint64_t,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o.get()); if(auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&x:v) ctors.push_back(x.second); }

// ---------------- path driver
static int witPer=3; static uint64_t witTick=0;
static void runPath(Item&it){
  Path p; P=&p; p.entry=it.entry; p.prefix=std::move(it.d); p.objs=globalsProto; p.bump=gEnd; p.t0=nowS(); auto&st=ST[p.entry];
  uint64_t v0=st.viol;
  try {
    try { for(auto*f:ctors){ std::vector<V> a; callFunction(f,a,nullptr); } std::vector<V> a; P->steps=0; callFunction(entries[p.entry],a,nullptr); }
    catch(SxThrow&t){ failPath("uncaught exception ("+t.stdname+")"); }
    catch(Unsupported&u){ throw PathEnd{1,u.why+" in "+(P->errWhere.empty()?str("?"):P->errWhere)}; }
    // completed
    ensureModel(); 
    st.paths++; for(auto&r:p.reach) st.reach[r.first]++;
    if(p.inexact) st.unkBranch++;
    if(p.mv&&st.viol==v0){ uint64_t tck=++witTick; if(st.wit<witPer||((tck&(tck-1))==0&&st.wit<witPer+6)){ st.wit++; emitCase("witness","",p.m); } }
    else if(!p.mv&&st.wit<witPer&&st.viol==v0){ Model sm; Res r=S->query(p.pc,&sm,3000); if(r==SAT){ bool ok=true; Eval ev(sm); for(E*c:p.pc) if(!ev.truth(c)) ok=false; if(ok||true){ st.wit++; emitCase("witness","",sm); } } else if(r==UNSAT){ st.paths--; st.infeasible++; } }
  } catch(PathEnd&e){
    if(e.why==0) st.infeasible++; else if(e.why==1){ st.unsup++; st.unsupWhy[e.msg]++; } else if(e.why==2){ st.limit++; st.unsupWhy["limit: "+e.msg]++; } else if(e.why==3){ st.paths++; } else { Lock l; G->ent[p.entry].skipped++; }
  } catch(Unsupported&u){ st.unsup++; st.unsupWhy[u.why]++; }
  catch(z3::exception&ex){ st.unsup++; st.unsupWhy[str("z3: ")+ex.msg()]++; S->reset(); }
  st.steps+=p.steps; st.wall+=nowS()-p.t0;
  P=nullptr; for(auto*c:p.cos){ if(c->stk) munmap(c->stk,c->sz); delete c; } for(auto*o:p.objs) if(!o->shared) delete o; for(auto*a:p.arena) delete a; }
static void worker(int ix,const char*outdir){
  prctl(PR_SET_PDEATHSIG,SIGKILL); OUT=fopen((str(outdir)+"/w"+std::to_string(ix)+".jsonl").c_str(),"w"); C->T=C->T; S=new Solver; PE=new PolyEngine; ST.resize(entries.size()); rngState^=(uint64_t)(ix+1)*0x9E3779B97F4A7C15ull; if(getenv("VERIF_SEED")) rngState^=strtoull(getenv("VERIF_SEED"),0,10)*0x2545F4914F6CDD1Dull; for(int i=0;i<8;i++) rng();
  bool idle=false; int memchk=0;
  while(true){
    Item it; bool got=false;
    if(nLocal>0&&G->idle>0&&nLocal>1){ // give away the shallowest items of the entry holding the most
      int be=-1; size_t bn=0; for(auto&x:locals) if(x.second.size()>bn){ bn=x.second.size(); be=x.first; }
      auto&L=locals[be]; Lock l; size_t n=std::min<size_t>(L.size()/2,64),k=0; if(n==0)n=1; for(;k<n;k++) if(!pushShared(L[k])) break; L.erase(L.begin(),L.begin()+k); nLocal-=k; if(L.empty()) locals.erase(be); }
    int be=-1; double bc=1e300; for(auto&x:locals) if(!x.second.empty()&&G->ent[x.first].cpu<bc){ bc=G->ent[x.first].cpu; be=x.first; }
    if(G->nextEntry<entries.size()&&(be<0||bc>1.0)){ Lock l; if(G->nextEntry<entries.size()){ it=Item(); it.entry=G->nextEntry++; got=true; if(idle){G->idle--;idle=false;} } }
    if(!got&&be>=0){ auto&L=locals[be]; it=std::move(L.back()); L.pop_back(); nLocal--; if(L.empty()) locals.erase(be); got=true; }
    if(!got){ Lock l; if(popShared(it)){ got=true; if(idle){G->idle--;idle=false;} } else if(!idle){ G->idle++; idle=true; } if(!got&&G->idle==(uint32_t)NW&&G->nextEntry>=entries.size()) break; }
    if(!got){ usleep(500); if(G->stop) break; continue; }
    auto&en=G->ent[it.entry]; double now=nowS(); double gdl=T0+DEADLINE; (void)gdl;
    if(now>DEADLINE||(en.deadline>0&&now>en.deadline)||en.nviol>=24){ Lock l; if(en.nviol<24) en.skipped++; continue; }
    double c0=nowS(); runPath(it); { Lock l; en.cpu+=nowS()-c0; }
    if((++memchk&15)==0){ struct rusage ru; getrusage(RUSAGE_SELF,&ru); long mb=ru.ru_maxrss/1024; static long lastReset=0; if(mb>1800&&mb>lastReset+600){ lastReset=mb; S->reset(); qcache.clear(); PE->memo.clear(); PE->dmemo.clear(); } }
  }
  for(size_t i=0;i<entries.size();i++){ auto&s=ST[i]; fprintf(OUT,"{\"t\":\"stats\",\"entry\":\"%s\",\"paths\":%lu,\"infeasible\":%lu,\"unsup\":%lu,\"limit\":%lu,\"unk_branch\":%lu,\"unk_check\":%lu,\"obl\":%lu,\"obl_const\":%lu,\"obl_solver\":%lu,\"obl_poly\":%lu,\"viol\":%lu,\"decisions\":%lu,\"steps\":%lu,\"undef\":%lu,\"conc\":%lu,\"wall\":%.3f",entryNames[i].c_str(),s.paths,s.infeasible,s.unsup,s.limit,s.unkBranch,s.unkCheck,s.obl,s.oblConst,s.oblSolver,s.oblPoly,s.viol,s.decisions,s.steps,s.undef,s.conc,s.wall);
    auto mp=[&](const char*n,std::map<str,uint64_t>&m){ fprintf(OUT,",\"%s\":{",n); bool f=true; for(auto&x:m){ fprintf(OUT,"%s\"%s\":%lu",f?"":",",jesc(x.first).c_str(),x.second); f=false; } fprintf(OUT,"}"); };
    mp("why",s.unsupWhy); mp("unk_labels",s.unkLabel); mp("labels",s.labels); mp("reach",s.reach); fprintf(OUT,"}\n"); }
  auto&q=S->st; fprintf(OUT,"{\"t\":\"solver\",\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unk\":%lu,\"cachehit\":%lu,\"bv\":%lu,\"nra\":%lu,\"poly\":%lu,\"time\":%.3f,\"tmax\":%.3f,\"nodes\":%zu}\n",q.queries,q.sat,q.unsat,q.unk,q.cachehit,q.bvq,q.nraq,q.polyq,q.t,q.tmax,C->all.size());
  fprintf(OUT,"{\"t\":\"funcs\",\"f\":["); bool f=true; for(auto*F:used){ fprintf(OUT,"%s\"%s\"",f?"":",",F->getName().str().c_str()); f=false; } fprintf(OUT,"]}\n"); fclose(OUT); _exit(0); }
int main(int argc,char**argv){
  if(argc<3){ fprintf(stderr,"usage: symx file.bc outdir [-j N] [-t seconds] [-w witnesses] [-e entry,...]\n"); return 2; }
  double tl=600; std::vector<str> want; for(int i=3;i<argc;i++){ str o=argv[i]; if(o=="-j") NW=atoi(argv[++i]); else if(o=="-t") tl=atof(argv[++i]); else if(o=="-w") witPer=atoi(argv[++i]); else if(o=="-e"){ str s=argv[++i]; size_t p=0; while(p<=s.size()){ size_t q=s.find(',',p); if(q==str::npos)q=s.size(); if(q>p) want.push_back(s.substr(p,q-p)); p=q+1; } } }
  struct rlimit rl{1ul<<30,1ul<<30}; setrlimit(RLIMIT_STACK,&rl);
  if(!getenv("SYMX_CHILD")){ setenv("SYMX_CHILD","1",1); execv("/proc/self/exe",argv); }
  LC=new LLVMContext; SMDiagnostic err; auto Mo=parseIRFile(argv[1],err,*LC); if(!Mo){ err.print("symx",errs()); return 2; } M=Mo.get(); DL=&M->getDataLayout(); C=new Ctx;
  for(auto&F:*M) if(!F.isDeclaration()&&F.getName().starts_with("h_")){ str n=F.getName().str(); if(!want.empty()){ bool ok=false; for(auto&w:want) if(n==w) ok=true; if(!ok) continue; } entries.push_back(&F); entryNames.push_back(n); }
  if(entries.empty()){ fprintf(stderr,"no entries\n"); return 2; } if(entries.size()>500) return 2;
  setupHandlers(); layoutGlobals(); findCtors();
  G=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)G,0,sizeof(Shm)); uint64_t cap=1ull<<24; GA=(Dec*)mmap(nullptr,cap*sizeof(Dec),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); G->arenaCap=cap;
  pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at,PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&at,PTHREAD_MUTEX_STALLED); pthread_mutex_init(&G->mu,&at);
  T0=nowS(); DEADLINE=T0+tl; G->nextEntry=0;
  std::vector<pid_t> kids; for(int i=0;i<NW;i++){ pid_t p=fork(); if(p==0) worker(i,argv[2]); kids.push_back(p); }
  int bad=0; int aliveN=NW; std::set<pid_t> al(kids.begin(),kids.end());
  while(!al.empty()){ int stt; pid_t r=waitpid(-1,&stt,WNOHANG); if(r>0){ al.erase(r); if(!WIFEXITED(stt)||WEXITSTATUS(stt)!=0){ bad++; Lock l; NW=NW; G->idle++; } } else usleep(2000); if(nowS()>DEADLINE+60){ for(pid_t p:al) kill(p,SIGKILL); bad++; G->stop=1; } }
  (void)aliveN; FILE*f=fopen((str(argv[2])+"/main.json").c_str(),"w"); fprintf(f,"{\"wall\":%.3f,\"crashed\":%d,\"skipped\":{",nowS()-T0,bad); for(size_t i=0;i<entries.size();i++) fprintf(f,"%s\"%s\":%u",i?",":"",entryNames[i].c_str(),G->ent[i].skipped); fprintf(f,"}}\n"); fclose(f); return 0; }
