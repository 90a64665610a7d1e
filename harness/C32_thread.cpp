// C32: parallel_for under every interleaving (bounded preemptions) of its worker threads.
// std::async, future, atomic, thread, mutex of the code under test are replaced by the cooperative versions below:
// every atomic operation, thread start, lock and body call is a scheduling point whose outcome is a free choice.
#include "sxco.h"
#include <functional>
#include <future>
#include <mutex>
#include <queue>
#include <thread>
#include <atomic>
#include <vector>
#include <memory>
#include <exception>
#include <condition_variable>
static void opt(){ sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",400000); sx_opt("steps_are_violation",1); }
struct Boom { int k; };
namespace sched {
struct Task { std::function<void()> f; bool done=false; int id=0; int waiting=-1; };
static std::vector<Task*>* tk; static int cur, preempt, hw; static int nswitch; static bool on; static int created;
static void init(int budget,int hwc){ tk=new std::vector<Task*>(1,new Task); cur=0; preempt=budget; hw=hwc; on=true; created=0; }
static bool runnable(int i){ Task*t=(*tk)[i]; if(t->done) return false; if(t->waiting>=0&&!(*tk)[t->waiting]->done) return false; return true; }
static void go(int i){ if(i==cur) return; cur=i; sx_co_switch(i); }
static void point(){ // a scheduling point: stay, or (within the preemption budget) let another thread run
  if(!on||preempt<=0) return; int r[8],n=0; r[n++]=cur; for(int i=0;i<(int)tk->size();i++) if(i!=cur&&runnable(i)) r[n++]=i;
  if(n<2) return; int k=sx_choose("sched",n); if(k){ preempt--; go(r[k]); } }
static void block(){ // the running thread cannot go on: some other one must
  int r[8],n=0; for(int i=0;i<(int)tk->size();i++) if(i!=cur&&runnable(i)) r[n++]=i;
  sx_check(n>0,"no deadlock"); int k=n>1?sx_choose("next",n):0; go(r[k]); }
static void run(void*p){ Task*t=(Task*)p; t->f(); t->done=true; cur=0; } // control returns to the entry thread
static void join(Task*t){ while(!t->done){ (*tk)[cur]->waiting=t->id; if(cur==0){ int r[8],n=0; for(int i=1;i<(int)tk->size();i++) if(runnable(i)) r[n++]=i; sx_check(n>0,"no deadlock"); int k=n>1?sx_choose("next",n):0; go(r[k]); } else block(); } (*tk)[cur]->waiting=-1; }
static Task* start(std::function<void()> f){ Task*t=new Task; t->f=std::move(f); t->id=sx_co_new(run,t); created++; sx_check(t->id==(int)tk->size(),"thread bookkeeping"); tk->push_back(t); point(); return t; }
static int alive(){ int n=0; for(int i=1;i<(int)tk->size();i++) if(!(*tk)[i]->done) n++; return n; }
static void finish(){ on=false; for(auto*t:*tk) delete t; delete tk; }
}
namespace std {
template<class T> struct sx_atomic { T v; sx_atomic():v(){} constexpr sx_atomic(T x):v(x){} sx_atomic(const sx_atomic&)=delete;
  T load(memory_order=memory_order_seq_cst) const { sched::point(); return v; } void store(T x,memory_order=memory_order_seq_cst){ sched::point(); v=x; }
  operator T() const { return load(); } T operator=(T x){ store(x); return x; }
  T exchange(T x,memory_order=memory_order_seq_cst){ sched::point(); T o=v; v=x; return o; }
  bool compare_exchange_strong(T&e,T d,memory_order=memory_order_seq_cst,memory_order=memory_order_seq_cst){ sched::point(); if(v==e){ v=d; return true; } e=v; return false; }
  bool compare_exchange_weak(T&e,T d,memory_order=memory_order_seq_cst,memory_order=memory_order_seq_cst){ return compare_exchange_strong(e,d); }
  T fetch_add(T x,memory_order=memory_order_seq_cst){ sched::point(); T o=v; v=(T)(v+x); return o; } T fetch_sub(T x,memory_order=memory_order_seq_cst){ sched::point(); T o=v; v=(T)(v-x); return o; }
  T operator++(){ return fetch_add(1)+1; } T operator++(int){ return fetch_add(1); } T operator--(){ return fetch_sub(1)-1; } T operator--(int){ return fetch_sub(1); }
  T operator+=(T x){ return (T)(fetch_add(x)+x); } T operator-=(T x){ return (T)(fetch_sub(x)-x); } };
struct sx_exception_ptr { int h=0; Boom b{-1}; explicit operator bool() const { return h; } bool operator==(nullptr_t) const { return !h; } bool operator!=(nullptr_t) const { return h; } sx_exception_ptr()=default; sx_exception_ptr(nullptr_t){} };
inline sx_exception_ptr sx_current_exception(){ sx_exception_ptr p; try { throw; } catch(Boom&x){ p.h=1; p.b=x; } catch(...) { p.h=2; } return p; }
inline void sx_rethrow_exception(sx_exception_ptr p){ if(p.h==1) throw p.b; throw 1; }
template<class T> struct sx_future; 
template<> struct sx_future<void> { struct S { sched::Task*t=nullptr; sx_exception_ptr e; std::function<void()> def; bool retrieved=false; }; shared_ptr<S> s; bool async_=true;
  sx_future()=default; sx_future(sx_future&&o)=default; sx_future& operator=(sx_future&&o)=default; bool valid() const { return (bool)s; }
  void wait(){ if(s->t) sched::join(s->t); else if(s->def){ auto d=std::move(s->def); s->def=nullptr; d(); } }
  void get(){ auto k=std::move(s); s=nullptr; if(k->t) sched::join(k->t); else if(k->def) k->def(); if(k->e) sx_rethrow_exception(k->e); }
  ~sx_future(){ if(s&&s->t) sched::join(s->t); } };
enum class sx_launch { sx_async=1, deferred=2 }; inline sx_launch operator|(sx_launch a,sx_launch){ return a; }
template<class F> sx_future<void> sx_async(sx_launch p,F&&f){ sx_future<void> r; r.s=make_shared<sx_future<void>::S>(); auto S=r.s; auto job=[S,g=std::decay_t<F>(std::forward<F>(f))]() mutable { try { g(); } catch(...) { S->e=sx_current_exception(); } };
  if(p==sx_launch::sx_async) r.s->t=sched::start(job); else { auto*raw=S.get(); (void)raw; r.s->def=job; } return r; }
template<class F> sx_future<void> sx_async(F&&f){ return sx_async(sx_launch::sx_async,std::forward<F>(f)); }
struct sx_thread { sched::Task*t=nullptr; sx_thread()=default; template<class F> explicit sx_thread(F f){ t=sched::start([f]() mutable { f(); }); } template<class F,class A> sx_thread(F f,A a){ t=sched::start([f,a]() mutable { f(a); }); }
  sx_thread(sx_thread&&o):t(o.t){ o.t=nullptr; } bool joinable() const { return t; } void join(){ sched::join(t); t=nullptr; } ~sx_thread(){ sx_check(!t,"thread joined before destruction"); } static unsigned hardware_concurrency(){ return sched::hw; } };
struct sx_mutex { bool l=false; void lock(){ sched::point(); while(l) sched::block(); l=true; } bool try_lock(){ sched::point(); if(l) return false; l=true; return true; } void unlock(){ l=false; sched::point(); } };
}
#define exception_ptr sx_exception_ptr
#define current_exception sx_current_exception
#define rethrow_exception sx_rethrow_exception
#define atomic sx_atomic
#define future sx_future
#define launch sx_launch
#define async sx_async
#define thread sx_thread
#define mutex sx_mutex
#include "delfem2/thread.h"
#undef atomic
#undef future
#undef launch
#undef async
#undef thread
#undef mutex
#undef exception_ptr
#undef current_exception
#undef rethrow_exception
static const int PRE = SX_TIER?4:3;
// one range
static void one(int nmax,int tmax,int pre){ opt(); int T=sx_choose("threads",tmax+1), H=0; if(T==0) H=sx_choose("hw",tmax+1); int N=sx_int("N",0,nmax);
  sched::init(pre,H); int cnt[8]={0}, inside=0, during[8]={0}; bool bad=false; (void)inside;
  delfem2::parallel_for(N,[&](int i){ if(i<0||i>=N){ bad=true; return; } cnt[i]++; during[i]=1; sched::point(); during[i]=0; },(unsigned)T);
  sx_check(!bad,"body called only with indices of the range"); for(int i=0;i<nmax;i++){ if(i<N){ sx_check(cnt[i]==1,"each index once"); sx_check(!during[i],"every call finished"); } else sx_check(cnt[i]==0,"no index beyond the range"); }
  sx_check(sched::alive()==0,"no thread left behind"); sx_check(T==0||sched::created<=T,"at most the requested number of threads"); sched::finish(); }
SX_ENTRY(range){ one(3,2,PRE); }
SX_ENTRY(range3){ one(3,3,1+SX_TIER); }
SX_ENTRY(wide){ one(6,4,0); }
static void two(int n1,int n2,int tmax,int pre){ opt(); int T=sx_choose("threads",tmax+1), H=0; if(T==0) H=sx_choose("hw",tmax+1); int A=sx_int("A",0,n1),B=sx_int("B",0,n2);
  sched::init(pre,H); int cnt[5][5]={}; bool bad=false; int open=0;
  delfem2::parallel_for(A,B,[&](int i,int j){ if(i<0||i>=A||j<0||j>=B){ bad=true; return; } cnt[i][j]++; open++; sched::point(); open--; },(unsigned)T);
  sx_check(!bad,"body called only with index pairs of the range"); for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) sx_check(cnt[i][j]==(i<A&&j<B?1:0),"each index pair once");
  sx_check(open==0,"every call finished"); sx_check(sched::alive()==0,"no thread left behind"); sched::finish(); }
SX_ENTRY(range2d){ two(2,2,2,PRE-1); }
SX_ENTRY(wide2d){ two(3,4,3,0); }
// unsigned and narrow index types
SX_ENTRY(types){ opt(); sched::init(1,2); int T=1+sx_choose("threads",2); unsigned N=(unsigned)sx_int("N",0,3); int cnt[4]={0}; bool bad=false;
  delfem2::parallel_for(N,[&](unsigned i){ if(i>=N) bad=true; else cnt[i]++; },(unsigned)T); for(unsigned i=0;i<4;i++) sx_check(cnt[i]==(i<N?1:0),"each unsigned index once"); sx_check(!bad,"unsigned indices inside");
  short M=(short)sx_int("M",0,3); int c2[4]={0}; delfem2::parallel_for(M,[&](short i){ if(i<0||i>=M) bad=true; else c2[i]++; },(unsigned)T); for(int i=0;i<4;i++) sx_check(c2[i]==(i<M?1:0),"each short index once"); sx_check(!bad,"short indices inside"); sched::finish(); }
// a body that throws: the exception reaches the caller, only after every worker has stopped, and no index runs twice
static void thr(int n,int tmax,int pre,bool d2){ opt(); int T=1+sx_choose("threads",tmax); int bad=sx_choose("which",n);
  sched::init(pre,T); int cnt[4]={0}, open=0; bool caught=false; int got=-1;
  try { if(!d2) delfem2::parallel_for(n,[&](int i){ cnt[i]++; open++; sched::point(); open--; if(i==bad) throw Boom{i}; },(unsigned)T);
        else delfem2::parallel_for(1,n,[&](int,int j){ cnt[j]++; open++; sched::point(); open--; if(j==bad) throw Boom{j}; },(unsigned)T); }
  catch(Boom&b){ caught=true; got=b.k; sx_check(open==0,"no call still running when the exception arrives"); sx_check(sched::alive()==0,"no thread left behind after an exception"); }
  sx_check(caught,"exception of the body reaches the caller"); sx_check(!caught||got==bad,"the exception thrown is the one received"); for(int i=0;i<n;i++) sx_check(cnt[i]<=1,"no index twice with an exception"); sx_check(cnt[bad]==1,"the throwing index ran"); sched::finish(); }
SX_ENTRY(throws){ thr(3,2,PRE-1,false); }
SX_ENTRY(throws2d){ thr(3,2,PRE-1,true); }
