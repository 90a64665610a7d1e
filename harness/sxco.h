// Cooperative threads for the program under analysis: sx_co_new creates one, sx_co_switch hands over
// the processor (0 is the entry function; a thread that returns hands over to 0).  Under the engine they are
// coroutines of the interpreter, natively real threads that pass a token, so a recorded schedule replays.
#pragma once
#include "sx.h"
#ifndef SX_NATIVE
extern "C" { int sx_co_new(void(*)(void*),void*); void sx_co_switch(int); }
#else
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>
namespace sxn {
struct CoS { std::mutex m; std::condition_variable cv; int cur=0; std::vector<std::thread*> t{nullptr}; };
inline CoS& cos_(){ static CoS* s=new CoS; return *s; }
inline int& coMe(){ static thread_local int me=0; return me; }
}
inline int sx_co_new(void(*f)(void*),void*a){ auto&s=sxn::cos_(); std::unique_lock<std::mutex> l(s.m); int id=s.t.size();
  s.t.push_back(new std::thread([id,f,a]{ sxn::coMe()=id; auto&s=sxn::cos_(); { std::unique_lock<std::mutex> l(s.m); s.cv.wait(l,[&]{ return s.cur==id; }); } f(a); { std::unique_lock<std::mutex> l(s.m); s.cur=0; s.cv.notify_all(); } }));
  s.t.back()->detach(); return id; }
inline void sx_co_switch(int id){ auto&s=sxn::cos_(); std::unique_lock<std::mutex> l(s.m); int me=sxn::coMe(); if(id==me) return; s.cur=id; s.cv.notify_all(); s.cv.wait(l,[&]{ return s.cur==me; }); }
#endif
