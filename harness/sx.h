// Harness API.  Under the symbolic engine the sx_* functions are external and interpreted;
// with -DSX_NATIVE they read the recorded assignment and check on the real compiled code.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#ifndef SX_NATIVE
extern "C" {
double sx_real(const char*);
double sx_real_in(const char*, double lo, double hi);
double sx_grid(const char*, int lo, int hi);
int sx_int(const char*, int lo, int hi);
uint64_t sx_bits(const char*, int w);
int sx_choose(const char*, int n);
void sx_assume(bool);
void sx_check_(bool, const char* label);
void sx_eq(double a, double b, const char* label);
void sx_le(double a, double b, const char* label);
void sx_lt(double a, double b, const char* label);
double sx_d(double y, double x);
double sx_at(double y, double x, double v); // y with the variable x replaced by v
void sx_reach(const char*);
void sx_observe(const char*, double);
void sx_observe_i(const char*, long);
int sx_concrete(int);
bool sx_fork(bool);
bool sx_native();
void sx_opt(const char*, int);
}
#define SX_ENTRY(name) extern "C" __attribute__((used,noinline)) void h_##name()
#else
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
namespace sxn {
inline std::map<std::string,std::string>& in(){ static std::map<std::string,std::string> m; return m; }
inline std::vector<double>& dv(){ static std::vector<double> v; return v; }
inline std::map<std::string,void(*)()>& ents(){ static std::map<std::string,void(*)()> m; return m; }
inline std::map<std::string,int>& cnt(){ static std::map<std::string,int> m; return m; }
inline size_t& di(){ static size_t i=0; return i; }
inline double& tol(){ static double t=1e-6; return t; }
struct Reg { Reg(const char*n,void(*f)()){ ents()[n]=f; } };
inline std::string uniq(const char*n){ int k=cnt()[n]++; return k?std::string(n)+"#"+std::to_string(k):std::string(n); }
inline std::string get(const char*n){ auto u=uniq(n); auto it=in().find(u); return it==in().end()?"0":it->second; }
[[noreturn]] inline void fail(const char*l){ printf("SXFAIL %s\n",l); fflush(stdout); _Exit(3); }
}
inline double sx_real(const char*n){ return atof(sxn::get(n).c_str()); }
inline double sx_real_in(const char*n,double,double){ return sx_real(n); }
inline double sx_grid(const char*n,int,int){ return atof(sxn::get(n).c_str()); }
inline int sx_int(const char*n,int lo,int){ auto u=sxn::uniq(n); auto it=sxn::in().find(u); return it==sxn::in().end()?lo:atoi(it->second.c_str()); }
inline uint64_t sx_bits(const char*n,int){ return strtoull(sxn::get(n).c_str(),0,10); }
inline int sx_choose(const char*n,int){ return atoi(sxn::get(n).c_str()); }
inline void sx_assume(bool b){ if(!b){ printf("SXASSUME\n"); fflush(stdout); _Exit(77); } }
inline void sx_check_(bool b,const char*l){ if(!b) sxn::fail(l); }
inline void sx_eq(double a,double b,const char*l){ if(!(std::fabs(a-b)<=sxn::tol()*(1+std::fabs(a)+std::fabs(b)))){ printf("SXEQ %.17g %.17g\n",a,b); sxn::fail(l);} }
inline void sx_le(double a,double b,const char*l){ if(!(a<=b+1e-9*(1+std::fabs(a)+std::fabs(b)))){ printf("SXLE %.17g %.17g\n",a,b); sxn::fail(l);} }
inline void sx_lt(double a,double b,const char*l){ if(!(a<b+1e-12*(std::fabs(a)+std::fabs(b)))){ printf("SXLT %.17g %.17g\n",a,b); sxn::fail(l);} }
inline double sx_d(double,double){ size_t i=sxn::di()++; if(i>=sxn::dv().size()){ printf("SXEND\n"); fflush(stdout); _Exit(0);} return sxn::dv()[i]; }
inline double sx_at(double,double,double){ return sx_d(0,0); }
inline void sx_reach(const char*){}
inline void sx_observe(const char*n,double v){ printf("OBS %s %.17g\n",n,v); }
inline void sx_observe_i(const char*n,long v){ printf("OBS %s %ld\n",n,v); }
inline int sx_concrete(int v){ return v; }
inline bool sx_fork(bool b){ return b; }
inline bool sx_native(){ return true; }
inline void sx_opt(const char*n,int v){ if(!strcmp(n,"native_tol_e")) sxn::tol()=std::pow(10.0,-v); }
#define SX_ENTRY(name) void h_##name(); static sxn::Reg reg_##name("h_" #name,h_##name); void h_##name()
int main(int argc,char**argv){
  setvbuf(stdout,nullptr,_IOLBF,0);
  if(argc<3){ for(auto&e:sxn::ents()) printf("%s\n",e.first.c_str()); return 2; }
  FILE*f=fopen(argv[2],"r"); if(!f) return 2; char a[512],b[512]; while(fscanf(f,"%500s %500s",a,b)==2){ if(!strcmp(a,"@d")) sxn::dv().push_back(atof(b)); else sxn::in()[a]=b; } fclose(f);
  auto it=sxn::ents().find(argv[1]); if(it==sxn::ents().end()) return 2;
  it->second(); printf("SXOK\n"); return 0; }
#endif
#define sx_check(c,l) sx_check_((c),(l))
