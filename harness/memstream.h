// In-memory replacement of the standard file and string streams (same code symbolically and natively, no file is touched).
// Numbers are written exactly: a double is a one-token reference into a table, so that printing and re-reading gives the same value.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdlib>
#include <cstring>
namespace sxio {
inline std::vector<std::pair<std::string,std::string>>& files(){ static std::vector<std::pair<std::string,std::string>> f; return f; }
inline std::vector<double>& nums(){ static std::vector<double> v; return v; }
inline std::string* find(const std::string&n){ for(auto&f:files()) if(f.first==n) return &f.second; return nullptr; }
inline std::string& put(const std::string&n){ if(std::string*s=find(n)) return *s; files().push_back({n,std::string()}); return files().back().second; }
inline int& dec(){ static int d=0; return d; } // 1: numbers are written in decimal with three digits (for concrete values that have at most three)
inline bool spc(char c){ return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
struct endl_t{};
struct ios{ bool eof_=false,fail_=false; bool fail()const{ return fail_; } bool eof()const{ return eof_; } bool good()const{ return !fail_&&!eof_; } bool bad()const{ return false; } explicit operator bool()const{ return !fail_; } bool operator!()const{ return fail_; } };
struct basic:ios{
  std::string own; std::string*s=nullptr; std::string name; size_t pos=0; size_t gc=0;
  std::string&buf(){ return name.empty()?own:*find(name); }
  // output
  basic&w(const std::string&t){ if(!fail_) buf()+=t; return *this; }
  basic&operator<<(const char*t){ return w(t); } basic&operator<<(const std::string&t){ return w(t); } basic&operator<<(char c){ return w(std::string(1,c)); }
  basic&num(long v){ char b[24]; int k=23; b[k]=0; bool ng=v<0; unsigned long u=ng?-(unsigned long)v:v; do{ b[--k]='0'+u%10; u/=10; }while(u); if(ng) b[--k]='-'; return w(b+k); }
  basic&operator<<(int v){ return num(v); } basic&operator<<(unsigned v){ return num(v); } basic&operator<<(long v){ return num(v); } basic&operator<<(unsigned long v){ return num((long)v); }
  basic&operator<<(double v){ if(dec()){ long q=(long)(v*1000+(v<0?-0.5:0.5)); if(q<0){ w("-"); q=-q; } num(q/1000); char b[5]={'.',(char)('0'+q/100%10),(char)('0'+q/10%10),(char)('0'+q%10),0}; return w(b); } nums().push_back(v); int k=(int)nums().size()-1; char b[5]={1,(char)('0'+k/100%10),(char)('0'+k/10%10),(char)('0'+k%10),0}; return w(b); } basic&operator<<(float v){ return *this<<(double)v; }
  basic&operator<<(std::ostream&(*)(std::ostream&)){ return w("\n"); } basic&write(const char*p,long n){ return w(std::string(p,n)); }
  // input
  bool skip(){ if(fail_||eof_){ fail_=true; return false; } std::string&b=buf(); while(pos<b.size()&&spc(b[pos])) pos++; if(pos>=b.size()){ eof_=fail_=true; return false; } return true; }
  std::string word(){ std::string r; if(!skip()) return r; std::string&b=buf(); while(pos<b.size()&&!spc(b[pos])) r.push_back(b[pos++]); if(pos>=b.size()) eof_=true; return r; }
  basic&operator>>(std::string&t){ std::string r=word(); if(!fail_||!r.empty()) t=r; return *this; }
  basic&operator>>(char*t){ std::string r=word(); if(!r.empty()) strcpy(t,r.c_str()); else *t=0; return *this; }
  template<int N> basic&operator>>(char(&t)[N]){ std::string r=word(); if((int)r.size()>=N){ pos-=r.size()-(N-1); eof_=false; r.resize(N-1); } memcpy(t,r.c_str(),r.size()+1); return *this; }
  basic&operator>>(char&c){ if(skip()) c=buf()[pos++]; return *this; }
  bool integer(long&v){ if(!skip()) return false; std::string&b=buf(); size_t p=pos; bool ng=false; if(b[p]=='-'||b[p]=='+'){ ng=b[p]=='-'; p++; } size_t q=p; v=0; while(p<b.size()&&b[p]>='0'&&b[p]<='9'){ v=v*10+(b[p]-'0'); p++; } pos=p; if(p>=b.size()) eof_=true; if(p==q){ fail_=true; v=0; return false; } if(ng) v=-v; return true; }
  basic&operator>>(int&v){ if(fail_) return *this; bool e=eof_; long t=0; bool ok=integer(t); (void)e; if(ok) v=(int)t; else if(!empty) v=0; return *this; } bool empty=false;
  basic&operator>>(unsigned&v){ if(fail_) return *this; long t=0; v=integer(t)?(unsigned)t:0; return *this; } basic&operator>>(long&v){ if(fail_) return *this; long t=0; v=integer(t)?t:0; return *this; } basic&operator>>(unsigned long&v){ if(fail_) return *this; long t=0; v=integer(t)?t:0; return *this; }
  basic&operator>>(double&v){ if(fail_) return *this; v=0; if(!skip()) return *this; std::string&b=buf(); if(b[pos]==1){ v=nums()[(b[pos+1]-'0')*100+(b[pos+2]-'0')*10+(b[pos+3]-'0')]; pos+=4; if(pos>=b.size()) eof_=true; return *this; } const char*p=b.c_str()+pos; char*e; v=strtod(p,&e); if(e==p){ fail_=true; v=0; } pos+=e-p; if(pos>=b.size()) eof_=true; return *this; }
  basic&operator>>(float&v){ if(fail_) return *this; double d=0; *this>>d; v=(float)d; return *this; }
  basic&getline(char*t,long n){ t[0]=0; gc=0; if(fail_||eof_){ fail_=true; return *this; } std::string&b=buf(); long k=0; for(;;){ if(pos>=b.size()){ eof_=true; if(k==0) fail_=true; break; } if(b[pos]=='\n'){ pos++; gc=k+1; break; } if(k==n-1){ fail_=true; break; } t[k++]=b[pos++]; } t[k]=0; return *this; }
  basic&read(char*t,long n){ if(fail_) return *this; std::string&b=buf(); long k=0; while(k<n&&pos<b.size()) t[k++]=b[pos++]; gc=k; if(k<n) eof_=fail_=true; return *this; }
  size_t gcount()const{ return gc; } int get(){ std::string&b=buf(); if(pos>=b.size()){ eof_=fail_=true; return -1; } return (unsigned char)b[pos++]; } int peek(){ std::string&b=buf(); if(pos>=b.size()){ eof_=true; return -1; } return (unsigned char)b[pos]; }
  std::string str(){ return buf(); } void clear(){ eof_=fail_=false; }
  bool is_open()const{ return !name.empty(); } void close(){ name.clear(); own.clear(); pos=0; }
};
inline basic& getline(basic&f,std::string&t,char d='\n'){ t.clear(); if(f.fail_||f.eof_){ f.fail_=true; return f; } std::string&b=f.buf(); if(f.pos>=b.size()){ f.eof_=f.fail_=true; return f; } for(;;){ if(f.pos>=b.size()){ f.eof_=true; break; } char c=b[f.pos++]; if(c==d) break; t.push_back(c); } return f; }
struct sx_ss:basic{ sx_ss(){} explicit sx_ss(const std::string&t){ own=t; } template<class M> sx_ss(const std::string&t,M){ own=t; } };
struct sx_is:basic{ static const int in=1,out=2,binary=4; sx_is(){} explicit sx_is(const std::string&n){ open(n); } explicit sx_is(const char*n){ open(std::string(n)); } template<class M> sx_is(const std::string&n,M){ open(n); } void open(const std::string&n){ name=n; pos=0; if(!sxio::find(n)){ fail_=true; name.clear(); } } void open(const char*n){ open(std::string(n)); } template<class M> void open(const std::string&n,M){ open(n); } };
struct sx_os:basic{ static const int in=1,out=2,binary=4; sx_os(){} explicit sx_os(const std::string&n){ open(n); } explicit sx_os(const char*n){ open(std::string(n)); } template<class P,class M> sx_os(const P&n,M){ open(std::string(n)); } void open(const std::string&n){ name=n; put(n).clear(); } void open(const char*n){ open(std::string(n)); } template<class P,class M> void open(const P&n,M){ open(std::string(n)); } };
struct path{ std::string p; path(){} path(const char*c):p(c){} path(const std::string&c):p(c){} operator std::string()const{ return p; } const char*c_str()const{ return p.c_str(); } std::string string()const{ return p; } };
}
namespace std { using sxio::sx_ss; using sxio::sx_is; using sxio::sx_os; typedef sx_ss sx_iss,sx_oss; using sxio::getline; namespace filesystem { using sx_path=sxio::path; } }
#define stringstream sx_ss
#define istringstream sx_iss
#define ostringstream sx_oss
#define ifstream sx_is
#define ofstream sx_os
