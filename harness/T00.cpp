#include "sx.h"
#include <vector>
#include <map>
#include <string>
#include <algorithm>
#include <iostream>
#include "delfem2/vec3.h"
#include "delfem2/jagarray.h"
namespace dfm2=delfem2;
SX_ENTRY(sort){ std::vector<unsigned int> ind{0},a; int n=sx_int("n",0,3); n=sx_concrete(n); for(int i=0;i<n;i++) a.push_back(sx_int("v",0,3)); ind.push_back(a.size()); auto b=a; dfm2::JArray_Sort(ind,b); for(int i=0;i+1<n;i++) sx_check(b[i]<=b[i+1],"sorted"); for(int i=0;i<n;i++) sx_observe_i("b",b[i]); }
SX_ENTRY(cross){ double a[3],b[3]; for(auto&x:a)x=sx_real("a"); for(auto&x:b)x=sx_real("b"); dfm2::CVec3d A(a[0],a[1],a[2]),B(b[0],b[1],b[2]); auto c=A.cross(B); sx_eq(c.dot(A),0,"orth"); auto d=A/A.norm(); sx_eq(d.norm(),1,"unit"); sx_observe("c0",c.x); sx_observe("n",d.x); sx_eq(sx_d(A.norm(),a[0]),a[0]/A.norm(),"dnorm"); }
SX_ENTRY(bad){ int x=sx_int("x",0,100); std::cout<<"hello "<<x<<std::endl; sx_check(x!=77,"no77"); std::vector<int> v(5); v[x%6]=3; sx_observe_i("v",v[x/30]); }
SX_ENTRY(map){ std::map<std::string,int> m; m["abc"]=1; m["abd"]=2; int k=sx_int("k",0,5); std::string s="ab"; s+=(char)('a'+k); int z=m.count(s)?m[s]:0; sx_check((z==1)==(k==2),"map"); try { if(k==3) throw 5; } catch(int q){ sx_check(q==5&&k==3,"exc"); return; } sx_check(k!=3,"noexc"); }
SX_ENTRY(grid){ double x=sx_grid("x",-10,10),y=sx_grid("y",-10,10); double t=x/(y*y+1); sx_assume(t>2); sx_check(x>2,"x2"); sx_check(x>3,"x3bad"); }
SX_ENTRY(nra){ double x=sx_real("x"),y=sx_real("y"); sx_assume(x*x+y*y<1); sx_check(x*y<0.5001,"xy"); double r=std::sqrt(x*x+y*y); sx_check(r<1,"r"); if(x>0.5&&y>0.9) sx_check(false,"unreach"); }
