// C30: string helpers and the math expression evaluator
#include "sx.h"
#include "memstream.h"
#include <cerrno>
#include <cmath>
#include <cassert>
#include <climits>
#include <algorithm>
#include "delfem2/str.h"
#include "delfem2/parse_math_expression.h"
namespace dfm2=delfem2; static const int T=SX_TIER; typedef std::string S; typedef std::vector<S> VS; typedef unsigned int U;
static const char*NM(const char*p,int i){ static char b[900][12]; static int k=0; char*c=b[k++%900]; int j=0; while(p[j]){ c[j]=p[j]; j++; } if(i>=10) c[j++]='0'+i/10%10; c[j++]='0'+i%10; c[j]=0; return c; }
static void opt(){ sx_opt("fold",1); sx_opt("native_tol_e",8); sx_opt("check_ms",4000); sx_opt("branch_ms",1000); sx_opt("max_ite",0); sx_opt("fork_select",2); sx_opt("max_steps",1000000); sx_opt("steps_are_violation",1); }
static S sym(const char*p,int n){ S s(n,'a'); for(int i=0;i<n;i++) s[i]=(char)sx_bits(NM(p,i),8); return s; }
static void same(const S&a,const S&b,const char*l){ sx_check(a.size()==b.size(),l); for(size_t i=0;i<a.size();i++) sx_check(a[i]==b[i],l); }
static void same(const VS&a,const VS&b,const char*l){ sx_check(a.size()==b.size(),l); for(size_t i=0;i<a.size();i++) same(a[i],b[i],l); }
static bool is(char c,const S&del){ for(char d:del) if(sx_fork(c==d)) return true; return false; }
static VS runs(const S&s,const S&del){ VS r; S t; for(char c:s){ if(is(c,del)){ if(!t.empty()) r.push_back(t); t.clear(); } else t.push_back(c); } if(!t.empty()) r.push_back(t); return r; }
static int len(int m){ return sx_choose("len",m+1); }
SX_ENTRY(split){ opt(); S s=sym("c",len(T?7:5)); static const char*D[3]={" =",",","ab;"}; S d=D[sx_choose("del",3)]; same(dfm2::Split(s,d),runs(s,d),"maximal runs of other characters"); }
SX_ENTRY(split_any){ opt(); S s=sym("c",len(4)),d=sym("d",sx_choose("nd",3)); same(dfm2::Split(s,d),runs(s,d),"maximal runs of other characters"); same(dfm2::Remove(s,d),[&]{ S r; for(char c:s) if(!is(c,d)) r.push_back(c); return r; }(),"characters not in the set"); S b; bool on=false; for(char c:s){ if(!on&&is(c,d)) continue; on=true; b.push_back(c); } same(dfm2::RemoveBeginning(s,d),b,"everything from the first other character"); }
SX_ENTRY(split_char){ opt(); S s=sym("c",len(T?7:5)); char d=(char)sx_bits("d",8); VS r{"x"}; dfm2::Split(r,s,d); VS w=runs(s,S(1,d)); same(r,w,"non-empty fields"); same(dfm2::Split(s,d),w,"non-empty fields"); }
SX_ENTRY(replace){ opt(); S s=sym("c",len(6)); char f=(char)sx_bits("f",8),t=(char)sx_bits("t",8); S r=dfm2::Replace(s,f,t); sx_check(r.size()==s.size(),"same length"); for(size_t i=0;i<r.size();i++) sx_check(r[i]==(s[i]==f?t:s[i]),"character replaced"); S q=dfm2::RemoveSpace(s),w; for(char c:s) if(!sx_fork(c==' ')) w.push_back(c); same(q,w,"spaces removed"); }
// fields between delimiters outside parentheses
SX_ENTRY(parentheses){ opt(); int n=len(T?6:5); S s; for(int i=0;i<n;i++){ int k=sx_choose(NM("k",i),4); if(k==3){ char c=(char)sx_bits(NM("c",i),8); sx_assume((c!='(')&(c!=')')&(c!=',')); s.push_back(c); } else s.push_back("(),"[k]); } int lv=0; for(char c:s){ if(c=='(') lv++; if(c==')') lv--; if(lv<0) return; } if(lv) return; VS w; S t; for(char c:s){ if(c=='(') lv++; if(c==')') lv--; if(c==','&&lv==0){ w.push_back(t); t.clear(); } else t.push_back(c); } if(n) w.push_back(t); same(dfm2::Split_Parentheses(s,',',"()"),w,"fields between the delimiters outside parentheses"); int a=-1,b=-1; for(int i=0;i<n;i++){ if(s[i]=='('&&a<0) a=i; if(s[i]==')') b=i; } same(dfm2::Get_Parentheses(s,"()"),a<0?S():s.substr(a+1,b-a-1),"text between the outer parentheses"); }
SX_ENTRY(brackets_any){ opt(); S s=sym("c",len(4)),p=sym("p",sx_choose("np",4)); VS r=dfm2::Split_Parentheses(s,p.empty()?',':'|',p); size_t t=0; for(auto&x:r) t+=x.size(); sx_check(t<=s.size(),"no character is added"); S g=dfm2::Get_Parentheses(s,p); sx_check(g.size()+2<=s.size()||g.empty(),"no character is added"); S q=Remove_Quote(s,'"'); sx_check(q.size()<=s.size(),"no character is added"); }
SX_ENTRY(quote){ opt(); int n=len(T?6:5); S s; int nq=0; for(int i=0;i<n;i++){ int k=sx_choose(NM("k",i),3); if(k==2){ char c=(char)sx_bits(NM("c",i),8); sx_assume((c!='"')&(c!=',')); s.push_back(c); } else { s.push_back("\","[k]); nq+=k==0; } } if(nq%2) return; VS w; S t; bool in=false; for(char c:s){ if(c=='"') in=!in; if(c==','&&!in){ if(!t.empty()) w.push_back(t); t.clear(); } else t.push_back(c); } if(!t.empty()) w.push_back(t); same(dfm2::Split_Quote(s,',','"'),w,"non-empty fields between the delimiters outside quotes"); int a=-1,b=-1; for(int i=0;i<n;i++) if(s[i]=='"'){ if(a<0) a=i; b=i; } same(Remove_Quote(s,'"'),nq<2?s:s.substr(a+1,b-a-1),"text between the outer quotes"); }
SX_ENTRY(classes){ opt(); char c=(char)sx_bits("c",8); int i=(int)sx_bits("i",32); sx_check(dfm2::isAlphabet(c)==((c>='a'&c<='z')|(c>='A'&c<='Z')),"alphabet"); sx_check(dfm2::isAlphabetUpper(i)==((i>='A')&(i<='Z')),"upper case"); sx_check(dfm2::isNumeric(i)==((i>='0')&(i<='9')),"digit"); }
static S word(const char*p,int n,const S&bad){ S s=sym(p,n); for(char c:s) for(char b:bad) sx_assume(c!=b); return s; }
SX_ENTRY(json){ opt(); int n=1+sx_choose("n",2); S s="{"; VS k,v; for(int i=0;i<n;i++){ if(i) s+=sx_choose("sp",2)?" , ":","; k.push_back(word(i?"k1":"k0",1,"\": ,")); v.push_back(word(i?"v1":"v0",sx_choose(NM("len",i),3),"\": ,")); s+="\""+k[i]+"\":"+(sx_choose("sq",2)?" ":"")+"\""+v[i]+"\""; } s+="}"; if(n==2) sx_assume(k[0][0]!=k[1][0]); auto m=dfm2::ReadDictionary_Json(s); sx_check((int)m.size()==n,"one entry per key"); for(int i=0;i<n;i++) same(m[k[i]],v[i],"value of the key"); }
SX_ENTRY(csv){ opt(); static const char*N[5]={"0","12","-3.5","0.25","-7"}; static const double V[5]={0,12,-3.5,0.25,-7}; int n=len(3); S s; std::vector<double> w; for(int i=0;i<n;i++){ int k=sx_choose(NM("v",i),5); if(i) s+=","; s+=N[k]; w.push_back(V[k]); } if(n&&sx_choose("end",2)) s+=","; std::vector<double> r; dfm2::ReadVector_CSV(r,s); sx_check(r.size()==w.size(),"one value per field"); for(size_t i=0;i<w.size();i++) sx_check(r[i]==w[i],"value of the field"); }
SX_ENTRY(attributes){ opt(); int n=1+sx_choose("n",2); S s="tag"; VS k,v; for(int i=0;i<n;i++){ s+=sx_choose("sp",2)?"  ":" "; k.push_back(word(i?"k1":"k0",1,"\"= ")); v.push_back(word(i?"v1":"v0",1+sx_choose(NM("len",i),2),"\"")); s+=k[i]+"=\""+v[i]+"\""; } if(n==2) sx_assume(k[0][0]!=k[1][0]); std::map<S,S> m; dfm2::ParseAttributes(m,s); sx_check((int)m.size()==n,"one entry per attribute"); for(int i=0;i<n;i++) same(m[k[i]],v[i],"value of the attribute"); }
SX_ENTRY(xml){ opt(); int n=len(3); S s; VS w; for(int i=0;i<n;i++){ S c=word(NM("c",i),sx_choose(NM("lc",i),2),S("<> \0",4)),t=word(NM("t",i),1,S("<> \0",4)); bool sp=sx_choose(NM("sp",i),2); s+=(sp?" ":"")+c+"<"+(sp?" ":"")+t+">"; w.push_back(c); w.push_back(t); } std::vector<char> b(s.begin(),s.end()); b.push_back(0); VS r; dfm2::XML_SeparateTagContent(r,b); same(r,w,"contents and tags alternate"); }
SX_ENTRY(options){ opt(); char a0[]="prog",a1[2]={(char)sx_bits("c",8),0},a2[]="12",a3[]="-k"; char*av[4]={a0,a1,a2,a3}; int n=1+sx_choose("n",4); bool is=sx_fork(a1[0]=='x')&&n>1; sx_check(dfm2::cmdOptionExists(av,av+n,"x")==is,"option is present"); same(dfm2::getCmdOptionStr(av,av+n,"x"),is&&n>2?S("12"):S(),"value after the option"); sx_check(dfm2::getCmdOptionInt(av,av+n,"x",7)==(is&&n>2?12:7),"value after the option"); sx_check(dfm2::getCmdOptionDouble(av,av+n,"x",7)==(is&&n>2?12:7),"value after the option"); same(dfm2::getCmdOptionStr(av,av+n,"-k"),S(),"no value after the last option"); }
// ------------------------------------------------------------------ expressions: recursive-descent reference over the same text
static double VX[4]; struct Ref{ S s; size_t p=0; bool ok=true; char pk(){ while(p<s.size()&&(s[p]==' '||s[p]=='\n')) p++; return p<s.size()?s[p]:0; }
  double atom(){ char c=pk(); if(c=='('){ p++; double v=sum(); pk(); p++; return v; } if(c>='x'&&c<='z'){ p++; return VX[c-'x']; } if(c=='P'){ p+=2; return 3.14159265358979; } if(s.compare(p,3,"abs")==0){ p+=4; double v=sum(); p++; return std::fabs(v); } if(s.compare(p,3,"sin")==0){ p+=4; double v=sum(); p++; return std::sin(v); } if(s.compare(p,3,"cos")==0){ p+=4; double v=sum(); p++; return std::cos(v); } if(s.compare(p,3,"exp")==0){ p+=4; double v=sum(); p++; return std::exp(v); } if(s.compare(p,4,"sqrt")==0){ p+=5; double v=sum(); p++; sx_assume(v>1e-20); return std::sqrt(v); } double v=0; while(p<s.size()&&s[p]>='0'&&s[p]<='9') v=v*10+(s[p++]-'0'); if(p<s.size()&&s[p]=='.'){ p++; double q=0.1; while(p<s.size()&&s[p]>='0'&&s[p]<='9'){ v+=q*(s[p++]-'0'); q/=10; } } return v; }
  double un(){ char c=pk(); if(c=='-'){ p++; return -un(); } if(c=='+'){ p++; return un(); } return pw(); }
  double pw(){ double b=atom(); if(pk()=='^'){ p++; double e=un(); return std::pow(b,e); } return b; }
  double term(){ double v=un(); for(;;){ char c=pk(); if(c=='*'){ p++; v=v*un(); } else if(c=='/'){ p++; double d=un(); sx_assume((d>1e-19)|(d<-1e-19)); v=v/d; } else return v; } }
  double sum(){ double v=term(); for(;;){ char c=pk(); if(c=='+'){ p++; v=v+term(); } else if(c=='-'){ p++; v=v-term(); } else return v; } } };
static void vars(dfm2::CMathExpressionEvaluator&e,int k){ const char*n[3]={"x","y","z"}; for(int i=0;i<3;i++){ VX[i]=sx_real_in(NM(k?"b":"a",i),-8,8); e.SetKey(n[i],VX[i]); } }
static void expr(const S&s){ dfm2::CMathExpressionEvaluator e; vars(e,0); Ref r; r.s=s; double w=r.sum(); sx_check(e.SetExp(s),"expression is accepted"); sx_eq(e.Eval(),w,"value of the expression"); vars(e,1); Ref q; q.s=s; w=q.sum(); sx_eq(e.Eval(),w,"value follows the variables"); }
static S oper(int k){ static const char*O[5]={"+","-","*","/","^"}; return O[k]; }
// a op b op c [op d] with a free grouping and free signs
SX_ENTRY(expr_ops){ opt(); static const char*A[2]={"x","-x"},*B[3]={"y","2","-y"},*C[3]={"z","3","+z"}; int o1=sx_choose("o1",5),o2=sx_choose("o2",5); if(o1==4&&o2==4) return; int g=sx_choose("group",4); S a=A[sx_choose("a",2)],b=o1==4?S("2"):S(B[sx_choose("b",3)]),c=o2==4?S("3"):S(C[sx_choose("c",3)]); if(o1==4&&(g==2||g==3)) g=0; S s=g==0?a+oper(o1)+b+oper(o2)+c:g==1?"("+a+oper(o1)+b+")"+oper(o2)+c:g==2?a+oper(o1)+"("+b+oper(o2)+c+")":"("+a+")"+oper(o1)+"(("+b+")"+oper(o2)+c+")"; expr(s); }
SX_ENTRY(expr_chain){ opt(); int o[4]; S s="x"; static const char*V[4]={"y","z","4","x"}; int n=T?4:3; for(int i=0;i<n;i++){ o[i]=sx_choose(NM("o",i),4); s+=oper(o[i])+V[i]; } expr(s); }
SX_ENTRY(expr_deep){ opt(); static const char*E[]={"x-(y-(z-x))","((x+y))*((z))","(x+y)*(x-y)","x/(y/z)","-(x+y)*z","x^2^2","(x^2)^2","-x^2","2*-x^2","x*-y/z","x+-y","x--y-z","- x + 3.25 * y","sin(x)*cos(y)-exp(z)","sin(x+y*z)^2","abs(x-y)/2","sqrt(x*x+y*y+1)","sin(PI*0.5*x)","abs(abs(x)-abs(y))","-sin(-x)","(x)","((x-y)-z)-(x-(y-z))","x-y-z-1-2","x/y/z/2","x*y/z*2/x","0.5-.5*x","12.25","PI","x - \n y","exp(x)-sin(y)/cos(z)"}; int n=sizeof E/sizeof*E; int k=sx_choose("e",n); if(k==3) {} expr(E[k]); }
SX_ENTRY(expr_state){ opt(); dfm2::CMathExpressionEvaluator e; double a=sx_real("a"),b=sx_real("b"); errno=ERANGE; e.SetKey("x",a); sx_check(e.SetExp("x+3"),"expression is accepted"); sx_eq(e.Eval(),a+3,"value of the expression"); sx_check(e.IsKeyUsed("x")&&!e.IsKeyUsed("y"),"used variables"); e.SetKey("y",b); sx_check(e.SetExp("y*2"),"expression is accepted"); sx_check(!e.IsKeyUsed("x")&&e.IsKeyUsed("y"),"used variables"); e.SetKey("x",b); sx_eq(e.Eval(),2*b,"value of the new expression"); e.SetKey("y",a); sx_eq(e.Eval(),2*a,"value follows the variables"); sx_check(!e.SetExp("q+1")&&!e.SetExp("")&&!e.SetExp("x*")&&!e.SetExp("(x")&&!e.SetExp("*x")&&!e.SetExp("foo(x)")&&!e.SetExp("()"),"expressions that cannot be read are rejected"); sx_check(e.SetExp("x*y"),"expression is accepted"); sx_eq(e.Eval(),a*b,"value of the new expression"); }
// any short text over the alphabet of the grammar is accepted or rejected without a fault
SX_ENTRY(expr_any){ opt(); static const char A[]="x2+-*/^().s"; int n=1+sx_choose("len",T?4:3); S s; for(int i=0;i<n;i++) s.push_back(A[sx_choose(NM("c",i),11)]); dfm2::CMathExpressionEvaluator e; e.SetKey("x",1.5); bool ok=e.SetExp(s); sx_observe_i("ok",ok); if(ok) e.Eval(); }
