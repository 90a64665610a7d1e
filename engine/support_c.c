#include <stddef.h>
#include <stdbool.h>
int isalpha(int);int isdigit(int);int isspace(int);double strtod(const char*,char**);
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int memcmp(const void*a,const void*b,size_t n){ const unsigned char*p=(const unsigned char*)a;const unsigned char*q=(const unsigned char*)b; for(size_t i=0;i<n;i++) if(p[i]!=q[i]) return (int)p[i]-(int)q[i]; return 0; }
int bcmp(const void*a,const void*b,size_t n){ return memcmp(a,b,n); }
void* memchr(const void*a,int c,size_t n){ const unsigned char*p=(const unsigned char*)a; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return ((void*)0); }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ if(a[i]!=b[i]) return (int)(unsigned char)a[i]-(int)(unsigned char)b[i]; if(!a[i]) return 0; } return 0; }
char* strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char* strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char* strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return ((void*)0); } }
char* strrchr(const char*s,int c){ const char*r=((void*)0); for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* strstr(const char*h,const char*n){ size_t m=strlen(n); for(;;h++){ if(strncmp(h,n,m)==0) return (char*)h; if(!*h) return ((void*)0); } }
int isspace(int c){ return c==' '||(c>=9&&c<=13); } int isdigit(int c){ return c>='0'&&c<='9'; } int isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } int isalnum(int c){ return isalpha(c)||isdigit(c); } int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; } int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
static double sx_strtod(const char*s,const char**e){ const char*p=s; while(isspace(*p))p++; bool neg=false; if(*p=='-'||*p=='+'){neg=*p=='-';p++;} double v=0; bool any=false; while(isdigit(*p)){ v=v*10+(*p-'0');p++;any=true; } if(*p=='.'){ p++; double sc=1; while(isdigit(*p)){ v=v*10+(*p-'0'); sc=sc*10; p++;any=true; } v=v/sc; } if(any&&(*p=='e'||*p=='E')){ const char*q=p+1; bool en=false; if(*q=='-'||*q=='+'){en=*q=='-';q++;} if(isdigit(*q)){ int x=0; while(isdigit(*q)){ if(x<400) x=x*10+(*q-'0'); q++; } for(int i=0;i<x;i++) v=en?v/10:v*10; p=q; } } if(!any) p=s; if(e)*e=p; return neg?-v:v; }
double strtod(const char*s,char**e){ const char*q; double v=sx_strtod(s,&q); if(e)*e=(char*)q; return v; }
float strtof(const char*s,char**e){ return (float)strtod(s,e); }
double atof(const char*s){ return sx_strtod(s,((void*)0)); }
long strtol(const char*s,char**e,int base){ const char*p=s; while(isspace(*p))p++; bool neg=false; if(*p=='-'||*p=='+'){neg=*p=='-';p++;} long v=0; bool any=false; while(isdigit(*p)){ v=v*10+(*p-'0');p++;any=true; } if(!any)p=s; if(e)*e=(char*)p; return neg?-v:v; }
long __isoc23_strtol(const char*s,char**e,int b){ return strtol(s,e,b); }
int atoi(const char*s){ return (int)strtol(s,((void*)0),10); }
int* __errno_location(){ static int e; return &e; }
/* compiler-rt complex helpers (finite arguments) */
_Complex double __divdc3(double a,double b,double c,double d){ double q=c*c+d*d; return __builtin_complex((a*c+b*d)/q,(b*c-a*d)/q); }
_Complex double __muldc3(double a,double b,double c,double d){ return __builtin_complex(a*c-b*d,a*d+b*c); }
/* glibc: no other threads exist in the program under analysis (sx_co_* threads are cooperative) */
char __libc_single_threaded=1;
