// C06: kd-tree construction and nearest search
#include "sx.h"
#include <vector>
#include <limits>
#include <cstdlib>
#include "delfem2/vec3.h"
#include "delfem2/srch_kdtree.h"
namespace dfm2=delfem2; typedef dfm2::CVec3d V; typedef dfm2::KDTNodePoint<V> K; static const int T=SX_TIER;
static void opt(){ sx_opt("max_ite",0); sx_opt("check_ms",8000); }
static int cnt; static void drop(K*k){ if(!k) return; drop(k->leftChild); drop(k->rightChild); delete k; }
// every node below k must lie on the given side of the separator along the axis
static void side(const K*k,const V&s,int ax,bool right){ if(!k) return; if(right) sx_le(s.p[ax],k->separator.p[ax],"right subtree is on the upper side"); else sx_le(k->separator.p[ax],s.p[ax],"left subtree is on the lower side"); side(k->leftChild,s,ax,right); side(k->rightChild,s,ax,right); }
static int walk(const K*k,int depth,std::vector<V>&out){ cnt++; sx_check(cnt<20,"finite tree"); if(cnt>=20) return 0; out.push_back(k->separator); int a=0,b=0; if(k->leftChild){ sx_check(k->leftChild->parent==k,"child links back"); side(k->leftChild,k->separator,depth%3,false); a=walk(k->leftChild,depth+1,out); } if(k->rightChild){ sx_check(k->rightChild->parent==k,"child links back"); side(k->rightChild,k->separator,depth%3,true); b=walk(k->rightChild,depth+1,out); } sx_check(a-b<=1&&b-a<=1,"tree is balanced"); return 1+a+b; }
SX_ENTRY(build){ opt(); int n=1+sx_choose("n",T?6:5); std::vector<V> p; static const double F[6][3]={{0,0,0},{1,0,2},{1,3,1},{-1,1,0},{1,-1,2},{0,2,2}}; for(int i=0;i<n;i++){ V v(F[i][0],F[i][1],F[i][2]); int mode=sx_choose("m",1); (void)mode; if(i<4||T) v.p[0]=sx_real_in("x",-9,9); if(i<3) v.p[1]=sx_real_in("y",-9,9); if(i==0) v.p[2]=sx_real_in("z",-9,9); p.push_back(v); } std::vector<V> in=p; K*r=dfm2::ConstructKDT(p); sx_check(r->parent==nullptr,"root has no parent"); std::vector<V> o; cnt=0; sx_check(walk(r,0,o)==n,"one node per point"); bool same=true; for(int i=0;i<n;i++) for(int k=0;k<3;k++) same=same&(p[i].p[k]==in[i].p[k]); sx_check(same,"input left untouched"); for(int i=0;i<n;i++){ int a=0,b=0; for(int j=0;j<n;j++){ a+=(in[j].p[0]==in[i].p[0])&(in[j].p[1]==in[i].p[1])&(in[j].p[2]==in[i].p[2]); b+=(o[j].p[0]==in[i].p[0])&(o[j].p[1]==in[i].p[1])&(o[j].p[2]==in[i].p[2]); } sx_check(a==b,"each point stored exactly as often as given"); } drop(r); }
static double D2(const V&a,const V&b){ double s=0; for(int k=0;k<3;k++) s+=(a.p[k]-b.p[k])*(a.p[k]-b.p[k]); return s; }
static void query(const std::vector<V>&p,const V&q){ K*r=dfm2::ConstructKDT(p); V a=dfm2::SearchNearstPoint(r,q); double d=D2(a,q); bool in=false; for(auto&v:p){ sx_le(d,D2(v,q),"no point is nearer"); in=in|((v.p[0]==a.p[0])&(v.p[1]==a.p[1])&(v.p[2]==a.p[2])); } sx_check(in,"the answer is one of the points"); drop(r); }
static const double L[6][7][3]={{{0,0,0},{3,1,-1},{-2,2,1},{1,-3,2},{2,2,-2},{-1,-1,3},{4,0,0}},{{1,1,1},{1,1,1},{1,2,1},{1,2,1},{1,1,3},{1,0,1},{1,1,2}},{{0,0,0},{0,0,1},{0,1,0},{0,1,1},{1,0,0},{1,0,1},{1,1,0}},{{-3,0,0},{-2,0,0},{-1,0,0},{0,0,0},{1,0,0},{2,0,0},{3,0,0}},{{0,-3,5},{0,-2,-4},{0,-1,3},{0,0,-2},{0,1,1},{0,2,0},{0,3,6}},{{2,5,1},{2,-4,0},{-2,3,1},{-2,-2,0},{2,1,3},{-2,0,-3},{0,0,0}}};
SX_ENTRY(nearest_fixed){ opt(); int n=1+sx_choose("n",7),l=sx_choose("layout",6); std::vector<V> p; for(int i=0;i<n;i++) p.push_back(V(L[l][i][0],L[l][i][1],L[l][i][2])); int w=sx_choose("line",T?9:5); double s=sx_real_in("s",-8,8); static const double O[9][3]={{0,0.5,0.25},{1,0,1},{0,2,0},{0,0,0},{1,1,0},{-1,3,2},{2,-2,0},{0,-4,3},{5,0,0}},G[9][3]={{1,0,0},{0,1,0},{0,0,1},{1,1,0},{0,1,-1},{1,-1,1},{0,1,0.5},{1,0,0},{0,1,1}}; query(p,V(O[w][0]+s*G[w][0],O[w][1]+s*G[w][1],O[w][2]+s*G[w][2])); }
SX_ENTRY(nearest_moving){ opt(); int n=2+sx_choose("n",T?4:3),l=sx_choose("layout",T?6:4),k=sx_choose("axis",3),m=sx_choose("who",2); std::vector<V> p; for(int i=0;i<n;i++) p.push_back(V(L[l][i][0],L[l][i][1],L[l][i][2])); double s=sx_real_in("s",-6,6); p[m?n-1:0].p[k]=s; static const double Q[4][3]={{0,0,0},{1,1,0.5},{-1,0.5,2},{0.5,-2,0.75}}; int w=sx_choose("q",T?4:2); query(p,V(Q[w][0],Q[w][1],Q[w][2])); }
SX_ENTRY(nearest_plane){ opt(); int l=sx_choose("layout",T?6:3),n=3+(T?sx_choose("n",2):0); std::vector<V> p; for(int i=0;i<n;i++) p.push_back(V(L[l][i][0],L[l][i][1],L[l][i][2])); query(p,V(sx_real_in("qx",-6,6),sx_real_in("qy",-6,6),0.25)); }
