// Bodies for the few out-of-line C / libstdc++ runtime functions the encoded code calls.
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <list>
#include <cstring>
#include <cstdlib>
namespace std {
struct R { int color; R*parent,*left,*right; };
template class basic_string<char>;
}
extern "C" {
typedef std::R R_;
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left,R_*x,R_*p,R_&h){ x->parent=p;x->left=nullptr;x->right=nullptr;x->color=1; if(left){ p->left=x; if(p==&h){ h.parent=x;h.right=x; } else if(p==h.left) h.left=x; } else { p->right=x; if(p==h.right) h.right=x; } }
R_* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(R_*x){ if(x->right){ x=x->right; while(x->left)x=x->left; } else { R_*y=x->parent; while(x==y->right){ x=y;y=y->parent; } if(x->right!=y) x=y; } return x; }
const R_* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const R_*x){ return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base((R_*)x); }
R_* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(R_*x){ if(x->color==0&&x->parent->parent==x) x=x->right; else if(x->left){ R_*y=x->left; while(y->right)y=y->right; x=y; } else { R_*y=x->parent; while(x==y->left){ x=y;y=y->parent; } x=y; } return x; }
const R_* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const R_*x){ return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base((R_*)x); }
R_* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(R_*z,R_&h){ // unbalanced erase
  auto mn=[](R_*n){ while(n->left)n=n->left; return n; }; auto mx=[](R_*n){ while(n->right)n=n->right; return n; };
  auto repl=[&](R_*o,R_*n){ if(h.parent==o) h.parent=n; else if(o->parent->left==o) o->parent->left=n; else o->parent->right=n; if(n) n->parent=o->parent; };
  if(!z->left) repl(z,z->right); else if(!z->right) repl(z,z->left); else { R_*y=mn(z->right); if(y->parent!=z){ repl(y,y->right); y->right=z->right; y->right->parent=y; } repl(z,y); y->left=z->left; y->left->parent=y; y->color=z->color; }
  if(h.parent){ h.left=mn(h.parent); h.right=mx(h.parent); } else { h.left=&h; h.right=&h; } return z; }
}
namespace std { namespace __detail {
struct LN { LN*n,*p; };
}
}
extern "C" {
typedef std::__detail::LN LN_;
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN_*t,LN_*pos){ t->n=pos; t->p=pos->p; pos->p->n=t; pos->p=t; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(LN_*t){ t->p->n=t->n; t->n->p=t->p; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN_*t,LN_*f,LN_*l){ if(t!=l){ l->p->n=t; f->p->n=l; t->p->n=f; LN_*tmp=t->p; t->p=l->p; l->p=f->p; f->p=tmp; } }
void _ZNSt8__detail15_List_node_base7_M_swapERS0_S1_(LN_&x,LN_&y){ abort(); }
void _ZNSt8__detail15_List_node_base10_M_reverseEv(LN_*t){ LN_*c=t; do { LN_*n=c->n; c->n=c->p; c->p=n; c=n; } while(c!=t); }
struct PRP { float mlf; size_t next; };
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(PRP*p,size_t n){ static const size_t pr[]={2,5,11,13,29,59,127,257,541,1109,2357,5087,10273,20753}; for(size_t x:pr) if(x>=n){ p->next=x; return x; } p->next=n|1; return n|1; }
struct PB { bool f; size_t n; };
PB _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(PRP*p,size_t nb,size_t ne,size_t ni){ if(ne+ni>p->next||nb<ne+ni){ size_t want=ne+ni; if(want<2*nb) want=2*nb; if(ne+ni<=nb) { p->next=nb; return {false,0}; } return {true,_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(p,want)}; } return {false,0}; }
size_t _ZSt11_Hash_bytesPKvmm(const void*d,size_t n,size_t seed){ size_t h=seed; auto*p=(const unsigned char*)d; for(size_t i=0;i<n;i++) h=h*31+p[i]; return h; }
}
