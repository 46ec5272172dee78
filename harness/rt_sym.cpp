// Linked into the bitcode only: replacements for the out-of-line parts of libstdc++ that std::set/std::map need.
// An unbalanced binary search tree: the order of nodes (all that is observable) is the same as in the red-black tree.
#define _GLIBCXX_USE_CXX11_ABI 1
#include <bits/stl_tree.h>
#include <list>
extern "C" { char __libc_single_threaded=1; }
namespace std {
  typedef _Rb_tree_node_base B; typedef _Rb_tree_node_base* P;
  static P inc(P x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { P y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
  static P dec(P x){ if(x->_M_color==_S_red && x->_M_parent && x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ P y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { P y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
  P _Rb_tree_increment(P x) throw() { return inc(x); }
  const B* _Rb_tree_increment(const B* x) throw() { return inc(const_cast<P>(x)); }
  P _Rb_tree_decrement(P x) throw() { return dec(x); }
  const B* _Rb_tree_decrement(const B* x) throw() { return dec(const_cast<P>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, B& h) throw() {
    x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
    if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
  static void transplant(P u, P v, B& h){ if(u==h._M_parent) h._M_parent=v; else if(u==u->_M_parent->_M_left) u->_M_parent->_M_left=v; else u->_M_parent->_M_right=v; if(v) v->_M_parent=u->_M_parent; }
  P _Rb_tree_rebalance_for_erase(P const z, B& h) throw() {
    P nl=h._M_left, nr=h._M_right;
    if(z==nl) nl=inc(z); if(z==nr) nr=dec(z); if(z==h._M_left&&z==h._M_right){ nl=&h; nr=&h; }
    if(!z->_M_left) transplant(z,z->_M_right,h); else if(!z->_M_right) transplant(z,z->_M_left,h);
    else { P y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y->_M_parent!=z){ transplant(y,y->_M_right,h); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } transplant(z,y,h); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
    h._M_left=nl; h._M_right=nr; return z; }
}
// the out-of-line parts of std::list
namespace std { namespace __detail { typedef _List_node_base LB;
  void LB::_M_hook(LB* const p) throw() { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
  void LB::_M_unhook() throw() { LB* n=_M_next; LB* q=_M_prev; q->_M_next=n; n->_M_prev=q; }
  void LB::_M_transfer(LB* const f, LB* const l) throw() { if(this==l) return; l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; LB* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; }
  void LB::_M_reverse() throw() { LB* t=this; do { LB* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while(t!=this); }
  void LB::swap(LB& x,LB& y) throw() { if(x._M_next!=&x){ if(y._M_next!=&y){ LB* a=x._M_next; x._M_next=y._M_next; y._M_next=a; a=x._M_prev; x._M_prev=y._M_prev; y._M_prev=a; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
} }
