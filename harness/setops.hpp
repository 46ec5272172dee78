// One operation applied to an arbitrary well-formed interval set; content (probe) and structure (cuts) checks.
#pragma once
#include "sets.hpp"
enum SetOp { OP_ADD, OP_SUB, OP_AND, OP_XOR };
enum { W_CONTENT=1, W_STRUCT=2 };
inline bool combine(SetOp o,bool a,bool b){ return o==OP_ADD? (a|b) : o==OP_SUB? (a&!b) : o==OP_AND? (a&b) : (a!=b); }

// ---- ways to apply an operation; F selects which (negative: any of them, chosen symbolically)
template<SetOp O,class C,class A> SX_NOINLINE void applyMut(C& c,const A& a,int F){
  if constexpr (O==OP_ADD){ switch(F>=0?F:(int)sx_choose(8)){ case 0: c.add(a); break; case 1: c+=a; break; case 2: c|=a; break; case 3: c.insert(a); break; case 4: icl::add(c,a); break; case 5: icl::insert(c,a); break; case 6: c.add(a).add(a); break; default: (c+=a)+=a; break; } }
  else if constexpr (O==OP_SUB){ switch(F>=0?F:(int)sx_choose(6)){ case 0: c.subtract(a); break; case 1: c-=a; break; case 2: c.erase(a); break; case 3: icl::subtract(c,a); break; case 4: icl::erase(c,a); break; default: (c-=a)-=a; break; } }
  else if constexpr (O==OP_AND){ switch(F>=0?F:(int)sx_choose(2)){ case 0: c&=a; break; default: { C s; icl::add_intersection(s,c,a); c.swap(s); break; } } }
  else { switch(F>=0?F:(int)sx_choose(4)){ case 0: c^=a; break; case 1: c.flip(a); break; case 2: icl::flip(c,a); break; default: (c^=a)^=a; c^=a; break; } } }
// whole-container operands: in place forms
template<SetOp O,class C,class A> SX_NOINLINE void applyMutSet(C& c,const A& a,int F){
  if constexpr (O==OP_ADD){ switch(F>=0?F:(int)sx_choose(3)){ case 0: c+=a; break; case 1: c|=a; break; default: icl::insert(c,a); break; } }
  else if constexpr (O==OP_SUB){ switch(F>=0?F:(int)sx_choose(2)){ case 0: c-=a; break; default: icl::erase(c,a); break; } }
  else if constexpr (O==OP_AND){ switch(F>=0?F:(int)sx_choose(2)){ case 0: c&=a; break; default: { C s; icl::add_intersection(s,c,a); c.swap(s); break; } } }
  else { switch(F>=0?F:(int)sx_choose(2)){ case 0: c^=a; break; default: icl::flip(c,a); break; } } }
// forms returning a new container (of whatever type the library chooses)
template<SetOp O,class C,class A,class B_> SX_NOINLINE void applyNew(const C& c,const A& a,int F,B_ body){
  if constexpr (O==OP_ADD){ switch(F>=0?F:(int)sx_choose(6)){ case 0: body(c+a); break; case 1: body(a+c); break; case 2: body(C(c)+a); break; case 3: body(a+C(c)); break; case 4: body(c|a); break; default: body(a|C(c)); break; } }
  else if constexpr (O==OP_SUB){ switch(F>=0?F:(int)sx_choose(2)){ case 0: body(c-a); break; default: body(C(c)-a); break; } }
  else if constexpr (O==OP_AND){ switch(F>=0?F:(int)sx_choose(4)){ case 0: body(c&a); break; case 1: body(a&c); break; case 2: body(C(c)&a); break; default: body(a&C(c)); break; } }
  else { switch(F>=0?F:(int)sx_choose(4)){ case 0: body(c^a); break; case 1: body(a^c); break; case 2: body(C(c)^a); break; default: body(a^C(c)); break; } } }

// ---- expected borders. b: touching segments meet at p in the result
template<class C,int N> inline bool cutOld(const Segs<typename C::interval_type,N>& g,typename IT<typename C::interval_type>::P p){ return g.border(p) & g.mem(p) & g.memL(p); }
template<class C,SetOp O,int N,class RA> bool expectCut(const Segs<typename C::interval_type,N>& g,RA a,typename IT<typename C::interval_type>::P p){
  constexpr Style st=StyleOf<C>::v; if(st==JOIN) return false;
  bool in=combine(O,g.mem(p),has(a,p)), inL=combine(O,g.memL(p),hasL(a,p)), both=in&inL; bool bA=nonempty(a)&(eq(a.s,p)|eq(a.e,p)); bool old=g.border(p);
  if(O==OP_SUB||O==OP_AND) return both & old;
  if(st==SPLIT) return both & (old|bA);
  if(O==OP_ADD){ // separating: the operand swallows everything it overlaps
    if(!nonempty(a)) return both&old;
    bool swallowedR=has(a,p), swallowedL=hasL(a,p); bool same=false; for(int i=0;i<N;i++) if(i<g.n){ auto r=g.r(i); bool ov=overlap(r,a); swallowedR|= ov&has(r,p); swallowedL|= ov&hasL(r,p); same|=inner(r,p); }
    return both & !(swallowedR&swallowedL) & !same; }
  // flip: what was there keeps its borders, what is new meets it with a border
  return both & (old|bA); }

template<class C,SetOp O,int N,int F=-1,int W=W_CONTENT> void setSeg(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g);
  auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); auto x=symPos<I>("x"); auto r=IT<I>::rng(s);
  applyMut<O>(c,a,F); obsSet(c);
  if(W&W_CONTENT) sx_check(memAt(c,x)==combine(O,g.mem(x),has(r,x)),"content after an operation with an interval");
  if(W&W_STRUCT){ wellFormed(c); sx_check(cutAt(c,x)==expectCut<C,O,N>(g,r,x),"borders after an operation with an interval"); } }

template<class C,SetOp O,int N,int F=-1,int W=W_CONTENT> void setElem(){ typedef typename C::interval_type I; typedef typename IT<I>::D D; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g);
  auto o=D::sym("elem"); typename C::element_type a=D::from(o); auto x=symPos<I>("x"); typename IT<I>::R r; r.s=D::before(o); r.e=D::after(o);
  applyMut<O>(c,a,F); obsSet(c);
  if(W&W_CONTENT) sx_check(memAt(c,x)==combine(O,g.mem(x),has(r,x)),"content after an operation with an element");
  if(W&W_STRUCT){ wellFormed(c); sx_check(cutAt(c,x)==expectCut<C,O,N>(g,r,x),"borders after an operation with an element"); } }

template<class C,SetOp O,int N,int F=-1,int W=W_CONTENT> void setNewSeg(){ typedef typename C::interval_type I; typedef typename IT<I>::D D; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g);
  auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); auto x=symPos<I>("x"); auto r=IT<I>::rng(s); applyNew<O>(c,a,F,[&](const auto& d){ obsSet(d);
  if(W&W_CONTENT){ sx_check(memAt(d,x)==combine(O,g.mem(x),has(r,x)),"content of a new set computed with an interval"); sameSegs(c,g,"the operand set is unchanged"); }
  if(W&W_STRUCT){ wellFormed(d); sx_check(cutAt(d,x)==expectCut<C,O,N>(g,r,x),"borders of a new set computed with an interval"); } }); }
template<class C,SetOp O,int N,int F=-1,int W=W_CONTENT> void setNewElem(){ typedef typename C::interval_type I; typedef typename IT<I>::D D; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g);
  auto o=D::sym("elem"); typename C::element_type a=D::from(o); auto x=symPos<I>("x"); typename IT<I>::R r; r.s=D::before(o); r.e=D::after(o); applyNew<O>(c,a,F,[&](const auto& d){ obsSet(d);
  if(W&W_CONTENT){ sx_check(memAt(d,x)==combine(O,g.mem(x),has(r,x)),"content of a new set computed with an element"); sameSegs(c,g,"the operand set is unchanged"); }
  if(W&W_STRUCT){ wellFormed(d); sx_check(cutAt(d,x)==expectCut<C,O,N>(g,r,x),"borders of a new set computed with an element"); } }); }

// operand: a whole set B (any style)
template<class C,class B,SetOp O,int N,int M> bool expectCutSet(const Segs<typename C::interval_type,N>& g,const Segs<typename C::interval_type,M>& h,typename IT<typename C::interval_type>::P p){
  constexpr Style st=StyleOf<C>::v; if(st==JOIN) return false;
  bool both=combine(O,g.mem(p),h.mem(p))&combine(O,g.memL(p),h.memL(p)); bool bg=g.border(p), bh=h.border(p);
  if(O==OP_SUB) return both&bg; return both&(bg|bh); }
template<class C,class B,SetOp O,int N,int M,int F=-1,int W=W_CONTENT,bool New=false> void setSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g);
  Segs<I,M> h; symSegs<B,M>(h,"arg"); B b; fill(b,h); auto x=symPos<I>("x");
  auto chk=[&](const auto& d){ typedef typename std::decay<decltype(d)>::type DT; obsSet(d); bool m=memAt(d,x), cu=cutAt(d,x);
    if(W&W_CONTENT){ sx_check(m==combine(O,g.mem(x),h.mem(x)),"content after an operation with a set"); sameSegs(b,h,"the operand set is unchanged"); if(New) sameSegs(c,g,"the left operand is unchanged"); }
    if(W&W_STRUCT){ wellFormed(d); if(!(StyleOf<DT>::v==SEP&&(O==OP_ADD||O==OP_XOR))) sx_check(cu==expectCutSet<DT,B,O,N,M>(g,h,x),"borders after an operation with a set"); } };
  if constexpr (New) applyNew<O>(c,b,F,chk); else { applyMutSet<O>(c,b,F); chk(c); } }
// add a whole set to a separating set: fold of interval adds
template<class T> using RO=icl::right_open_interval<T>; template<class T> using LO=icl::left_open_interval<T>; template<class T> using CL=icl::closed_interval<T>; template<class T> using OP=icl::open_interval<T>;
template<class T,class I> using Js=icl::interval_set<T,std::less,I>; template<class T,class I> using Ss=icl::separate_interval_set<T,std::less,I>; template<class T,class I> using Ps=icl::split_interval_set<T,std::less,I>;
template<class T> using DI=icl::discrete_interval<T>; template<class T> using CI=icl::continuous_interval<T>;
template<class T> using DG=icl::discrete_interval<T,std::greater>;
