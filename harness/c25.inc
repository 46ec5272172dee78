// element sets (std::set) and element maps (icl::map)
#include "elems.hpp"
#ifdef THOROUGH
enum { NS=5, NB=4 };
#else
enum { NS=4, NB=3 };
#endif
using namespace boost::icl;
enum { S_ADD,S_SUB,S_AND,S_XOR };
inline bool sref(int o,bool a,bool b){ return o==S_ADD?a|b:o==S_SUB?a&!b:o==S_AND?a&b:a!=b; }
// element operand
template<class C,int O,int N> void elS(){ typedef typename C::key_type D; D x=Dom<D>::sym("x"); Keys<D,N> g; symKeys<C>(g,"pre"); C c; fillK(c,g); D k=Dom<D>::sym("arg");
  if constexpr (O==S_ADD){ switch((int)sx_choose(8)){ case 0: icl::add(c,k); break; case 1: c+=k; break; case 2: c|=k; break; case 3: icl::insert(c,k); break; case 4: { C d=c+k; c.swap(d); break; } case 5: { C d=k|C(c); c.swap(d); break; } case 6: { uint64_t i=sx_choose(N+1); auto h=c.begin(); for(;i&&h!=c.end();--i) ++h; auto r=icl::add(c,h,k); sx_check(r!=c.end()&&*r==k,"hinted addition returns the element"); break; } default: { auto r=icl::insert(c,c.end(),k); sx_check(r!=c.end()&&*r==k,"hinted insertion returns the element"); } } }
  else if constexpr (O==S_SUB){ switch((int)sx_choose(4)){ case 0: icl::subtract(c,k); break; case 1: c-=k; break; case 2: { auto n=icl::erase(c,k); sx_check(n==(g.mem(k)?1u:0u),"erase returns the number of erased elements"); break; } default: { C d=c-k; c.swap(d); } } }
  else if constexpr (O==S_AND){ switch((int)sx_choose(4)){ case 0: c&=k; break; case 1: { C d=c&k; c.swap(d); break; } case 2: { C d=k&C(c); c.swap(d); break; } default: { C s; icl::add_intersection(s,c,k); c.swap(s); } } }
  else { switch((int)sx_choose(4)){ case 0: c^=k; break; case 1: icl::flip(c,k); break; case 2: { C d=c^k; c.swap(d); break; } default: { C d=k^C(c); c.swap(d); } } }
  obsK(c); sx_check(hasK(c,x)==sref(O,g.mem(x),k==x),"membership after the operation"); uint64_t n=0; for(int i=0;i<g.n;i++) n+=sref(O,true,g.k[i]==k); n+=!g.mem(k)&&sref(O,false,true); sx_check(c.size()==n,"number of elements after the operation"); }
template<class C,int O,int N,int M> void setS(){ typedef typename C::key_type D; D x=Dom<D>::sym("x"); Keys<D,N> g; symKeys<C>(g,"pre"); C c; fillK(c,g); Keys<D,M> h; symKeys<C>(h,"arg"); C b; fillK(b,h);
  if constexpr (O==S_ADD){ switch((int)sx_choose(5)){ case 0: c+=b; break; case 1: c|=b; break; case 2: icl::insert(c,b); break; case 3: { C d=c+b; c.swap(d); break; } default: { C d=c|b; c.swap(d); } } }
  else if constexpr (O==S_SUB){ switch((int)sx_choose(3)){ case 0: c-=b; break; case 1: icl::erase(c,b); break; default: { C d=c-b; c.swap(d); } } }
  else if constexpr (O==S_AND){ switch((int)sx_choose(3)){ case 0: c&=b; break; case 1: { C d=c&b; c.swap(d); break; } default: { C s; icl::add_intersection(s,c,b); c.swap(s); } } }
  else { switch((int)sx_choose(2)){ case 0: c^=b; break; default: { C d=c^b; c.swap(d); } } }
  obsK(c); sx_check(hasK(c,x)==sref(O,g.mem(x),h.mem(x)),"membership after the operation"); uint64_t n=0; for(int i=0;i<g.n;i++) n+=sref(O,true,h.mem(g.k[i])); for(int i=0;i<h.n;i++) n+=!g.mem(h.k[i])&&sref(O,false,true); sx_check(c.size()==n,"number of elements after the operation"); sameK(b,h,"the operand is left unchanged"); }
template<class C,int N,int M> void relS(){ typedef typename C::key_type D; Keys<D,N> g; symKeys<C>(g,"pre"); C c; fillK(c,g); 
  if(sx_choose(3)==0){ D k=Dom<D>::sym("arg"); bool e=g.mem(k); sx_check(icl::contains(c,k)==e,"contains element"); sx_check(icl::within(k,c)==e,"element within"); sx_check(icl::intersects(c,k)==e,"intersects element"); sx_check(icl::disjoint(c,k)==!e,"disjoint from element"); sx_check(icl::is_empty(c)==(g.n==0),"is_empty"); sx_check(icl::size(c)==(uint64_t)g.n&&icl::cardinality(c)==(uint64_t)g.n&&icl::iterative_size(c)==(uint64_t)g.n,"size"); return; }
  Keys<D,M> h; symKeys<C>(h,"arg"); C b; fillK(b,h); bool sub=true,sup=true,hit=false; for(int i=0;i<h.n;i++){ sub&=g.mem(h.k[i]); hit|=g.mem(h.k[i]); } for(int i=0;i<g.n;i++) sup&=h.mem(g.k[i]);
  switch((int)sx_choose(3)){ case 0: sx_check(icl::contains(c,b)==sub,"contains set"); sx_check(icl::within(b,c)==sub,"set within"); break; case 1: sx_check(icl::intersects(c,b)==hit,"intersects set"); sx_check(icl::disjoint(c,b)==!hit,"disjoint from set"); break;
   default: sx_check(icl::is_element_equal(c,b)==(sub&sup),"is_element_equal"); int r=icl::inclusion_compare(c,b); sx_check(r==((sup?icl::inclusion::subset:0)|(sub?icl::inclusion::superset:0)),"inclusion_compare"); } }
// ---- maps
// pair operand
template<class T,MapOp O,int N> void elM(){ typedef typename T::C C; typedef typename T::D D; D x=Dom<D>::sym("x"); EM<T,N> g; symE<T,N>(g,"pre"); C c; fillE<T,N>(c,g); D k=Dom<D>::sym("arg"); auto v=T::K::sym("argvalue"); typename T::El a(k,v);
  if constexpr (O==M_XOR && T::absorb) sx_assume(!veq(v,T::K::id()));
  if constexpr (O==M_ADD){ switch((int)sx_choose(8)){ case 0: c.add(a); break; case 1: c+=a; break; case 2: c|=a; break; case 3: icl::add(c,a); break; case 4: { C d=c+a; c.swap(d); break; } case 5: { C d=a|C(c); c.swap(d); break; } case 6: { C d=a+C(c); c.swap(d); break; } default: { uint64_t i=sx_choose(N+1); auto h=c.begin(); for(;i&&h!=c.end();--i) ++h; auto r=icl::add(c,h,a); auto e=expectM<T,M_ADD>(g.at(k),true,v); if(!(T::absorb&&veq(v,T::K::id()))){ sx_check((r!=c.end())==e.d,"hinted addition returns the element or the end"); if(r!=c.end()) sx_check((*r).first==k&&veq((*r).second,e.v),"hinted addition returns the element"); } } } }
  else if constexpr (O==M_SUB){ switch((int)sx_choose(4)){ case 0: c.subtract(a); break; case 1: c-=a; break; case 2: icl::subtract(c,a); break; default: { C d=c-a; c.swap(d); } } }
  else if constexpr (O==M_INS){ switch((int)sx_choose(4)){ case 0: c.insert(a); break; case 1: icl::insert(c,a); break; case 2: { uint64_t i=sx_choose(N+1); auto h=c.begin(); for(;i&&h!=c.end();--i) ++h; icl::insert(c,h,a); break; } default: if(g.n==0){ C d(a); c.swap(d); } else c.insert(a); } }
  else if constexpr (O==M_SET){ switch((int)sx_choose(2)){ case 0: c.set(a); break; default: icl::set_at(c,a); } }
  else if constexpr (O==M_ERP){ auto n=sx_choose(2)?c.erase(a):icl::erase(c,a); auto m=g.at(k); sx_check(n==((m.d&veq(m.v,v))?1u:0u),"erase returns the number of erased elements"); }
  else if constexpr (O==M_AND){ switch((int)sx_choose(4)){ case 0: c&=a; break; case 1: { C s; icl::add_intersection(s,c,a); c.swap(s); break; } case 2: { C d=c&a; c.swap(d); break; } default: { C d=a&C(c); c.swap(d); } } }
  else { switch((int)sx_choose(5)){ case 0: c^=a; break; case 1: c.flip(a); break; case 2: icl::flip(c,a); break; case 3: { C d=c^a; c.swap(d); break; } default: { C d=a^C(c); c.swap(d); } } }
  wellE<T>(c); sx_check(mveq(atE<T>(c,x),expectM<T,O>(g.at(x),k==x,v)),"value at every key after the operation"); }
// key operand
template<class T,MapOp O,int N> void keyM(){ typedef typename T::C C; typedef typename T::D D; D x=Dom<D>::sym("x"); EM<T,N> g; symE<T,N>(g,"pre"); C c; fillE<T,N>(c,g); D k=Dom<D>::sym("arg");
  if constexpr (O==M_ERK){ switch((int)sx_choose(4)){ case 0: c.erase(k); break; case 1: c.subtract(k); break; case 2: icl::subtract(c,k); break; default: { auto n=icl::erase(c,k); sx_check(n==(g.at(k).d?1u:0u),"erase returns the number of erased elements"); } } }
  else { switch((int)sx_choose(4)){ case 0: c&=k; break; case 1: { C s; icl::add_intersection(s,c,k); c.swap(s); break; } case 2: { C d=c&k; c.swap(d); break; } default: { C d=k&C(c); c.swap(d); } } }
  wellE<T>(c); sx_check(mveq(atE<T>(c,x),expectM<T,O>(g.at(x),k==x,T::K::id())),"value at every key after the operation"); }
template<class T,MapOp O,int N,int M> void setM(){ typedef typename T::C C; typedef typename T::D D; typedef typename C::set_type B; D x=Dom<D>::sym("x"); EM<T,N> g; symE<T,N>(g,"pre"); C c; fillE<T,N>(c,g); Keys<D,M> h; symKeys<B>(h,"arg"); B b; fillK(b,h);
  if constexpr (O==M_ERK){ switch((int)sx_choose(3)){ case 0: icl::erase(c,b); break; case 1: c-=b; break; default: { C d=c-b; c.swap(d); } } }
  else { switch((int)sx_choose(4)){ case 0: c&=b; break; case 1: { C s; icl::add_intersection(s,c,b); c.swap(s); break; } case 2: { C d=c&b; c.swap(d); break; } default: { C d=b&C(c); c.swap(d); } } }
  wellE<T>(c); sx_check(mveq(atE<T>(c,x),expectM<T,O>(g.at(x),h.mem(x),T::K::id())),"value at every key after the operation"); sameK(b,h,"the operand is left unchanged"); }
template<class T,MapOp O,int N,int M> void mapM(){ typedef typename T::C C; typedef typename T::D D; D x=Dom<D>::sym("x"); EM<T,N> g; symE<T,N>(g,"pre"); C c; fillE<T,N>(c,g); EM<T,M> h; symE<T,M>(h,"arg"); C b; fillE<T,M>(b,h);
  if constexpr (O==M_ADD){ switch((int)sx_choose(4)){ case 0: c+=b; break; case 1: c|=b; break; case 2: { C d=c+b; c.swap(d); break; } default: { C d=c|b; c.swap(d); } } }
  else if constexpr (O==M_SUB){ switch((int)sx_choose(2)){ case 0: c-=b; break; default: { C d=c-b; c.swap(d); } } }
  else if constexpr (O==M_INS){ switch((int)sx_choose(2)){ case 0: icl::insert(c,b); break; default: c.insert(b.begin(),b.end()); } }
  else if constexpr (O==M_ERP) icl::erase(c,b);
  else if constexpr (O==M_AND){ switch((int)sx_choose(2)){ case 0: c&=b; break; default: { C d=c&b; c.swap(d); } } }
  else { switch((int)sx_choose(2)){ case 0: c^=b; break; default: { C d=c^b; c.swap(d); } } }
  wellE<T>(c); auto m=h.at(x); sx_check(mveq(atE<T>(c,x),expectM<T,O>(g.at(x),m.d,m.v)),"value at every key after the operation"); sameE<T,M>(b,h,"the operand is left unchanged"); }
template<class V> inline int vinc(V a,V b){ return veq(a,b)?3:0; } inline int vinc(BS a,BS b){ return inclusion_compare(a,b); }
template<class T,int N,int M> void relM(){ typedef typename T::C C; typedef typename T::D D; typedef typename C::set_type SB; EM<T,N> g; symE<T,N>(g,"pre"); C c; fillE<T,N>(c,g);
  switch((int)sx_choose(4)){ case 0: { D k=Dom<D>::sym("arg"); auto v=T::K::sym("argvalue"); auto m=g.at(k); typename T::El a(k,v); bool e=m.d, p=m.d&veq(m.v,v); sx_check(icl::contains(c,k)==e,"contains key"); sx_check(icl::within(k,c)==e,"key within"); sx_check(icl::contains(c,a)==p,"contains pair"); sx_check(icl::within(a,c)==p,"pair within"); sx_check(c.contains(a)==p,"contains pair (member)"); sx_check(icl::intersects(c,k)==(T::total|e),"intersects key"); sx_check(icl::disjoint(c,k)==!(T::total|e),"disjoint from key"); bool q=T::total|expectM<T,M_AND>(m,true,v).d; sx_check(icl::intersects(c,a)==q,"intersects pair"); sx_check(icl::disjoint(c,a)==!q,"disjoint from pair"); sx_check(veq(c(k),m.v),"total selection"); sx_check(icl::is_empty(c)==(g.n==0),"is_empty"); sx_check(icl::size(c)==(uint64_t)g.n&&icl::cardinality(c)==(uint64_t)g.n&&c.iterative_size()==(uint64_t)g.n,"size"); break; }
  case 1: { Keys<D,M> h; symKeys<SB>(h,"arg"); SB b; fillK(b,h); bool sub=true,hit=false; for(int i=0;i<h.n;i++){ bool d=g.at(h.k[i]).d; sub&=d; hit|=d; } sx_check(icl::contains(c,b)==sub,"contains key set"); sx_check(icl::within(b,c)==sub,"key set within"); sx_check(icl::intersects(c,b)==(T::total|hit),"intersects key set"); sx_check(icl::disjoint(c,b)==!(T::total|hit),"disjoint from key set"); SB d; if(sx_choose(2)) d.insert(Dom<D>::sym("old")); icl::domain(d,c); bool ok=d.size()==(uint64_t)g.n; for(int i=0;i<g.n;i++) ok&=d.find(g.k[i])!=d.end(); sx_check(ok,"the domain is the set of keys"); break; }
  case 2: { EM<T,M> h; symE<T,M>(h,"arg"); C b; fillE<T,M>(b,h); bool eq=true,hit=false; int inc=3; bool vac=true; for(int i=0;i<h.n;i++){ auto m=g.at(h.k[i]); eq&=m.d&veq(m.v,h.v[i]); hit|=expectM<T,M_AND>(m,true,h.v[i]).d; if(m.d) inc&=vinc(m.v,h.v[i]); else inc&=icl::inclusion::subset; } for(int i=0;i<g.n;i++) if(!h.at(g.k[i]).d) inc&=icl::inclusion::superset;
    switch((int)sx_choose(4)){ case 0: sx_check(icl::contains(c,b)==eq,"contains map"); sx_check(icl::within(b,c)==eq,"map within"); sx_check(b.within(c)==eq,"map within (member)"); break; case 1: sx_check(icl::intersects(c,b)==(T::total|hit),"intersects map"); sx_check(icl::disjoint(c,b)==!(T::total|hit),"disjoint from map"); break;
     case 2: { bool same=eq&(g.n==h.n); sx_check((c==b)==same,"equality"); sx_check(icl::is_element_equal(c,b)==same,"is_element_equal"); bool de=true; for(int i=0;i<h.n;i++) de&=veq(h.v[i],T::K::id())|mveq(g.at(h.k[i]),mv<typename T::V>(true,h.v[i])); for(int i=0;i<g.n;i++) de&=veq(g.v[i],T::K::id())|mveq(h.at(g.k[i]),mv<typename T::V>(true,g.v[i])); sx_check(icl::is_distinct_equal(c,b)==de,"is_distinct_equal"); break; }
     default: sx_check(icl::inclusion_compare(c,b)==inc,"inclusion_compare"); } break; }
  default: { if(sx_choose(2)){ icl::absorb_identities(c); D x=Dom<D>::sym("x"); auto m=g.at(x); m.d&=!veq(m.v,T::K::id()); wellE<T>(c); sx_check(mveq(atE<T>(c,x),m),"removing neutral values removes exactly those keys"); }
    else { std::pair<D,typename T::V> r[2]={{Dom<D>::sym("arg"),T::K::sym("argvalue")},{Dom<D>::sym("arg"),T::K::sym("argvalue")}}; C d(r,r+2); D x=Dom<D>::sym("x"); wellE<T>(d); auto m=expectM<T,M_INS>(expectM<T,M_INS>(mv<typename T::V>(false,T::K::id()),r[0].first==x,r[0].second),r[1].first==x,r[1].second); sx_check(mveq(atE<T>(d,x),m),"constructed from a range"); } } } }
#define SS(NM,C) HARNESS(sadd_##NM){ elS<C,S_ADD,NS>(); } HARNESS(ssub_##NM){ elS<C,S_SUB,NS>(); } HARNESS(sand_##NM){ elS<C,S_AND,NS>(); } HARNESS(sxor_##NM){ elS<C,S_XOR,NS>(); } HARNESS(sadds_##NM){ setS<C,S_ADD,NS,NB>(); } HARNESS(ssubs_##NM){ setS<C,S_SUB,NS,NB>(); } HARNESS(sands_##NM){ setS<C,S_AND,NS,NB>(); } HARNESS(sxors_##NM){ setS<C,S_XOR,NS,NB>(); } HARNESS(srel_##NM){ relS<C,NS,NB>(); }
#define ME(NM,T,N,M) HARNESS(add_##NM){ elM<T,M_ADD,N>(); } HARNESS(sub_##NM){ elM<T,M_SUB,N>(); } HARNESS(ins_##NM){ elM<T,M_INS,N>(); } HARNESS(set_##NM){ elM<T,M_SET,N>(); } HARNESS(erp_##NM){ elM<T,M_ERP,N>(); } HARNESS(and_##NM){ elM<T,M_AND,N>(); } HARNESS(xor_##NM){ elM<T,M_XOR,N>(); } \
  HARNESS(erk_##NM){ keyM<T,M_ERK,N>(); } HARNESS(andk_##NM){ keyM<T,M_ANDK,N>(); } HARNESS(ers_##NM){ setM<T,M_ERK,N,M>(); } HARNESS(ands_##NM){ setM<T,M_ANDK,N,M>(); } \
  HARNESS(addm_##NM){ mapM<T,M_ADD,N,M>(); } HARNESS(subm_##NM){ mapM<T,M_SUB,N,M>(); } HARNESS(insm_##NM){ mapM<T,M_INS,N,M>(); } HARNESS(erm_##NM){ mapM<T,M_ERP,N,M>(); } HARNESS(andm_##NM){ mapM<T,M_AND,N,M>(); } HARNESS(xorm_##NM){ mapM<T,M_XOR,N,M>(); } HARNESS(rel_##NM){ relM<T,N,M>(); }
#if SHARD==1
typedef std::set<int> si; typedef std::set<unsigned> su; typedef std::set<int,std::greater<int>> sg; SS(si,si) SS(su,su) SS(sg,sg)
#elif SHARD==2
typedef ET<KPlus,PA,int> pa; typedef ET<KPlus,PE,int> pe; ME(pa,pa,NB,NB-1) ME(pe,pe,NB,NB-1)
#elif SHARD==3
typedef ET<KPlus,TA,int> ta; typedef ET<KPlus,TE,int> te; ME(ta,ta,NB,NB-1) ME(te,te,NB,NB-1)
#elif SHARD==4
typedef ET<KSet,PA,int> sa; typedef ET<KSet,PE,int> se; ME(sa,sa,NB,NB-1) ME(se,se,NB,NB-1)
#elif SHARD==5
typedef ET<KMax,PA,unsigned> xa; typedef ET<KMaxN,PE,int> xe; typedef ET<KApp,PE,int> ae; typedef ET<KPlus,PA,int,std::greater> ga; ME(xa,xa,NB-1,NB-1) ME(xe,xe,NB-1,NB-1) ME(ae,ae,NB-1,NB-1) ME(ga,ga,NB-1,NB-1)
#endif
