// sx: symbolic executor for LLVM-18 IR (path forking by re-execution, object-precise memory, Z3).
//   sx MODULE.bc --entry F --out FILE.json [--paths FILE] [--max-instr N] [--max-paths N] [--time S] [--qtimeout MS]
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstdio>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <algorithm>
using namespace llvm;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Pool P;
struct Val { Node* n=nullptr; u128 c=0; std::vector<Val>* agg=nullptr; };
static inline Val mkc(u128 c){ Val v; v.c=c; return v; }

struct PathStop { enum K{Done,Infeasible,Violation,Err,Budget} k; std::string msg; };
struct Cell { Node* n; uint32_t b; };
static Node* UNINIT=(Node*)1;
enum OK_ : uint8_t { kHeap, kStack, kGlobal, kFunc };
struct Obj { uint64_t base=0,size=0; std::vector<Cell> cells; uint8_t kind=kHeap; bool alive=false; bool ro=false; bool live_init=false; GlobalVariable* gv=nullptr; Function* fn=nullptr; const char* what=""; };
static const unsigned SH=20;

struct Opnd { int slot=-1; Val cv; };
struct Inst { unsigned opc; int dst=-1; unsigned w=0; Instruction* I; std::vector<Opnd> ops; std::vector<int> bbs; std::vector<std::pair<int64_t,int>> scale; int64_t off=0; std::vector<unsigned> idx; uint64_t sz=0; unsigned sub=0; Function* callee=nullptr; struct FnInfo* cfi=nullptr; std::vector<std::pair<u128,int>> cases; int intr=0; };
struct BBInfo { std::vector<Inst> phis, insts; std::map<int,int> predIdx; };
struct FnInfo { Function* f; std::vector<BBInfo> bbs; int nslots=0; bool executed=false; int ext=0; bool decoded=false; std::string name; };

struct Frame { FnInfo* fi; int bb, ip, prev; size_t base; std::vector<uint32_t> allocas; int retDst; };

enum Ext { xNone, xI8, xI16, xI32, xI64, xF64, xBool, xRng, xChoose, xAssume, xCheck, xObserve, xMalloc, xFree, xMemcpy, xMemmove, xMemset, xNop, xAssertFail, xThrow, xAbort, xMemcmp, xStrlen, xGuardAcq, xRet0, xCalloc, xNoleak, xKnownTag, xRealloc };

struct Ent { enum K{Br,Assume,Choose,Conc} k; Node* cond=nullptr; bool val=false, alt=false, pushed=false; std::vector<u128> altModel; unsigned ch=0,n=0; u128 cv=0; };
struct Input { std::string name; unsigned w; Node* n; u128 c; };
struct Viol { std::string kind,msg,fn; std::vector<std::pair<std::string,u128>> inputs; std::vector<unsigned> widths; };

struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL=nullptr;
  std::map<Function*,FnInfo*> fns; std::map<const GlobalValue*,uint32_t> gid; std::vector<GlobalValue*> gvals;
  std::vector<Obj> objs; uint32_t nGlob=0, objN=0;
  std::vector<Val> regs; std::vector<Frame> stk;
  std::deque<std::vector<Val>> arena;
  // solver
  Z3_context z; Z3_solver S; unsigned scopes=0; unsigned qtimeout=20000;
  uint64_t qSat=0,qUnsat=0,qUnk=0; double solverT=0;
  // exploration
  std::vector<Ent> trail; size_t tpos=0; std::unordered_map<Node*,bool> known; bool modelValid=true;
  uint64_t nInstr=0,nBranch=0,nForks=0,nPaths=0,nInfeas=0,nChecks=0,nCheckQ=0,nCheckConst=0; uint64_t pathInstr=0,maxInstr=3000000,maxPaths=2000000; double tLimit=600,t0=0;
  std::vector<Input> inputs; std::vector<Val> observed; unsigned undefSeq=0,inputSeq=0; uint64_t heapLive=0; bool noLeak=false;
  std::vector<Viol> viols; std::string err; FILE* pathsF=nullptr; uint64_t pathsWritten=0;
  std::set<std::string> checkMsgs; uint64_t maxForkDepth=0; std::map<std::string,uint64_t> forkSites; bool prof=false; unsigned maxViol=3; std::map<std::string,unsigned> violPerMsg;
  unsigned splitLevels=0;

  // ---------------------------------------------------------------- solver
  std::vector<std::pair<unsigned,Node*>> nonlia; size_t boundedVars=0; uint64_t qBV=0,qLIA=0; double slowest=0;
  void initZ3(){ Z3_config c=Z3_mk_config(); z=Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(z,[](Z3_context c,Z3_error_code e){ throw EngineErr(std::string("z3: ")+Z3_get_error_msg(c,e)); });
    P.z=z; P.rne=P.keep(Z3_mk_fpa_round_nearest_ties_to_even(z));
    const char* lg=getenv("SX_LOGIC"); if(lg&&*lg) S=Z3_mk_solver_for_logic(z,Z3_mk_string_symbol(z,lg)); else S=Z3_mk_simple_solver(z);
    Z3_solver_inc_ref(z,S); setTimeout(S); }
  void setTimeout(Z3_solver s,unsigned cap=0){ unsigned qtimeout=cap&&cap<this->qtimeout?cap:this->qtimeout; Z3_params p=Z3_mk_params(z); Z3_params_inc_ref(z,p); Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),qtimeout); if(const char*as=getenv("SX_ARITH")) Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"arith.solver"),atoi(as)); Z3_solver_set_params(z,s,p); Z3_params_dec_ref(z,p); }
  void push(){ Z3_solver_push(z,S); scopes++; }
  void pop(){ Z3_solver_pop(z,S,1); while(!nonlia.empty()&&nonlia.back().first>=scopes) nonlia.pop_back(); scopes--; }
  void add(Node*n){ if(P.lia(n)) Z3_solver_assert(z,S,n->zi); else nonlia.push_back({scopes,n}); }
  void ensureVars(){ if(boundedVars==P.vars.size()) return; // assert admissible ranges of new inputs at the bottom of the solver stack
    if(scopes) Z3_solver_pop(z,S,scopes); Z3_solver_reset(z,S); scopes=0; nonlia.clear();
    for(auto*v:P.vars) if(Z3_ast b=P.boundI(v)) Z3_solver_assert(z,S,b); boundedVars=P.vars.size();
    for(auto&e:trail){ if(e.pushed) push(); if(e.k==Ent::Br&&e.pushed) add(e.val?e.cond:P.Not(e.cond)); else if(e.k==Ent::Assume) add(e.cond); } }
  void modelI(std::vector<u128>*model){ Z3_model m=Z3_solver_get_model(z,S); Z3_model_inc_ref(z,m); model->assign(P.vars.size(),0);
    for(size_t i=0;i<P.vars.size();i++){ Node*n=P.vars[i]; Z3_ast v; if(!P.lia(n)||!Z3_model_eval(z,m,n->zi,true,&v)) continue;
      if(n->w==1) (*model)[i]= Z3_get_bool_value(z,v)==Z3_L_TRUE; else { int64_t u=0; if(!Z3_get_numeral_int64(z,v,&u)) throw EngineErr("model value"); (*model)[i]= P.vinfo[i].fp? Pool::unkey(u) : (u128)(s128)u & maskw(n->w); } }
    Z3_model_dec_ref(z,m); }
  void modelB(Z3_solver T,std::vector<u128>*model){ Z3_model m=Z3_solver_get_model(z,T); Z3_model_inc_ref(z,m); model->assign(P.vars.size(),0);
    for(size_t i=0;i<P.vars.size();i++){ Node*n=P.vars[i]; Z3_ast v; if(!Z3_model_eval(z,m,P.toZ3(n),true,&v)) continue; if(n->w==1) (*model)[i]= Z3_get_bool_value(z,v)==Z3_L_TRUE; else { uint64_t u=0; if(Z3_get_numeral_uint64(z,v,&u)) (*model)[i]=u; } }
    Z3_model_dec_ref(z,m); }
  bool holds(const std::vector<u128>&m,Node*extra){ auto save=P.model; P.setModel(m); bool okm=P.eval(extra)!=0; for(auto&e:trail) if(okm&&((e.k==Ent::Br&&e.pushed&&(P.eval(e.cond)!=0)!=e.val)||(e.k==Ent::Assume&&!P.eval(e.cond)))) okm=false; P.setModel(save); return okm; }
  // 1 sat, 0 unsat, -1 unknown
  int check(Node* extra,std::vector<u128>* model){
    double t=now(); bool xl=P.lia(extra); ensureVars(); int res=-1; bool complete=xl&&nonlia.empty();
    if(!complete&&getenv("SX_DEBUG")) P.whyNot(xl?nonlia.front().second:extra);
    // portfolio: short integer attempt, then bit-vectors, then integers without the short limit
    auto tryI=[&]{ // exact when every constraint has an integer translation; otherwise 'unsat' of the translatable part still is unsat, and a model counts when it satisfies the rest by evaluation
      qLIA++; Z3_solver_push(z,S); if(xl) Z3_solver_assert(z,S,extra->zi); Z3_lbool r=Z3_solver_check(z,S);
      if(r==Z3_L_FALSE) res=0; else if(r==Z3_L_TRUE){ std::vector<u128> m; if(complete&&!model) res=1; else { modelI(&m); if(complete||holds(m,extra)) { res=1; if(model) *model=m; } } }
      Z3_solver_pop(z,S,1); };
    unsigned bits=0; for(auto*v:P.vars) bits+=v->w; setTimeout(S,complete?(bits<=64?250:1500):0); tryI();
    if(res<0){ qBV++; Z3_solver T=Z3_mk_solver(z); Z3_solver_inc_ref(z,T); setTimeout(T,complete?20000:0); for(auto*v:P.vars) if(Z3_ast b=P.boundB(v)) Z3_solver_assert(z,T,b);
      for(auto&e:trail){ if(e.k==Ent::Br&&e.pushed) Z3_solver_assert(z,T,P.toZ3(e.val?e.cond:P.Not(e.cond))); else if(e.k==Ent::Assume) Z3_solver_assert(z,T,P.toZ3(e.cond)); }
      Z3_solver_assert(z,T,P.toZ3(extra)); Z3_lbool r=Z3_solver_check(z,T); if(r==Z3_L_TRUE){ res=1; if(model) modelB(T,model); } else if(r==Z3_L_FALSE) res=0; Z3_solver_dec_ref(z,T); }
    if(res<0&&complete){ setTimeout(S); tryI(); }
    if(res==1) qSat++; else if(res==0) qUnsat++; else qUnk++;
    double d=now()-t; solverT+=d; if(d>slowest) slowest=d; 
    if(res==1&&model){ bool okm=holds(*model,extra); if(!okm) throw EngineErr("solver model does not satisfy the path condition (translation error)"); }
    return res; }

  // ---------------------------------------------------------------- module
  FnInfo* info(Function*f){ auto it=fns.find(f); if(it!=fns.end()) return it->second; FnInfo*fi=new FnInfo; fi->f=f; fi->name=f->getName().str(); fi->ext=classify(f); fns[f]=fi; return fi; }
  int classify(Function*f){
    if(!f->isDeclaration()) return xNone; StringRef n=f->getName();
    static std::map<std::string,int> t={{"sx_i8",xI8},{"sx_i16",xI16},{"sx_i32",xI32},{"sx_i64",xI64},{"sx_f64",xF64},{"sx_bool",xBool},{"sx_rng",xRng},{"sx_choose",xChoose},{"sx_assume",xAssume},{"sx_check",xCheck},{"sx_observe",xObserve},{"sx_noleak",xNoleak},
      {"_Znwm",xMalloc},{"_Znam",xMalloc},{"malloc",xMalloc},{"_ZnwmRKSt9nothrow_t",xMalloc},{"_ZdlPv",xFree},{"_ZdlPvm",xFree},{"_ZdaPv",xFree},{"_ZdaPvm",xFree},{"free",xFree},{"calloc",xCalloc},
      {"memcpy",xMemcpy},{"memmove",xMemmove},{"memset",xMemset},{"memcmp",xMemcmp},{"bcmp",xMemcmp},{"strlen",xStrlen},{"__assert_fail",xAssertFail},{"abort",xAbort},{"_ZSt9terminatev",xAbort},
      {"__cxa_guard_acquire",xGuardAcq},{"__cxa_guard_release",xNop},{"__cxa_atexit",xRet0},{"atexit",xRet0},{"__cxa_throw",xThrow},{"__cxa_pure_virtual",xAbort},{"_ZNSt8ios_base4InitC1Ev",xNop},{"_ZNSt8ios_base4InitD1Ev",xNop}};
    auto it=t.find(n.str()); if(it!=t.end()) return it->second;
    if(n.starts_with("_ZSt")&&n.contains("__throw_")) return xThrow;
    return -1; }
  uint64_t gaddr(const GlobalValue*g){ auto it=gid.find(g); if(it!=gid.end()) return (uint64_t)it->second<<SH; throw EngineErr("unknown global"); }
  void load(const std::string& path){
    SMDiagnostic d; M=parseIRFile(path,d,ctx); if(!M) throw EngineErr("cannot parse "+path+": "+d.getMessage().str()); DL=&M->getDataLayout();
    uint32_t id=16; auto reg=[&](GlobalValue*g){ gid[g]=id; if(objs.size()<=id) objs.resize(id+1); Obj&o=objs[id]; o.base=(uint64_t)id<<SH; o.gv=dyn_cast<GlobalVariable>(g); o.fn=dyn_cast<Function>(g); o.kind=o.fn?kFunc:kGlobal; o.alive=true; if(o.gv){ o.size=DL->getTypeAllocSize(o.gv->getValueType()); o.ro=o.gv->isConstant(); id+= o.size>>SH; if(objs.size()<=id) objs.resize(id+1);} id++; };
    for(auto&g:M->globals()) reg(&g); for(auto&f:*M) reg(&f); nGlob=id; objs.resize(nGlob+4096); objN=nGlob; }
  // constants -> Val
  Val cval(const Constant*c){
    if(auto*ci=dyn_cast<ConstantInt>(c)){ const APInt&a=ci->getValue(); u128 v=0; if(a.getBitWidth()>128) throw EngineErr("int>128"); v=a.extractBitsAsZExtValue(std::min(64u,a.getBitWidth()),0); if(a.getBitWidth()>64) v|=(u128)a.extractBitsAsZExtValue(a.getBitWidth()-64,64)<<64; return mkc(v); }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt a=cf->getValueAPF().bitcastToAPInt(); if(a.getBitWidth()>64) throw EngineErr("long double"); return mkc(a.getZExtValue()); }
    if(isa<ConstantPointerNull>(c)) return mkc(0);
    if(auto*g=dyn_cast<GlobalValue>(c)){ if(auto*ga=dyn_cast<GlobalAlias>(g)) return cval(ga->getAliasee()); return mkc(gaddr(g)); }
    Type*T=c->getType();
    if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ Val v; arenaC.emplace_back(); unsigned n=T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(); v.agg=&arenaC.back(); for(unsigned i=0;i<n;i++) v.agg->push_back(cval(c->getAggregateElement(i))); return v; } return mkc(0); }
    if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ Val v; arenaC.emplace_back(); auto* ag=&arenaC.back(); v.agg=ag; unsigned n=T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(); for(unsigned i=0;i<n;i++) ag->push_back(cval(c->getAggregateElement(i))); return v; }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
      switch(ce->getOpcode()){
        case Instruction::GetElementPtr:{ APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) throw EngineErr("constexpr gep"); return mkc((uint64_t)((uint64_t)cval(ce->getOperand(0)).c+off.getSExtValue())); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return cval(ce->getOperand(0));
        case Instruction::Add: return mkc((uint64_t)(cval(ce->getOperand(0)).c+cval(ce->getOperand(1)).c));
        case Instruction::Sub: return mkc((uint64_t)(cval(ce->getOperand(0)).c-cval(ce->getOperand(1)).c));
        default: throw EngineErr("constexpr opcode"); } }
    throw EngineErr("constant kind"); }
  std::deque<std::vector<Val>> arenaC;
  static unsigned widthOf(Type*T,const DataLayout*DL){ if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isPointerTy()) return 64; if(T->isDoubleTy()) return 64; if(T->isFloatTy()) return 32; return 0; }
  void decode(FnInfo*fi){
    Function*f=fi->f; std::map<const Value*,int> slot; int ns=0; for(auto&a:f->args()) slot[&a]=ns++;
    std::map<const BasicBlock*,int> bi; int nb=0; for(auto&b:*f){ bi[&b]=nb++; for(auto&i:b) if(!i.getType()->isVoidTy()) slot[&i]=ns++; }
    fi->nslots=ns; fi->bbs.resize(nb);
    for(auto&b:*f){ BBInfo&B=fi->bbs[bi[&b]];
      for(auto&i:b){ if(isa<DbgInfoIntrinsic>(&i)) continue; Inst n; n.I=&i; n.opc=i.getOpcode(); n.w=widthOf(i.getType(),DL); auto s=slot.find(&i); if(s!=slot.end()) n.dst=s->second;
        auto opnd=[&](Value*v){ Opnd o; if(auto*c=dyn_cast<Constant>(v)) o.cv=cval(c); else if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) o.cv=mkc(0); else o.slot=slot.at(v); return o; };
        if(auto*p=dyn_cast<PHINode>(&i)){ for(unsigned k=0;k<p->getNumIncomingValues();k++){ n.ops.push_back(opnd(p->getIncomingValue(k))); n.bbs.push_back(bi[p->getIncomingBlock(k)]); } B.phis.push_back(n); continue; }
        if(auto*br=dyn_cast<BranchInst>(&i)){ if(br->isConditional()) n.ops.push_back(opnd(br->getCondition())); for(unsigned k=0;k<br->getNumSuccessors();k++) n.bbs.push_back(bi[br->getSuccessor(k)]); B.insts.push_back(n); continue; }
        if(auto*sw=dyn_cast<SwitchInst>(&i)){ n.ops.push_back(opnd(sw->getCondition())); n.w=widthOf(sw->getCondition()->getType(),DL); n.bbs.push_back(bi[sw->getDefaultDest()]); for(auto&c:sw->cases()) n.cases.push_back({cval(c.getCaseValue()).c,bi[c.getCaseSuccessor()]}); B.insts.push_back(n); continue; }
        if(auto*g=dyn_cast<GetElementPtrInst>(&i)){ n.ops.push_back(opnd(g->getPointerOperand())); if(g->getType()->isVectorTy()) throw EngineErr("vector gep");
          for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*ix=it.getOperand(); if(StructType*st=it.getStructTypeOrNull()) n.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { int64_t sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) n.off+=sz*ci->getSExtValue(); else { n.scale.push_back({sz,(int)n.ops.size()}); n.idx.push_back(widthOf(ix->getType(),DL)); n.ops.push_back(opnd(ix)); } } }
          B.insts.push_back(n); continue; }
        if(auto*c=dyn_cast<CallInst>(&i)){ for(auto&a:c->args()) n.ops.push_back(opnd(a)); Value*cv=c->getCalledOperand()->stripPointerCasts(); if(c->isInlineAsm()) { n.intr=-2; } else if(auto*F=dyn_cast<Function>(cv)) { n.callee=F; if(F->isIntrinsic()) n.intr=F->getIntrinsicID(); else n.cfi=info(F); } else n.ops.push_back(opnd(c->getCalledOperand())); B.insts.push_back(n); continue; }
        for(auto&o:i.operands()) n.ops.push_back(opnd(o));
        if(auto*l=dyn_cast<LoadInst>(&i)) n.sz=DL->getTypeStoreSize(l->getType());
        if(auto*s=dyn_cast<StoreInst>(&i)){ n.sz=DL->getTypeStoreSize(s->getValueOperand()->getType()); n.w=widthOf(s->getValueOperand()->getType(),DL);}
        if(auto*a=dyn_cast<AllocaInst>(&i)) n.sz=DL->getTypeAllocSize(a->getAllocatedType());
        if(auto*c=dyn_cast<ICmpInst>(&i)){ n.sub=c->getPredicate(); n.w=widthOf(c->getOperand(0)->getType(),DL); }
        if(auto*c=dyn_cast<FCmpInst>(&i)){ n.sub=c->getPredicate(); n.w=widthOf(c->getOperand(0)->getType(),DL); }
        if(auto*c=dyn_cast<CastInst>(&i)) n.sub=widthOf(c->getOperand(0)->getType(),DL);
        if(auto*e=dyn_cast<ExtractValueInst>(&i)) n.idx.assign(e->idx_begin(),e->idx_end());
        if(auto*e=dyn_cast<InsertValueInst>(&i)) n.idx.assign(e->idx_begin(),e->idx_end());
        B.insts.push_back(n); } }
    fi->decoded=true; }

  // ---------------------------------------------------------------- memory
  [[noreturn]] void violation(const char*kind,const std::string&m){ std::string fn; for(size_t i=stk.size();i-->0&&i+6>stk.size();){ fn+=llvm::demangle(stk[i].fi->name).substr(0,160)+" < "; } reportViol(kind,m,fn); throw PathStop{PathStop::Violation,m}; }
  void reportViol(const std::string&kind,const std::string&m,const std::string&fn){
    Viol v; v.kind=kind; v.msg=m; v.fn=fn; // current P.model satisfies the path condition (and the negated assertion)
    for(auto&i:inputs){ v.inputs.push_back({i.name, i.n?P.eval(i.n):i.c}); v.widths.push_back(i.w); }
    if(violPerMsg[kind+m]++==0||viols.size()<maxViol) viols.push_back(v); }
  uint32_t newObj(uint64_t size,OK_ kind){
    uint32_t id=objN; uint32_t need=1+(size>>SH); if(size>(64u<<20)) throw PathStop{PathStop::Err,"allocation too large"}; objN+=need; if(objs.size()<=objN) objs.resize(objN*2);
    Obj&o=objs[id]; o.base=(uint64_t)id<<SH; o.size=size; o.kind=kind; o.alive=true; o.ro=false; o.gv=nullptr; o.fn=nullptr; o.cells.assign(size,Cell{UNINIT,0}); return id; }
  Obj& objAt(uint64_t a,uint64_t n,bool wr){
    uint32_t id=a>>SH; if(id<16||id>=objN||objs[id].base==0) violation("memory",a<4096?"null pointer dereference":"wild pointer dereference");
    Obj&o=objs[id]; uint64_t off=a-o.base;
    if(!o.alive) violation("memory",o.kind==kHeap?"use after free":"use of dead stack object");
    if(o.kind==kFunc) violation("memory","data access to code");
    if(off+n>o.size) violation("memory","out-of-bounds access");
    if(o.kind==kGlobal&&!o.live_init) initGlobal(o);
    if(wr&&o.ro) violation("memory","write to constant");
    return o; }
  std::vector<uint32_t> touchedGlobals;
  void initGlobal(Obj&o){ o.live_init=true; touchedGlobals.push_back(o.base>>SH); o.cells.assign(o.size,Cell{nullptr,0}); if(o.gv->hasInitializer()) writeConst(o,0,o.gv->getInitializer()); else if(o.gv->getName()!="__dso_handle") throw PathStop{PathStop::Err,"external global "+o.gv->getName().str()}; }
  void writeConst(Obj&o,uint64_t off,const Constant*c){ Type*T=c->getType();
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ uint64_t es=DL->getTypeAllocSize(cd->getElementType()); for(unsigned i=0;i<cd->getNumElements();i++) writeConst(o,off+i*es,cd->getElementAsConstant(i)); return; }
    if(T->isStructTy()){ auto*sl=DL->getStructLayout(cast<StructType>(T)); for(unsigned i=0;i<T->getStructNumElements();i++) writeConst(o,off+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
    if(T->isArrayTy()){ uint64_t es=DL->getTypeAllocSize(T->getArrayElementType()); for(unsigned i=0;i<T->getArrayNumElements();i++) writeConst(o,off+i*es,c->getAggregateElement(i)); return; }
    Val v=cval(c); uint64_t n=DL->getTypeStoreSize(T); for(uint64_t i=0;i<n;i++) o.cells[off+i]={nullptr,(uint32_t)((v.c>>(8*i))&255)}; }
  Node* undefByte(){ return P.var("undef"+std::to_string(undefSeq++),8,true); }
  Val loadInt(uint64_t a,uint64_t n,unsigned w){
    Obj&o=objAt(a,n,false); Cell*c=&o.cells[a-o.base]; bool conc=true; for(uint64_t i=0;i<n;i++) if(c[i].n){conc=false;break;}
    if(conc){ u128 v=0; for(uint64_t i=0;i<n;i++) v|=(u128)c[i].b<<(8*i); return mkc(v&maskw(w)); }
    Node* r=nullptr; 
    for(uint64_t i=0;i<n;){
      Node* part; 
      if(!c[i].n){ u128 v=0; uint64_t j=i; while(j<n&&!c[j].n){ v|=(u128)c[j].b<<(8*(j-i)); j++; } part=P.cst(v,8*(j-i)); i=j; }
      else if(c[i].n==UNINIT){ part=undefByte(); c[i].n=part; c[i].b=0; i++; }
      else { Node*e=c[i].n; uint64_t j=i; while(j<n&&c[j].n==e&&c[j].b==c[i].b+(j-i)) j++; unsigned lo=c[i].b*8, ww=8*(j-i); if(lo+ww>e->w){ // value narrower than bytes (e.g. i1,i4)
             part=P.ZExt(lo?P.Extract(e,lo,e->w-lo):e,ww); } else part=P.Extract(e,lo,ww); i=j; }
      r=r?P.Concat(part,r):part; }
    if(r->w>w) r=P.Extract(r,0,w); return norm(r); }
  static Val norm(Node*n){ Val v; if(n->op==oConst) v.c=n->c; else v.n=n; return v; }
  void storeInt(uint64_t a,uint64_t n,unsigned w,const Val&v){
    Obj&o=objAt(a,n,true); Cell*c=&o.cells[a-o.base];
    if(!v.n){ for(uint64_t i=0;i<n;i++) c[i]={nullptr,(uint32_t)((v.c>>(8*i))&255)}; return; }
    Node*e=v.n; if(e->w<8*n) e=P.ZExt(e,8*n); if(e->op==oConst){ storeInt(a,n,w,mkc(e->c)); return; }
    for(uint64_t i=0;i<n;i++) c[i]={e,(uint32_t)i}; }
  Val loadT(uint64_t a,Type*T){ unsigned w=widthOf(T,DL); if(w) return loadInt(a,DL->getTypeStoreSize(T),w);
    Val v; arena.emplace_back(); auto*ag=&arena.back(); v.agg=ag; if(auto*st=dyn_cast<StructType>(T)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) ag->push_back(loadT(a+sl->getElementOffset(i),st->getElementType(i))); return v; }
    if(auto*at=dyn_cast<ArrayType>(T)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) ag->push_back(loadT(a+i*es,at->getElementType())); return v; }
    if(auto*vt=dyn_cast<FixedVectorType>(T)){ uint64_t es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) ag->push_back(loadT(a+i*es,vt->getElementType())); return v; }
    throw EngineErr("load type"); }
  void storeT(uint64_t a,Type*T,const Val&v){ unsigned w=widthOf(T,DL); if(w){ storeInt(a,DL->getTypeStoreSize(T),w,v); return; }
    if(auto*st=dyn_cast<StructType>(T)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) storeT(a+sl->getElementOffset(i),st->getElementType(i),(*v.agg)[i]); return; }
    if(auto*at=dyn_cast<ArrayType>(T)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) storeT(a+i*es,at->getElementType(),(*v.agg)[i]); return; }
    if(auto*vt=dyn_cast<FixedVectorType>(T)){ uint64_t es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) storeT(a+i*es,vt->getElementType(),(*v.agg)[i]); return; }
    throw EngineErr("store type"); }
  void memCopy(uint64_t d,uint64_t s,uint64_t n){ if(!n) return; Obj&so=objAt(s,n,false); std::vector<Cell> tmp(so.cells.begin()+(s-so.base),so.cells.begin()+(s-so.base)+n); Obj&dd=objAt(d,n,true); std::copy(tmp.begin(),tmp.end(),dd.cells.begin()+(d-dd.base)); }

  // ---------------------------------------------------------------- decisions
  std::string site(){ std::string s; for(size_t i=stk.size();i-->0;){ std::string n=llvm::demangle(stk[i].fi->name); if(n.find("boost::icl")!=std::string::npos||i==0) { s=n; break; } } return s.substr(0,200); }
  void setKnown(Node*c,bool v){ // c not a Not
    known[c]=v;
    if(v&&(c->op==oSlt||c->op==oUlt)){ known.emplace(P.Bin(c->op,c->k[1],c->k[0]),false); Node*e=P.Bin(oEq,c->k[0],c->k[1]); if(e->op==oEq) known.emplace(e,false); }
    if(v&&c->op==oEq&&c->k[0]->w>1&&c->k[1]->op!=oConst){ known.emplace(P.Bin(oSlt,c->k[0],c->k[1]),false); known.emplace(P.Bin(oSlt,c->k[1],c->k[0]),false); known.emplace(P.Bin(oUlt,c->k[0],c->k[1]),false); known.emplace(P.Bin(oUlt,c->k[1],c->k[0]),false); }
    if(c->op==oAnd&&c->w==1&&v){ for(int i=0;i<2;i++){ Node*k=c->k[i]; bool pv=true; while(k->op==oNot){k=k->k[0];pv=!pv;} if(!known.count(k)) setKnown(k,pv); } }
    if(c->op==oOr&&c->w==1&&!v){ for(int i=0;i<2;i++){ Node*k=c->k[i]; bool pv=false; while(k->op==oNot){k=k->k[0];pv=!pv;} if(!known.count(k)) setKnown(k,pv); } } }
  // -1 unknown
  int lookup(Node*c){ bool neg=false; while(c->op==oNot){c=c->k[0];neg=!neg;} if(c->op==oConst) return (c->c!=0)!=neg; auto it=known.find(c); if(it!=known.end()) return it->second!=neg;
    if(c->op==oAnd&&c->w==1){ int a=lookup(c->k[0]),b=lookup(c->k[1]); int r= (a==0||b==0)?0:(a==1&&b==1)?1:-1; return r<0?-1: r!=(int)neg; }
    if(c->op==oOr&&c->w==1){ int a=lookup(c->k[0]),b=lookup(c->k[1]); int r= (a==1||b==1)?1:(a==0&&b==0)?0:-1; return r<0?-1: r!=(int)neg; }
    return -1; }
  bool branch(Node*c0){
    bool neg=false; Node*c=c0; while(c->op==oNot){ c=c->k[0]; neg=!neg; }
    if(c->op==oConst) return (c->c!=0)!=neg;
    int kn=lookup(c); if(kn>=0) return (bool)kn!=neg;
    nBranch++;
    if(tpos<trail.size()){ Ent&e=trail[tpos++]; if(e.k!=Ent::Br||e.cond!=c) throw EngineErr("nondeterministic replay"); setKnown(c,e.val); return e.val!=neg; }
    if(c->undef) violation("memory","branch on uninitialised value");
    bool s=P.eval(c)!=0; Ent e; e.k=Ent::Br; e.cond=c; e.val=s;
    Node* other= s?P.Not(c):c; std::vector<u128> m; int r=check(other,&m);
    if(r<0) throw PathStop{PathStop::Err,"solver returned unknown on a branch"};
    if(r==1){ e.alt=true; e.altModel=std::move(m); e.pushed=true; push(); add(s?c:P.Not(c)); nForks++; if(prof) forkSites[site()]++; }
    trail.push_back(std::move(e)); tpos++; setKnown(c,s); return s!=neg; }
  void assume(Node*c){
    if(c->op==oConst){ if(!c->c) throw PathStop{PathStop::Infeasible,""}; return; }
    int kn=lookup(c); if(kn==1) return; if(kn==0) throw PathStop{PathStop::Infeasible,""};
    Node*b=c; bool pv=true; while(b->op==oNot){b=b->k[0];pv=!pv;}
    if(tpos<trail.size()){ Ent&e=trail[tpos++]; if(e.k!=Ent::Assume||e.cond!=c) throw EngineErr("nondeterministic replay (assume)"); setKnown(b,pv); return; }
    if(!P.eval(c)){ std::vector<u128> m; int r=check(c,&m); if(r<0) throw PathStop{PathStop::Err,"solver unknown on assume"}; if(r==0) throw PathStop{PathStop::Infeasible,""}; P.setModel(m); }
    add(c); Ent e; e.k=Ent::Assume; e.cond=c; trail.push_back(e); tpos++; setKnown(b,pv); }
  void checkProp(Node*c,const std::string&msg){
    nChecks++; checkMsgs.insert(msg);
    if(tpos<trail.size()) return; // already discharged for this prefix
    if(c->op==oConst&&c->c){ nCheckConst++; return; }
    if(c->op!=oConst){ if(lookup(c)==1){ nCheckConst++; return; } nCheckQ++; std::vector<u128> m; int r=check(P.Not(c),&m); if(r<0) throw PathStop{PathStop::Err,"solver unknown on check: "+msg}; if(r==0) return; auto save=P.model; P.setModel(m); reportViol("check",msg,""); P.setModel(save); throw PathStop{PathStop::Violation,msg}; }
    reportViol("check",msg,""); throw PathStop{PathStop::Violation,msg}; }
  unsigned choose(unsigned n){ if(n<=1) return 0; if(tpos<trail.size()){ Ent&e=trail[tpos++]; if(e.k!=Ent::Choose) throw EngineErr("nondeterministic replay (choose)"); return e.ch; }
    Ent e; e.k=Ent::Choose; e.ch=0; e.n=n; e.pushed=true; push(); trail.push_back(e); tpos++; return 0; }
  u128 concretize(const Val&v){ if(!v.n) return v.c; for(int g=0;g<64;g++){ u128 cand; if(tpos<trail.size()){ Ent&e=trail[tpos++]; if(e.k!=Ent::Conc) throw EngineErr("nondeterministic replay (conc)"); cand=e.cv; } else { cand=P.eval(v.n); Ent e; e.k=Ent::Conc; e.cv=cand; trail.push_back(e); tpos++; }
      if(branch(P.Bin(oEq,v.n,P.cst(cand,v.n->w)))) return cand; } throw PathStop{PathStop::Err,"concretisation fan-out > 64"}; }

  // ---------------------------------------------------------------- interpreter
  Node* N(const Val&v,unsigned w){ return v.n?v.n:P.cst(v.c,w); }
  inline const Val& get(const Opnd&o,size_t base){ return o.slot>=0?regs[base+o.slot]:o.cv; }
  uint64_t addr(const Val&v){ return v.n?(uint64_t)concretize(v):(uint64_t)v.c; }
  Val elt(const Val&v){ return v; }
  void enter(FnInfo*fi,const std::vector<Val>&args,int retDst){
    if(fi->ext==-1) throw PathStop{PathStop::Err,"call to unmodelled external function "+llvm::demangle(fi->name)};
    if(!fi->decoded) decode(fi); fi->executed=true; if(stk.size()>400) throw PathStop{PathStop::Budget,"call depth"};
    size_t base=stk.empty()?0:stk.back().base+stk.back().fi->nslots; if(regs.size()<base+fi->nslots+64) regs.resize((base+fi->nslots+64)*2);
    for(size_t i=0;i<(size_t)fi->nslots;i++) regs[base+i]= i<args.size()?args[i]:Val();
    if(fi->f->hasFnAttribute("x")) {}
    // byval arguments get a private copy
    Frame fr; fr.fi=fi; fr.bb=0; fr.ip=0; fr.prev=-1; fr.base=base; fr.retDst=retDst; 
    for(auto&a:fi->f->args()) if(a.hasByValAttr()){ uint64_t sz=DL->getTypeAllocSize(a.getParamByValType()); uint32_t id=newObj(sz,kStack); fr.allocas.push_back(id); memCopy(objs[id].base,(uint64_t)args[a.getArgNo()].c,sz); regs[base+a.getArgNo()]=mkc(objs[id].base); }
    stk.push_back(std::move(fr)); }
  void ret(const Val&v){ Frame fr=std::move(stk.back()); stk.pop_back(); for(uint32_t id:fr.allocas) objs[id].alive=false; if(!stk.empty()&&fr.retDst>=0) regs[stk.back().base+fr.retDst]=v; }
  Val binop(Op op,unsigned w,const Val&a,const Val&b){ if(!a.n&&!b.n) return mkc(Pool::cbin(op,w,a.c,b.c)); return norm(P.Bin(op,N(a,w),N(b,w))); }
  Val icmp(unsigned pred,unsigned w,const Val&a,const Val&b){
    Op op; bool sw=false,neg=false; switch(pred){ case CmpInst::ICMP_EQ:op=oEq;break; case CmpInst::ICMP_NE:op=oEq;neg=true;break; case CmpInst::ICMP_UGT:op=oUlt;sw=true;break; case CmpInst::ICMP_UGE:op=oUlt;neg=true;break; case CmpInst::ICMP_ULT:op=oUlt;break; case CmpInst::ICMP_ULE:op=oUlt;sw=true;neg=true;break; case CmpInst::ICMP_SGT:op=oSlt;sw=true;break; case CmpInst::ICMP_SGE:op=oSlt;neg=true;break; case CmpInst::ICMP_SLT:op=oSlt;break; default:op=oSlt;sw=true;neg=true;break; }
    const Val&x=sw?b:a,&y=sw?a:b; if(!x.n&&!y.n) return mkc(Pool::cbin(op,w,x.c,y.c)^(neg?1:0)); Node*r=P.Bin(op,N(x,w),N(y,w)); return norm(neg?P.Not(r):r); }
  Val fcmp(unsigned pred,unsigned w,const Val&a,const Val&b){
    Node*x=N(a,w),*y=N(b,w); auto lt=[&](Node*p,Node*q){return P.FBin(oFLt,p,q);}; auto le=[&](Node*p,Node*q){return P.FBin(oFLe,p,q);}; Node*r;
    switch(pred){ case CmpInst::FCMP_FALSE:r=P.F;break; case CmpInst::FCMP_TRUE:r=P.T;break; case CmpInst::FCMP_OEQ:r=P.FBin(oFEq,x,y);break; case CmpInst::FCMP_UNE:r=P.Not(P.FBin(oFEq,x,y));break;
      case CmpInst::FCMP_OGT:r=lt(y,x);break; case CmpInst::FCMP_OGE:r=le(y,x);break; case CmpInst::FCMP_OLT:r=lt(x,y);break; case CmpInst::FCMP_OLE:r=le(x,y);break;
      case CmpInst::FCMP_UGT:r=P.Not(le(x,y));break; case CmpInst::FCMP_UGE:r=P.Not(lt(x,y));break; case CmpInst::FCMP_ULT:r=P.Not(le(y,x));break; case CmpInst::FCMP_ULE:r=P.Not(lt(y,x));break;
      case CmpInst::FCMP_ONE:r=P.Or(lt(x,y),lt(y,x));break; case CmpInst::FCMP_UEQ:r=P.Not(P.Or(lt(x,y),lt(y,x)));break; case CmpInst::FCMP_ORD:r=P.Not(P.FBin(oFUno,x,y));break; default:r=P.FBin(oFUno,x,y); }
    return norm(r); }
  Val select(const Val&c,const Val&a,const Val&b,Type*T){
    if(!c.n) return c.c?a:b;
    if(T->isStructTy()||T->isArrayTy()||T->isPointerTy()){ if(!a.agg&&!b.agg&&!a.n&&!b.n&&a.c==b.c) return a; return branch(c.n)?a:b; }
    unsigned w=widthOf(T,DL); if(!w) return branch(c.n)?a:b; return norm(P.Ite(c.n,N(a,w),N(b,w))); }
  std::string cstr(uint64_t a){ std::string s; for(int i=0;i<400;i++){ Val v=loadInt(a+i,1,8); if(v.n||!v.c) break; s+=(char)v.c; } return s; }
  Val newInput(const std::string&nm,unsigned w){ std::string name=nm+"@"+std::to_string(inputSeq++); Node*n=P.var(name,w); Input in{name,w,n,0}; inputs.push_back(in); Val v; v.n=n; return v; }
  void initVal(Node*n,s128 v){ if(P.model.size()<=n->lo){ P.model.resize(n->lo+1,0); P.model[n->lo]=(u128)v&maskw(n->w); P.epoch++; } else if((s128)sext(P.model[n->lo],n->w)<P.vinfo[n->lo].lo||(s128)sext(P.model[n->lo],n->w)>P.vinfo[n->lo].hi){ P.model[n->lo]=(u128)v&maskw(n->w); P.epoch++; } }
  Val external(int x,Inst&I,std::vector<Val>&a,FnInfo*fi){
    switch(x){
      case xI8: return newInput(cstr(a[0].c),8); case xI16: return newInput(cstr(a[0].c),16); case xI32: return newInput(cstr(a[0].c),32); case xI64: return newInput(cstr(a[0].c),64); case xF64: { Val v=newInput(cstr(a[0].c),64); P.vinfo[v.n->lo].fp=true; return v; }
      case xRng: { unsigned w=(unsigned)a[1].c; s128 lo=sext(a[2].c,64),hi=sext(a[3].c,64); std::string name=cstr(a[0].c)+"@"+std::to_string(inputSeq++); std::string key=name+"["+std::to_string((long long)lo)+","+std::to_string((long long)hi)+"]"; Node*n=P.var(key,w); P.vinfo[n->lo].ranged=true; P.vinfo[n->lo].lo=lo; P.vinfo[n->lo].hi=hi; initVal(n,lo>0?lo:hi<0?hi:0); inputs.push_back({name,w,n,0}); return norm(P.SExt(n,64)); }
      case xBool: { Val v=newInput(cstr(a[0].c),1); return v; }
      case xChoose:{ unsigned n=(unsigned)a[0].c; if(a[0].n) throw EngineErr("symbolic choose"); unsigned r=choose(n); if(n>1) inputs.push_back({"choose@"+std::to_string(inputSeq++),32,nullptr,r}); return mkc(r); }
      case xAssume: assume(N(a[0],1)); return Val();
      case xCheck:{ checkProp(N(a[0],1),cstr(a[1].c)); return Val(); }
      case xObserve: observed.push_back(a[0]); return Val();
      case xNoleak: noLeak=true; return Val();
      case xMalloc:{ uint64_t n=(uint64_t)concretize(a[0]); uint32_t id=newObj(n,kHeap); heapLive++; return mkc(objs[id].base); }
      case xCalloc:{ uint64_t n=(uint64_t)concretize(a[0])*(uint64_t)concretize(a[1]); uint32_t id=newObj(n,kHeap); for(auto&c:objs[id].cells) c={nullptr,0}; heapLive++; return mkc(objs[id].base); }
      case xFree:{ uint64_t p=addr(a[0]); if(!p) return Val(); uint32_t id=p>>SH; if(id<nGlob||id>=objN||objs[id].base!=p||objs[id].kind!=kHeap) violation("memory","invalid free"); if(!objs[id].alive) violation("memory","double free"); objs[id].alive=false; heapLive--; return Val(); }
      case xMemcpy: case xMemmove: memCopy(addr(a[0]),addr(a[1]),(uint64_t)concretize(a[2])); return a[0];
      case xMemset:{ uint64_t d=addr(a[0]),n=(uint64_t)concretize(a[2]); if(n){ Obj&o=objAt(d,n,true); u128 b=concretize(a[1])&255; for(uint64_t i=0;i<n;i++) o.cells[d-o.base+i]={nullptr,(uint32_t)b}; } return a[0]; }
      case xMemcmp:{ uint64_t p=addr(a[0]),q=addr(a[1]),n=(uint64_t)concretize(a[2]); for(uint64_t i=0;i<n;i++){ Val x1=loadInt(p+i,1,8),y1=loadInt(q+i,1,8); if(x1.n||y1.n){ if(branch(P.Bin(oEq,N(x1,8),N(y1,8)))) continue; return mkc(branch(P.Bin(oUlt,N(x1,8),N(y1,8)))?0xffffffffu:1); } if(x1.c!=y1.c) return mkc(x1.c<y1.c?0xffffffffu:1); } return mkc(0); }
      case xStrlen:{ uint64_t p=addr(a[0]),n=0; while(concretize(loadInt(p+n,1,8))) n++; return mkc(n); }
      case xNop: return Val(); case xRet0: return mkc(0);
      case xGuardAcq:{ uint64_t p=addr(a[0]); Val v=loadInt(p,1,8); if(v.c) return mkc(0); storeInt(p,1,8,mkc(1)); return mkc(1); }
      case xAssertFail: violation("assert","assertion failed: "+cstr(a[0].c)); 
      case xThrow: violation("throw","throws: "+llvm::demangle(fi->name));
      case xAbort: violation("abort","abort called");
    }
    throw EngineErr("external"); }
  Val intrinsic(Inst&I,std::vector<Val>&a){
    unsigned w=I.w; auto T=I.I->getType();
    if(T->isVectorTy()) throw PathStop{PathStop::Err,"vector intrinsic"};
    switch(I.intr){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(addr(a[0]),addr(a[1]),(uint64_t)concretize(a[2])); return Val();
      case Intrinsic::memset: { Inst d; return external(xMemset,d,a,nullptr); }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::invariant_end: return Val();
      case Intrinsic::stacksave: case Intrinsic::invariant_start: return mkc(0);
      case Intrinsic::assume: return Val();
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: return a[0];
      case Intrinsic::is_constant: return mkc(0);
      case Intrinsic::objectsize: return mkc(maskw(w));
      case Intrinsic::trap: violation("trap","trap (unreachable or undefined behaviour)");
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:{ Op o=(I.intr==Intrinsic::smax||I.intr==Intrinsic::smin)?oSlt:oUlt; bool mx=I.intr==Intrinsic::smax||I.intr==Intrinsic::umax; Node*x=N(a[0],w),*y=N(a[1],w); Node*lt=P.Bin(o,x,y); return norm(mx?P.Ite(lt,y,x):P.Ite(lt,x,y)); }
      case Intrinsic::abs:{ Node*x=N(a[0],w); return norm(P.Ite(P.Bin(oSlt,x,P.cst(0,w)),P.Bin(oSub,P.cst(0,w),x),x)); }
      case Intrinsic::ctpop:{ Node*x=N(a[0],w); Node*s=P.cst(0,w); for(unsigned i=0;i<w;i++) s=P.Bin(oAdd,s,P.ZExt(P.Extract(x,i,1),w)); return norm(s); }
      case Intrinsic::ctlz: case Intrinsic::cttz:{ Node*x=N(a[0],w); Node*r=P.cst(w,w); for(unsigned i=0;i<w;i++){ unsigned bit=I.intr==Intrinsic::ctlz? i : w-1-i; r=P.Ite(P.Extract(x,bit,1),P.cst(I.intr==Intrinsic::ctlz? w-1-bit:bit,w),r); } return norm(r); }
      case Intrinsic::fshl: case Intrinsic::fshr:{ Node*s=P.Bin(oURem,N(a[2],w),P.cst(w,w)); Node*cc=P.Concat(N(a[0],w),N(a[1],w)); Node*s2=P.ZExt(s,2*w); if(I.intr==Intrinsic::fshl) return norm(P.Extract(P.Bin(oShl,cc,s2),w,w)); return norm(P.Extract(P.Bin(oLShr,cc,s2),0,w)); }
      case Intrinsic::bswap:{ Node*x=N(a[0],w),*r=nullptr; for(unsigned i=0;i<w/8;i++){ Node*b=P.Extract(x,8*i,8); r=r?P.Concat(r,b):b; } return norm(r); }
      case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:{
        unsigned ow=widthOf(T->getStructElementType(0),DL); bool sg=I.intr==Intrinsic::sadd_with_overflow||I.intr==Intrinsic::ssub_with_overflow||I.intr==Intrinsic::smul_with_overflow; bool mul=I.intr==Intrinsic::umul_with_overflow||I.intr==Intrinsic::smul_with_overflow; bool sub=I.intr==Intrinsic::usub_with_overflow||I.intr==Intrinsic::ssub_with_overflow;
        unsigned xw=mul?2*ow:ow+1; Node*x=N(a[0],ow),*y=N(a[1],ow); Node*X=sg?P.SExt(x,xw):P.ZExt(x,xw),*Y=sg?P.SExt(y,xw):P.ZExt(y,xw); Op o=mul?oMul:sub?oSub:oAdd; Node*R=P.Bin(o,X,Y); Node*r=P.Extract(R,0,ow); Node*ov=P.Not(P.Bin(oEq,R,sg?P.SExt(r,xw):P.ZExt(r,xw))); Val v; arena.emplace_back(); arena.back()={norm(r),norm(ov)}; v.agg=&arena.back(); return v; }
      case Intrinsic::usub_sat:{ Node*x=N(a[0],w),*y=N(a[1],w); return norm(P.Ite(P.Bin(oUlt,x,y),P.cst(0,w),P.Bin(oSub,x,y))); }
      case Intrinsic::uadd_sat:{ Node*x=N(a[0],w),*y=N(a[1],w); Node*s=P.Bin(oAdd,x,y); return norm(P.Ite(P.Bin(oUlt,s,x),P.cst(maskw(w),w),s)); }
      case Intrinsic::fabs:{ Node*x=N(a[0],w); return norm(P.Concat(P.cst(0,1),P.Extract(x,0,w-1))); }
      case Intrinsic::fmuladd:{ return norm(P.FBin(oFAdd,P.FBin(oFMul,N(a[0],w),N(a[1],w)),N(a[2],w))); }
      case Intrinsic::minnum: case Intrinsic::maxnum: { Node*x=N(a[0],w),*y=N(a[1],w); Node*lt=P.FBin(oFLt,x,y); return norm(I.intr==Intrinsic::minnum?P.Ite(lt,x,y):P.Ite(lt,y,x)); }
      default: throw PathStop{PathStop::Err,"intrinsic "+I.callee->getName().str()}; } }

  void jump(Frame&fr,int to){ fr.prev=fr.bb; fr.bb=to; fr.ip=0; BBInfo&B=fr.fi->bbs[to]; if(!B.phis.empty()){ static thread_local std::vector<Val> tmp; tmp.clear(); for(auto&p:B.phis){ size_t k=0; while(p.bbs[k]!=fr.prev) k++; tmp.push_back(get(p.ops[k],fr.base)); } for(size_t i=0;i<tmp.size();i++) regs[fr.base+B.phis[i].dst]=tmp[i]; } }

  void runFunction(Function*f){
    size_t depth0=stk.size(); enter(info(f),{},-1);
    while(stk.size()>depth0){
      Frame&fr=stk.back(); Inst&I=fr.fi->bbs[fr.bb].insts[fr.ip++]; size_t B=fr.base; 
      nInstr++; if(++pathInstr>maxInstr) throw PathStop{PathStop::Budget,"instruction budget exceeded (possible non-termination)"};
      if((pathInstr&0xffff)==0&&now()-t0>tLimit) throw EngineErr("time limit");
      auto G=[&](unsigned i)->const Val&{ return get(I.ops[i],B); };
      auto set=[&](const Val&v){ if(I.dst>=0) regs[B+I.dst]=v; };
      switch(I.opc){
        case Instruction::Br: if(I.bbs.size()==1) jump(fr,I.bbs[0]); else { const Val&c=G(0); bool t= c.n?branch(c.n):(c.c&1); jump(fr,I.bbs[t?0:1]); } break;
        case Instruction::Switch:{ Val c=G(0); int to=I.bbs[0]; if(!c.n){ for(auto&k:I.cases) if(k.first==c.c){ to=k.second; break; } }
          else { // group cases by target
            std::vector<int> order; std::map<int,Node*> g; for(auto&k:I.cases){ Node*e=P.Bin(oEq,c.n,P.cst(k.first,I.w)); auto it=g.find(k.second); if(it==g.end()){ g[k.second]=e; order.push_back(k.second);} else it->second=P.Or(it->second,e); }
            for(int t:order){ Node*e=g[t]; if(e->op==oConst? e->c!=0 : branch(e)){ to=t; break; } } }
          jump(fr,to); break; }
        case Instruction::Ret: { Val v; if(!I.ops.empty()) v=G(0); ret(v); break; }
        case Instruction::Unreachable: violation("unreachable","reached unreachable code (undefined behaviour)");
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:{
          if(!I.w) throw PathStop{PathStop::Err,"vector arithmetic"};
          static const std::map<unsigned,Op> m={{Instruction::Add,oAdd},{Instruction::Sub,oSub},{Instruction::Mul,oMul},{Instruction::UDiv,oUDiv},{Instruction::SDiv,oSDiv},{Instruction::URem,oURem},{Instruction::SRem,oSRem},{Instruction::And,oAnd},{Instruction::Or,oOr},{Instruction::Xor,oXor},{Instruction::Shl,oShl},{Instruction::LShr,oLShr},{Instruction::AShr,oAShr}};
          Op op=m.at(I.opc); if(op==oUDiv||op==oSDiv||op==oURem||op==oSRem){ const Val&d=G(1); bool zero= d.n? branch(P.Bin(oEq,d.n,P.cst(0,I.w))) : d.c==0; if(zero) violation("div0","division by zero"); }
          set(binop(op,I.w,G(0),G(1))); break; }
        case Instruction::FAdd: set(norm(P.FBin(oFAdd,N(G(0),I.w),N(G(1),I.w)))); break;
        case Instruction::FSub: set(norm(P.FBin(oFSub,N(G(0),I.w),N(G(1),I.w)))); break;
        case Instruction::FMul: set(norm(P.FBin(oFMul,N(G(0),I.w),N(G(1),I.w)))); break;
        case Instruction::FDiv: set(norm(P.FBin(oFDiv,N(G(0),I.w),N(G(1),I.w)))); break;
        case Instruction::FNeg: set(norm(P.Cast(oFNeg,N(G(0),I.w),I.w))); break;
        case Instruction::ICmp: if(!I.w) throw PathStop{PathStop::Err,"vector icmp"}; set(icmp(I.sub,I.w,G(0),G(1))); break;
        case Instruction::FCmp: set(fcmp(I.sub,I.w,G(0),G(1))); break;
        case Instruction::Trunc: { const Val&a=G(0); set(a.n?norm(P.Extract(a.n,0,I.w)):mkc(a.c&maskw(I.w))); break; }
        case Instruction::ZExt: { const Val&a=G(0); set(a.n?norm(P.ZExt(a.n,I.w)):a); break; }
        case Instruction::SExt: { const Val&a=G(0); set(a.n?norm(P.SExt(a.n,I.w)):mkc((u128)sext(a.c,I.sub)&maskw(I.w))); break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:{ Val a=G(0); if(I.opc==Instruction::PtrToInt&&I.w<64){ set(a.n?norm(P.Extract(a.n,0,I.w)):mkc(a.c&maskw(I.w))); } else { if(I.opc==Instruction::BitCast&&!I.w) throw PathStop{PathStop::Err,"vector bitcast"}; set(a);} break; }
        case Instruction::SIToFP: set(norm(P.Cast(oSIToFP,N(G(0),I.sub),I.w))); break;
        case Instruction::UIToFP: set(norm(P.Cast(oUIToFP,N(G(0),I.sub),I.w))); break;
        case Instruction::FPToSI: set(norm(P.Cast(oFPToSI,N(G(0),I.sub),I.w))); break;
        case Instruction::FPToUI: set(norm(P.Cast(oFPToUI,N(G(0),I.sub),I.w))); break;
        case Instruction::FPExt: set(norm(P.Cast(oFPExt,N(G(0),I.sub),I.w))); break;
        case Instruction::FPTrunc: set(norm(P.Cast(oFPTrunc,N(G(0),I.sub),I.w))); break;
        case Instruction::Select: { Val c=G(0),a=G(1),b=G(2); set(select(c,a,b,I.I->getType())); break; }
        case Instruction::Alloca: { const Val&n=G(0); uint32_t id=newObj(I.sz*(uint64_t)n.c,kStack); stk.back().allocas.push_back(id); set(mkc(objs[id].base)); break; }
        case Instruction::Load: { uint64_t a=addr(G(0)); if(I.w) set(loadInt(a,I.sz,I.w)); else set(loadT(a,I.I->getType())); break; }
        case Instruction::Store: { Val v=G(0); uint64_t a=addr(G(1)); if(I.w) storeInt(a,I.sz,I.w,v); else storeT(a,I.I->getOperand(0)->getType(),v); break; }
        case Instruction::GetElementPtr: { Val p=G(0); if(I.scale.empty()&&!p.n){ set(mkc((uint64_t)((uint64_t)p.c+I.off))); break; }
          Val r= p.n? norm(P.Bin(oAdd,p.n,P.cst((u128)(uint64_t)I.off,64))) : mkc((uint64_t)((uint64_t)p.c+I.off));
          for(size_t k=0;k<I.scale.size();k++){ Val ix=G(I.scale[k].second); unsigned w=I.idx[k]; Val x= ix.n? norm(P.SExt(ix.n,64)) : mkc((u128)(uint64_t)(int64_t)sext(ix.c,w)); r=binop(oAdd,64,r,binop(oMul,64,x,mkc((u128)(uint64_t)I.scale[k].first))); }
          set(r); break; }
        case Instruction::ExtractValue: { Val a=G(0); for(unsigned ix:I.idx){ if(!a.agg) throw EngineErr("extractvalue"); Val t=(*a.agg)[ix]; a=t; } set(a); break; }
        case Instruction::InsertValue: { Val a=G(0),v=G(1); set(insertAt(a,v,I.idx,0)); break; }
        case Instruction::ExtractElement: { Val a=G(0); uint64_t k=(uint64_t)concretize(G(1)); Val t=(*a.agg)[k]; set(t); break; }
        case Instruction::InsertElement: { Val a=G(0),v=G(1); std::vector<unsigned> ix{(unsigned)concretize(G(2))}; set(insertAt(a,v,ix,0)); break; }
        case Instruction::Call: {
          static std::vector<Val> args; args.clear(); unsigned na=cast<CallInst>(I.I)->arg_size(); for(unsigned k=0;k<na;k++) args.push_back(G(k));
          if(I.intr==-2){ break; }
          if(I.intr){ std::vector<Val> a=args; Val v=intrinsic(I,a); set(v); break; }
          FnInfo*fi=I.cfi; if(!fi){ uint64_t p=addr(G(na)); uint32_t id=p>>SH; if(id>=nGlob||!objs[id].fn||objs[id].base!=p) violation("memory","call through invalid function pointer"); fi=info(objs[id].fn); }
          if(fi->ext>0){ std::vector<Val> a=args; int dst=I.dst; Val v=external(fi->ext,I,a,fi); if(dst>=0) regs[B+dst]=v; break; }
          { std::vector<Val> a=args; enter(fi,a,I.dst); }
          break; }
        case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(I.I); uint64_t a=addr(G(0)); unsigned w=I.w; uint64_t sz=w/8; Val old=loadInt(a,sz,w); Val nv; switch(rm->getOperation()){ case AtomicRMWInst::Add:nv=binop(oAdd,w,old,G(1));break; case AtomicRMWInst::Sub:nv=binop(oSub,w,old,G(1));break; case AtomicRMWInst::Xchg:nv=G(1);break; default: throw PathStop{PathStop::Err,"atomicrmw"}; } storeInt(a,sz,w,nv); set(old); break; }
        case Instruction::Fence: break;
        default: throw PathStop{PathStop::Err,std::string("instruction ")+I.I->getOpcodeName()};
      } } }
  Val insertAt(const Val&a,const Val&v,const std::vector<unsigned>&ix,size_t k){ arena.emplace_back(*a.agg); auto*ag=&arena.back(); Val r; r.agg=ag; if(k+1==ix.size()) (*ag)[ix[k]]=v; else { Val inner=(*ag)[ix[k]]; Val t=insertAt(inner,v,ix,k+1); (*ag)[ix[k]]=t; } return r; }

  void resetPath(){ for(uint32_t i=nGlob;i<objN;i++){ objs[i].alive=false; objs[i].base=0; } objN=nGlob; for(uint32_t g:touchedGlobals) objs[g].live_init=false; touchedGlobals.clear(); stk.clear(); arena.clear(); tpos=0; known.clear(); inputs.clear(); observed.clear(); undefSeq=0; inputSeq=0; heapLive=0; pathInstr=0; noLeak=false; }
  void ctors(){ GlobalVariable*g=M->getGlobalVariable("llvm.global_ctors"); if(!g||!g->hasInitializer()) return; auto*arr=dyn_cast<ConstantArray>(g->getInitializer()); if(!arr) return; for(auto&o:arr->operands()){ auto*st=cast<ConstantStruct>(o); if(auto*f=dyn_cast<Function>(st->getOperand(1))) runFunction(f); } }
  bool backtrack(){ while(!trail.empty()){ Ent&e=trail.back();
      if(e.k==Ent::Br&&e.alt){ pop(); e.val=!e.val; e.alt=false; push(); add(e.val?e.cond:P.Not(e.cond)); P.setModel(e.altModel); return true; }
      if(e.k==Ent::Choose&&e.ch+1<e.n){ pop(); push(); e.ch++; return true; }
      if(e.pushed) pop(); trail.pop_back(); } return false; }
  void explore(Function*f){
    t0=now(); P.setModel({}); 
    while(true){
      resetPath(); PathStop st{PathStop::Done,""};
      try { ctors(); uint64_t h0=heapLive; runFunction(f); if(noLeak&&heapLive!=h0) violation("memory","memory leak"); } catch(PathStop&s){ st=s; }
      if(st.k==PathStop::Budget){ reportViol("budget",st.msg,site()); }
      if(st.k==PathStop::Err){ err=st.msg; return; }
      if(st.k==PathStop::Done){ nPaths++; if(pathsF){ fprintf(pathsF,"P %zu",inputs.size()); for(auto&i:inputs) fprintf(pathsF," %llx",(unsigned long long)(i.n?P.eval(i.n):i.c)); fprintf(pathsF," %zu",observed.size()); for(auto&o:observed) fprintf(pathsF," %llx",(unsigned long long)(o.n?P.eval(o.n):o.c)); fprintf(pathsF,"\n"); } }
      else if(st.k==PathStop::Infeasible) nInfeas++; 
      if(viols.size()>=maxViol){ return; }
      if(st.k==PathStop::Budget){ return; }
      if(nPaths+nInfeas>=maxPaths){ err="path limit reached"; return; }
      if(now()-t0>tLimit){ err="time limit reached"; return; }
      maxForkDepth=std::max<uint64_t>(maxForkDepth,scopes);
      if(!backtrack()) return; } }
};
static std::string js(const std::string&s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32) r+=' '; else r+=c; } return r+"\""; }
int main(int argc,char**argv){
  std::string mod,entry,out,paths; Exec X;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--entry") entry=nx(); else if(a=="--out") out=nx(); else if(a=="--paths") paths=nx(); else if(a=="--max-instr") X.maxInstr=std::stoull(nx()); else if(a=="--max-paths") X.maxPaths=std::stoull(nx()); else if(a=="--time") X.tLimit=std::stod(nx()); else if(a=="--qtimeout") X.qtimeout=std::stoul(nx()); else if(a=="--max-viol") X.maxViol=std::stoul(nx()); else if(a=="--prof") X.prof=true; else mod=a; }
  double t=now();
  try { X.initZ3(); X.load(mod); if(entry=="--list"){ for(auto&g:*X.M) if(g.getName().starts_with("h_")&&!g.isDeclaration()) printf("%s\n",g.getName().str().c_str()); return 0; } Function*f=X.M->getFunction(entry); if(!f) throw EngineErr("no entry "+entry); if(!paths.empty()) X.pathsF=fopen(paths.c_str(),"w"); X.explore(f); } catch(EngineErr&e){ X.err=e.what(); } catch(std::exception&e){ X.err=std::string("exception: ")+e.what(); }
  if(X.pathsF) fclose(X.pathsF);
  FILE*o=out.empty()?stdout:fopen(out.c_str(),"w");
  fprintf(o,"{\"entry\":%s,\"error\":%s,\"paths\":%llu,\"infeasible\":%llu,\"instructions\":%llu,\"branches\":%llu,\"forks\":%llu,\"checks\":%llu,\"check_queries\":%llu,\"checks_by_simplification\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"queries_int\":%llu,\"queries_bv\":%llu,\"slowest_query_s\":%.3f,\"solver_s\":%.3f,\"wall_s\":%.3f,\"nodes\":%u,\n",js(entry).c_str(),X.err.empty()?"null":js(X.err).c_str(),(unsigned long long)X.nPaths,(unsigned long long)X.nInfeas,(unsigned long long)X.nInstr,(unsigned long long)X.nBranch,(unsigned long long)X.nForks,(unsigned long long)X.nChecks,(unsigned long long)X.nCheckQ,(unsigned long long)X.nCheckConst,(unsigned long long)X.qSat,(unsigned long long)X.qUnsat,(unsigned long long)X.qUnk,(unsigned long long)X.qLIA,(unsigned long long)X.qBV,X.slowest,X.solverT,now()-t,P.nid);
  fprintf(o,"\"functions\":["); bool first=true; for(auto&kv:X.fns) if(kv.second->executed){ std::string n=llvm::demangle(kv.second->name); fprintf(o,"%s%s",first?"":",",js(n).c_str()); first=false; } fprintf(o,"],\n\"messages\":["); first=true; for(auto&m:X.checkMsgs){ fprintf(o,"%s%s",first?"":",",js(m).c_str()); first=false; }
  fprintf(o,"],\n\"violations\":["); first=true; for(auto&v:X.viols){ fprintf(o,"%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"inputs\":[",first?"":",",js(v.kind).c_str(),js(v.msg).c_str(),js(v.fn).c_str()); first=false; for(size_t i=0;i<v.inputs.size();i++) fprintf(o,"%s[%s,%u,\"%llx\"]",i?",":"",js(v.inputs[i].first).c_str(),v.widths[i],(unsigned long long)v.inputs[i].second); fprintf(o,"]}"); } fprintf(o,"]");
  if(X.prof){ std::vector<std::pair<uint64_t,std::string>> s; for(auto&k:X.forkSites) s.push_back({k.second,k.first}); std::sort(s.rbegin(),s.rend()); fprintf(o,",\n\"forks_by_site\":["); for(size_t i=0;i<s.size()&&i<20;i++) fprintf(o,"%s[%llu,%s]",i?",\n":"",(unsigned long long)s[i].first,js(s[i].second).c_str()); fprintf(o,"]"); }
  fprintf(o,"}\n"); if(o!=stdout) fclose(o);
  return X.err.empty()? (X.viols.empty()?0:1) : 2; }
