#include "vm.h"
#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InlineAsm.h>
#include <algorithm>
using namespace llvm;

// ------------------------------------------------------------------ objects
Obj::Obj(const Obj&o):rc(0),addr(o.addr),size(o.size),kind(o.kind),hk(o.hk),ro(o.ro),allocSite(o.allocSite),marked(o.marked),nm(o.nm){
  u64 n=size?size:1; b=(u8*)malloc(n); memcpy(b,o.b,size);
  if(o.s){ s=(Expr**)malloc(n*sizeof(Expr*)); memcpy(s,o.s,size*sizeof(Expr*)); }
  if(o.init){ init=(u8*)malloc(n); memcpy(init,o.init,size); }
  if(o.sh){ sh=(Cell*)malloc(n*sizeof(Cell)); memcpy(sh,o.sh,size*sizeof(Cell)); }
}
Obj::~Obj(){ free(b); free(s); free(init); free(sh); }

Module* gM; const DataLayout* gDL; 
std::unordered_map<const GlobalValue*,u64> gAddr; std::unordered_map<u64,Fn*> gFnByAddr; std::unordered_map<std::string,Fn*> gFnByName;
std::vector<GlobInfo> gGlobs; std::vector<ObjRef> gRO; std::vector<ObjRef> gInitRW;
std::vector<State*> gWork; Stats gSt; Options gOpt;
std::vector<SiteInfo> gSites; std::vector<u8> gSiteHit;
std::vector<std::string> gWitness; std::set<std::string> gWitnessHit;
static u64 nextGlobal=0x10000000, nextFn=0x1000000;
u64 initNextAddr=0x100000000ull;

Fn* fnOf(const Function*F){ auto it=gFnByAddr.find(gAddr[F]); return it==gFnByAddr.end()?nullptr:it->second; }

static Val zeroOf(Type*t);
AggExpr* mkAgg(std::vector<Val> f){ AggExpr*a=new AggExpr(); a->op=E_AGG; a->f=std::move(f); return a; }
Val aggVal(std::vector<Val> f){ return Val(0,mkAgg(std::move(f))); }
static Val zeroOf(Type*t){
  if(auto*st=dyn_cast<StructType>(t)){ std::vector<Val> f; for(Type*e:st->elements()) f.push_back(zeroOf(e)); return aggVal(f); }
  if(auto*at=dyn_cast<ArrayType>(t)){ std::vector<Val> f; for(u64 i=0;i<at->getNumElements();i++) f.push_back(zeroOf(at->getElementType())); return aggVal(f); }
  if(t->isIntegerTy()&&t->getIntegerBitWidth()>64) return Val(0,mkConstA(APInt(t->getIntegerBitWidth(),0)));
  return Val(0);
}
u32 widthOf(Type*t){
  if(t->isIntegerTy()) return t->getIntegerBitWidth();
  if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80;
  return 0;
}
static u64 undefCnt=0;
Val freshUndef(u32 w,const char*nm){ 
  if(w==0||w>64){ // build wide from pieces
    if(w==0) return Val(0);
    Expr*e=nullptr; u32 left=w; while(left){ u32 k=std::min(left,64u); Expr*v=mkVar(std::string(nm)+"#"+std::to_string(undefCnt++),k); e=e?mkConcat(v,e):v; left-=k; } return Val(0,e); }
  return Val(0,mkVar(std::string(nm)+"#"+std::to_string(undefCnt++),w)); }
static Val undefOf(Type*t){
  if(auto*st=dyn_cast<StructType>(t)){ std::vector<Val> f; for(Type*e:st->elements()) f.push_back(undefOf(e)); return aggVal(f); }
  if(auto*at=dyn_cast<ArrayType>(t)){ std::vector<Val> f; for(u64 i=0;i<at->getNumElements();i++) f.push_back(undefOf(at->getElementType())); return aggVal(f); }
  if(t->isPointerTy()) return Val(0xdead0000dead0000ull);
  return freshUndef(widthOf(t),"undef");
}
Val constVal(const Constant*c){
  Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()<=64) return Val(ci->getZExtValue()); return Val(0,mkConstA(ci->getValue())); }
  if(isa<ConstantPointerNull>(c)) return Val(0);
  if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); if(b.getBitWidth()<=64) return Val(b.getZExtValue()); return Val(0,mkConstA(b)); }
  if(isa<UndefValue>(c)) return undefOf(t);
  if(isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if(auto*gv=dyn_cast<GlobalValue>(c)){ 
    if(auto*ga=dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    auto it=gAddr.find(gv); if(it==gAddr.end()) throw EngineError("no address for global "+gv->getName().str()); return Val(it->second); }
  if(isa<ConstantStruct>(c)||isa<ConstantArray>(c)){ std::vector<Val> f; for(unsigned i=0;i<c->getNumOperands();i++) f.push_back(constVal(cast<Constant>(c->getOperand(i)))); return aggVal(f); }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
     case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: { Val v=constVal(ce->getOperand(0)); u32 w=widthOf(t); if(v.isC()) return Val(v.c&maskw(w)); return v; }
     case Instruction::Trunc: { Val v=constVal(ce->getOperand(0)); return Val(v.c&maskw(widthOf(t))); }
     case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*gDL,off)) throw EngineError("const gep"); Val v=constVal(cast<Constant>(g->getPointerOperand())); return Val(v.c+off.getZExtValue()); }
     case Instruction::Add: return Val((constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c)&maskw(widthOf(t)));
     case Instruction::Sub: return Val((constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c)&maskw(widthOf(t)));
     case Instruction::ICmp: { Val a=constVal(ce->getOperand(0)),b=constVal(ce->getOperand(1)); auto p=(CmpInst::Predicate)ce->getPredicate(); if(p==CmpInst::ICMP_EQ) return Val(a.c==b.c); if(p==CmpInst::ICMP_NE) return Val(a.c!=b.c); break; }
     case Instruction::Select: return constVal(ce->getOperand(constVal(ce->getOperand(0)).c?1:2));
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw EngineError("constant not supported: "+os.str());
}
static void writeConst(u8*dst,const Constant*c){
  Type*t=c->getType();
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return;
  if(auto*cs=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cs->getRawDataValues(); memcpy(dst,r.data(),r.size()); return; }
  if(auto*ca=dyn_cast<ConstantArray>(c)){ u64 es=gDL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) writeConst(dst+i*es,ca->getOperand(i)); return; }
  if(auto*cst=dyn_cast<ConstantStruct>(c)){ auto*sl=gDL->getStructLayout(cst->getType()); for(unsigned i=0;i<cst->getNumOperands();i++) writeConst(dst+sl->getElementOffset(i),cst->getOperand(i)); return; }
  Val v=constVal(c); u64 n=gDL->getTypeStoreSize(t);
  if(v.isC()) memcpy(dst,&v.c,std::min<u64>(n,8));
  else { APInt a=constAP(v.e); for(u64 i=0;i<n;i++) dst[i]= i*8<a.getBitWidth()? a.extractBitsAsZExtValue(std::min<u32>(8,a.getBitWidth()-i*8),i*8):0; }
}
// library functions of the model which work on the memory of the program itself: their accesses are checked for data races like the program's
static bool containerFn(const std::string&n){ for(auto*k:{"_Rb_tree_","_List_node_base","_Prime_rehash_policy","13exception_ptr"}) if(n.find(k)!=std::string::npos) return true;
  for(auto*k:{"memchr","strcmp","strlen","strncmp"}) if(n==k) return true; return false; }
void setupModule(Module*M,const std::set<std::string>&modelFns){
  gM=M; gDL=&M->getDataLayout();
  for(Function&F:*M){ u64 a=nextFn; nextFn+=16; gAddr[&F]=a; Fn*f=new Fn(); f->F=&F; f->name=F.getName().str(); f->addr=a; f->decl=F.isDeclaration(); f->model=modelFns.count(f->name)&&!containerFn(f->name); gFnByAddr[a]=f; gFnByName[f->name]=f; }
  std::vector<GlobalVariable*> gs;
  for(GlobalVariable&G:M->globals()){
    u64 sz; if(G.getName()=="__dso_handle") sz=8; else sz=gDL->getTypeAllocSize(G.getValueType()); 
    if(G.isDeclaration()) sz=std::max<u64>(sz,128);
    u64 al=std::max<u64>(16,G.getAlign()?G.getAlign()->value():1); nextGlobal=(nextGlobal+al-1)/al*al; gAddr[&G]=nextGlobal; nextGlobal+=sz+32; gs.push_back(&G);
  }
  for(GlobalVariable*G:gs){
    u64 sz=gDL->getTypeAllocSize(G->getValueType()); if(G->isDeclaration()) sz=std::max<u64>(sz,128);
    Obj*o=new Obj(); o->addr=gAddr[G]; o->size=sz; o->kind=K_GLOBAL; o->b=(u8*)calloc(1,sz?sz:1); o->ro=G->isConstant(); o->nm=strdup(G->getName().str().c_str());
    if(G->hasInitializer()) writeConst(o->b,G->getInitializer());
    GlobInfo gi; gi.addr=o->addr; gi.size=sz; gi.ro=o->ro; gi.tls=G->isThreadLocal(); gi.G=G;
    if(o->ro||gi.tls){ gi.idx=gRO.size(); gRO.push_back(ObjRef(o)); gi.ro=true; } else { gi.idx=gInitRW.size(); gInitRW.push_back(ObjRef(o)); }
    gGlobs.push_back(gi);
  }
  std::sort(gGlobs.begin(),gGlobs.end(),[](const GlobInfo&a,const GlobInfo&b){return a.addr<b.addr;});
}
// ------------------------------------------------------------------ decode
static u32 siteOf(const Instruction*I){
  SiteInfo si; if(auto dl=I->getDebugLoc()){ auto*sc=cast<DILocalScope>(dl.getScope()); si.line=dl.getLine(); si.file=sc->getFilename().str(); if(auto*sp=sc->getSubprogram()) si.func=sp->getName().str(); }
  if(gSites.empty()) {gSites.push_back(SiteInfo()); gSiteHit.push_back(0);}
  if(!si.line) return 0;
  static std::map<std::tuple<std::string,u32,std::string>,u32> idx; auto k=std::make_tuple(si.file,si.line,si.func); auto it=idx.find(k); if(it!=idx.end()) return it->second;
  u32 r=gSites.size(); idx[k]=r; gSites.push_back(si); gSiteHit.push_back(0); return r;
}
void decode(Fn*f){
  Function*F=f->F; f->decoded=true;
  std::unordered_map<const Value*,int> reg; int n=0;
  for(Argument&A:F->args()) reg[&A]=n++;
  f->nargs=n;
  for(BasicBlock&B:*F) for(Instruction&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++;
  f->nregs=n;
  std::unordered_map<const BasicBlock*,u32> bi; u32 k=0; for(BasicBlock&B:*F) bi[&B]=k++;
  std::unordered_map<const Value*,int> cidx;
  auto opnd=[&](const Value*v)->int{
    auto it=reg.find(v); if(it!=reg.end()) return it->second;
    auto c=cidx.find(v); if(c!=cidx.end()) return c->second;
    const Constant*C=dyn_cast<Constant>(v);
    Val x;
    if(C) x=constVal(C); else if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) x=Val(0); else throw EngineError("operand");
    f->consts.push_back(x); int id=-(int)f->consts.size(); cidx[v]=id; return id; };
  f->blocks.resize(k);
  for(BasicBlock&B:*F){
    Block&blk=f->blocks[bi[&B]]; blk.start=f->code.size();
    for(PHINode&P:B.phis()) for(unsigned i=0;i<P.getNumIncomingValues();i++){
       u32 pb=bi[P.getIncomingBlock(i)]; auto&v=blk.phi[pb]; bool dup=false; for(auto&m:v) if(m.dst==reg[&P]) dup=true; if(dup) continue;
       v.push_back({reg[&P],opnd(P.getIncomingValue(i)),widthOf(P.getType())}); }
    for(Instruction&I:B){
      if(isa<PHINode>(I)) continue;
      if(isa<DbgInfoIntrinsic>(I)) continue;
      Inst x; x.op=I.getOpcode(); x.I=&I; x.site=siteOf(&I); x.norace=f->model; { auto&fn=gSites[x.site].file; x.refcnt=fn.find("ext/atomicity.h")!=std::string::npos||fn.find("shared_ptr_base.h")!=std::string::npos||fn.find("shared_ptr_atomic.h")!=std::string::npos; }
      if(!I.getType()->isVoidTy()){ x.dst=reg[&I]; x.w=widthOf(I.getType()); }
      switch(I.getOpcode()){
       case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
       case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
       case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        if(I.getType()->isVectorTy()) throw EngineError("vector op");
        x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); break;
       case Instruction::ICmp: case Instruction::FCmp: x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); x.imm=cast<CmpInst>(I).getPredicate(); x.w2=widthOf(I.getOperand(0)->getType()); break;
       case Instruction::FNeg: x.a=opnd(I.getOperand(0)); break;
       case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
       case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::Freeze:
        x.a=opnd(I.getOperand(0)); x.w2=widthOf(I.getOperand(0)->getType()); break;
       case Instruction::Select: x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); x.c=opnd(I.getOperand(2)); break;
       case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); x.imm=gDL->getTypeAllocSize(A.getAllocatedType()); x.a=opnd(A.getArraySize()); x.w2=A.getAlign().value(); break; }
       case Instruction::Load: { auto&L=cast<LoadInst>(I); x.a=opnd(L.getPointerOperand()); x.imm=gDL->getTypeStoreSize(L.getType()); x.ord=(u8)L.getOrdering(); if(!x.w) x.w2=1; break; }
       case Instruction::Store: { auto&S=cast<StoreInst>(I); x.a=opnd(S.getPointerOperand()); x.b=opnd(S.getValueOperand()); x.w=widthOf(S.getValueOperand()->getType()); x.imm=gDL->getTypeStoreSize(S.getValueOperand()->getType()); x.ord=(u8)S.getOrdering(); break; }
       case Instruction::GetElementPtr: { auto&G=cast<GetElementPtrInst>(I); x.a=opnd(G.getPointerOperand()); i64 off=0;
         for(auto gti=gep_type_begin(G),e=gep_type_end(G);gti!=e;++gti){ Value*idx=gti.getOperand();
           if(auto*st=gti.getStructTypeOrNull()){ off+=gDL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
           i64 es=gDL->getTypeAllocSize(gti.getIndexedType());
           if(auto*ci=dyn_cast<ConstantInt>(idx)) off+=es*ci->getSExtValue(); else { x.sc.push_back({opnd(idx),es}); x.args.push_back(widthOf(idx->getType())); } }
         x.imm=off; break; }
       case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isConditional()){ x.a=opnd(b.getCondition()); x.imm=1; x.t1=bi[b.getSuccessor(0)]; x.t2=bi[b.getSuccessor(1)]; } else x.t1=bi[b.getSuccessor(0)]; break; }
       case Instruction::Switch: { auto&s=cast<SwitchInst>(I); x.a=opnd(s.getCondition()); x.w=widthOf(s.getCondition()->getType()); x.t1=bi[s.getDefaultDest()]; for(auto&c:s.cases()){ x.args.push_back(opnd(c.getCaseValue())); x.sw.push_back(bi[c.getCaseSuccessor()]); } break; }
       case Instruction::Ret: if(I.getNumOperands()) { x.a=opnd(I.getOperand(0)); x.imm=1; } break;
       case Instruction::Unreachable: break;
       case Instruction::ExtractValue: { x.a=opnd(I.getOperand(0)); for(unsigned i:cast<ExtractValueInst>(I).indices()) x.args.push_back(i); break; }
       case Instruction::InsertValue: { x.a=opnd(I.getOperand(0)); x.b=opnd(I.getOperand(1)); for(unsigned i:cast<InsertValueInst>(I).indices()) x.args.push_back(i); break; }
       case Instruction::LandingPad: blk.lpad=f->code.size(); break;
       case Instruction::Resume: x.a=opnd(I.getOperand(0)); break;
       case Instruction::AtomicRMW: { auto&A=cast<AtomicRMWInst>(I); x.a=opnd(A.getPointerOperand()); x.b=opnd(A.getValOperand()); x.imm=gDL->getTypeStoreSize(A.getType()); x.c=A.getOperation(); x.ord=(u8)A.getOrdering(); break; }
       case Instruction::AtomicCmpXchg: { auto&A=cast<AtomicCmpXchgInst>(I); x.a=opnd(A.getPointerOperand()); x.b=opnd(A.getCompareOperand()); x.c=opnd(A.getNewValOperand()); x.w=widthOf(A.getCompareOperand()->getType()); x.imm=gDL->getTypeStoreSize(A.getCompareOperand()->getType()); x.ord=(u8)A.getSuccessOrdering(); x.w2=(u8)A.getFailureOrdering(); x.t1=A.isWeak(); break; }
       case Instruction::Fence: x.ord=(u8)cast<FenceInst>(I).getOrdering(); break;
       case Instruction::VAArg: throw EngineError("va_arg");
       case Instruction::Call: case Instruction::Invoke: {
         auto&C=cast<CallBase>(I);
         for(auto&A:C.args()) { x.args.push_back(opnd(A.get())); }
         if(auto*iv=dyn_cast<InvokeInst>(&I)){ x.invoke=true; x.t1=bi[iv->getNormalDest()]; x.t2=bi[iv->getUnwindDest()]; }
         Value*cv=C.getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject();
         if(C.isInlineAsm()){ std::string as=cast<InlineAsm>(cv)->getAsmString(); 
            if(as.find("pause")!=std::string::npos||as.find("rep")!=std::string::npos){ x.op=X_BUILTIN; x.bi=findBuiltin("sched_yield"); break; }
            if(as.empty()){ x.op=X_NOP; break; }
            throw EngineError("inline asm: "+as); }
         if(auto*CF=dyn_cast<Function>(cv)){
           if(CF->isIntrinsic()){ x.op=X_INTR; x.imm=CF->getIntrinsicID(); if(C.arg_size()) x.w2=widthOf(C.getArgOperand(0)->getType()); break; }
           x.fn=fnOf(CF); x.op=X_CALL; if(CF->isDeclaration()||findBuiltinOverride(CF->getName().str())){ x.bi=findBuiltin(CF->getName().str()); x.op=X_BUILTIN; if(!x.bi) x.bi=unknownBuiltin; }
         } else { x.op=X_CALLI; x.a=opnd(C.getCalledOperand()); }
         // byval params unsupported unless size handled
         for(unsigned i=0;i<C.arg_size();i++) if(C.isByValArgument(i)) { x.sc.push_back({(int)i,(i64)gDL->getTypeAllocSize(C.getParamByValType(i))}); }
         break; }
       default: { std::string s; raw_string_ostream os(s); I.print(os); throw EngineError("instruction not supported: "+os.str()); }
      }
      f->code.push_back(std::move(x));
    }
  }
}
