// If-conversion: branches that only choose between values (no memory access, no call, no trap) become selects, so that the
// executor does not fork on them. The transformed blocks have no effect besides their values, so behaviours are the same.
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
using namespace llvm;
static bool gMem=false; unsigned gIfMax=24;
// Memory the block may touch unconditionally: a local variable of fixed size accessed within its bounds.
// Or one that the branching block itself accessed just before, with no call in between.
static bool touched(Value*p,Type*t,BasicBlock*B){ BasicBlock*X=B->getSinglePredecessor(); if(!X) return false; auto&DL=B->getModule()->getDataLayout(); for(Instruction&I:reverse(*X)){ if(isa<CallBase>(&I)&&!isa<IntrinsicInst>(&I)) return false;
  if(auto*l=dyn_cast<LoadInst>(&I)) if(l->isSimple()&&l->getPointerOperand()==p&&DL.getTypeStoreSize(l->getType())>=DL.getTypeStoreSize(t)) return true;
  if(auto*st=dyn_cast<StoreInst>(&I)) if(st->isSimple()&&st->getPointerOperand()==p&&DL.getTypeStoreSize(st->getValueOperand()->getType())>=DL.getTypeStoreSize(t)) return true; } return false; }
static bool okMem(Value*p,Type*t,BasicBlock*B){ if(touched(p,t,B)) return true; auto&DL=B->getModule()->getDataLayout(); APInt off(64,0); Value*b=p->stripAndAccumulateConstantOffsets(DL,off,true); auto*A=dyn_cast<AllocaInst>(b); if(!A) return false;
  auto sz=A->getAllocationSize(DL); return sz&&!off.isNegative()&&off.getZExtValue()+DL.getTypeStoreSize(t)<=sz->getFixedValue(); }
static bool spec(BasicBlock*B,unsigned max){ unsigned n=0; for(Instruction&I:*B){ if(I.isTerminator()) break; if(isa<DbgInfoIntrinsic>(I)) continue; if(isa<PHINode>(I)) return false;
  if(auto*l=dyn_cast<LoadInst>(&I)){ if(gMem&&okMem(l->getPointerOperand(),l->getType(),B)&&l->isSimple()){ if(++n>max) return false; continue; } return false; }
  if(auto*st=dyn_cast<StoreInst>(&I)){ if(gMem&&st->isSimple()&&st->getValueOperand()->getType()->isIntegerTy()&&okMem(st->getPointerOperand(),st->getValueOperand()->getType(),B)){ if(++n>max) return false; continue; } return false; }
  if(I.mayReadOrWriteMemory()||!isSafeToSpeculativelyExecute(&I)) return false; if(auto*c=dyn_cast<CallInst>(&I)) if(!isa<IntrinsicInst>(c)) return false; if(++n>max) return false; } return true; }
static void hoist(BasicBlock*B,BasicBlock*X,Value*c,bool neg){ for(auto it=B->begin();!it->isTerminator();){ Instruction&I=*it++; if(isa<DbgInfoIntrinsic>(I)){ I.eraseFromParent(); continue; } I.dropUnknownNonDebugMetadata(); I.moveBefore(X->getTerminator());
  if(auto*st=dyn_cast<StoreInst>(&I)){ IRBuilder<> R(st); Value*v=st->getValueOperand(); Value*o=R.CreateAlignedLoad(v->getType(),st->getPointerOperand(),st->getAlign()); st->setOperand(0,neg?R.CreateSelect(c,o,v):R.CreateSelect(c,v,o)); } } }
static bool okPhi(PHINode&P,BasicBlock*a,BasicBlock*b){ Value*x=P.getIncomingValueForBlock(a),*y=P.getIncomingValueForBlock(b); return x==y||P.getType()->isIntegerTy(); }
// What both sides compute or load at their beginning is done before the branch.
static void leading(BasicBlock*B,std::vector<Instruction*>&out){ for(Instruction&I:*B){ if(I.isTerminator()) return; if(isa<DbgInfoIntrinsic>(I)) continue; if(isa<PHINode>(I)||I.mayWriteToMemory()||I.mayThrow()||isa<CallBase>(I)||isa<AllocaInst>(I)) return; if(auto*l=dyn_cast<LoadInst>(&I)) if(!l->isSimple()) return; out.push_back(&I); } }
static bool commonStart(BasicBlock*X){ auto*br=dyn_cast<BranchInst>(X->getTerminator()); if(!br||!br->isConditional()) return false; BasicBlock*B=br->getSuccessor(0),*O=br->getSuccessor(1); if(B==O||B->getSinglePredecessor()!=X||O->getSinglePredecessor()!=X) return false;
  std::vector<Instruction*> b,o; leading(B,b); leading(O,o); for(auto*x:b) for(auto*y:o) if(x->isIdenticalToWhenDefined(y)){ x->moveBefore(br); x->andIRFlags(y); x->dropUnknownNonDebugMetadata(); if(auto*l=dyn_cast<LoadInst>(x)) if(cast<LoadInst>(y)->getAlign()<l->getAlign()) l->setAlignment(cast<LoadInst>(y)->getAlign()); y->replaceAllUsesWith(x); y->eraseFromParent(); return true; }
  return false; }
static bool one(BasicBlock*X){
  if(gMem&&commonStart(X)) return true;
  auto*br=dyn_cast<BranchInst>(X->getTerminator()); if(!br||!br->isConditional()||br->getSuccessor(0)==br->getSuccessor(1)) return false; Value*c=br->getCondition();
  for(int side=0;side<2;++side){ BasicBlock*B=br->getSuccessor(side),*O=br->getSuccessor(1-side); if(B==X||B->getSinglePredecessor()!=X||B->hasAddressTaken()||!spec(B,gIfMax)) continue;
    auto*bb=dyn_cast<BranchInst>(B->getTerminator()); if(!bb) continue;
    if(!bb->isConditional()){ BasicBlock*M=bb->getSuccessor(0); if(M==X||M==B) continue; bool tri=M==O; BasicBlock*OB=X;
      if(!tri){ if(O==X||O->getSinglePredecessor()!=X||!spec(O,gIfMax)) continue; auto*ob=dyn_cast<BranchInst>(O->getTerminator()); if(!ob||ob->isConditional()||ob->getSuccessor(0)!=M) continue; OB=O; }
      bool ok=true; for(PHINode&P:M->phis()) if(!okPhi(P,B,OB)) ok=false; if(!ok) continue;
      hoist(B,X,c,side==1); if(!tri) hoist(O,X,c,side==0); IRBuilder<> R(br);
      for(PHINode&P:M->phis()){ Value*vb=P.getIncomingValueForBlock(B),*vo=P.getIncomingValueForBlock(OB); Value*v=vb==vo?vb:side==0?R.CreateSelect(c,vb,vo):R.CreateSelect(c,vo,vb);
        P.removeIncomingValue(B,false); int k=P.getBasicBlockIndex(OB); P.setIncomingValue(k,v); P.setIncomingBlock(k,X); }
      R.CreateBr(M); br->eraseFromParent(); B->getTerminator()->eraseFromParent(); B->eraseFromParent(); if(!tri){ O->getTerminator()->eraseFromParent(); O->eraseFromParent(); } return true; }
    // X: br c, B, F   B: br d, T, F
    for(int q=0;q<2;++q){ BasicBlock*F=bb->getSuccessor(q),*T=bb->getSuccessor(1-q); if(F!=O||T==F||T==B||T==X||F==B) continue;
      bool ok=true; for(PHINode&P:F->phis()) if(!okPhi(P,B,X)) ok=false; for(PHINode&P:T->phis()) if(P.getBasicBlockIndex(X)>=0) ok=false; if(!ok) continue;
      Value*d=bb->getCondition(); hoist(B,X,c,side==1); IRBuilder<> R(br);
      Value*inB=side==0?c:R.CreateNot(c), *toT=q==1?d:R.CreateNot(d);
      for(PHINode&P:F->phis()){ Value*vb=P.getIncomingValueForBlock(B),*vx=P.getIncomingValueForBlock(X); Value*v=vb==vx?vb:R.CreateSelect(inB,vb,vx); P.removeIncomingValue(B,false); P.setIncomingValue(P.getBasicBlockIndex(X),v); }
      for(PHINode&P:T->phis()) P.setIncomingBlock(P.getBasicBlockIndex(B),X);
      R.CreateCondBr(R.CreateAnd(inB,toT),T,F); br->eraseFromParent(); B->getTerminator()->eraseFromParent(); B->eraseFromParent(); return true; }
  }
  return false; }
bool ifConvert(Module&M,bool mem){ gMem=mem; bool any=false; for(Function&F:M){ if(F.isDeclaration()) continue; bool ch=true; while(ch){ ch=false; for(BasicBlock&B:F){ if(one(&B)){ ch=true; any=true; break; }
      if(BasicBlock*S=B.getSingleSuccessor()) if(S->getSinglePredecessor()==&B&&S!=&B&&!isa<InvokeInst>(B.getTerminator())&&isa<BranchInst>(B.getTerminator())&&MergeBlockIntoPredecessor(S)){ ch=true; break; } } } } return any; }
