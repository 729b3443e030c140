#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <functional>

static const int MAXT=6;
struct Inst; struct Fn; struct State;
typedef void (*Builtin)(State&, const Inst&, std::vector<Val>&);

enum XOp : u32 { X_BUILTIN=1000, X_CALL, X_CALLI, X_NOP, X_MEMCPY, X_MEMSET, X_GEP, X_INTR };
struct Inst {
  u32 op; u32 w=0; u32 w2=0; i64 imm=0; int dst=-1,a=0,b=0,c=0;
  std::vector<int> args; std::vector<std::pair<int,i64>> sc; // GEP scaled
  std::vector<u32> sw;
  u32 t1=0,t2=0; // targets (block index)
  Fn* fn=nullptr; Builtin bi=nullptr;
  const llvm::Instruction* I=nullptr;
  bool invoke=false; u8 ord=0; bool norace=false, refcnt=false; 
  u32 site=0;
};
struct PhiMove { int dst,src; u32 w; };
struct Block { u32 start; std::map<u32,std::vector<PhiMove>> phi; int lpad=-1; };
struct Fn {
  llvm::Function*F=nullptr; std::string name; u64 addr=0; bool decoded=false; bool decl=false; bool model=false; bool refcnt=false; Builtin bi=nullptr;
  std::vector<Inst> code; std::vector<Block> blocks; std::vector<Val> consts; u32 nregs=0; u32 nargs=0;
};
struct Cell { u32 pw=0; u32 pr[MAXT]={0}; u32 aw[MAXT]={0}; u32 ar[MAXT]={0}; u8 pwt=0; u32 psite=0; u32 rsite=0; u32 asite=0; };
enum OKind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_TLS };
struct Obj {
  u32 rc=0; u64 addr=0,size=0; OKind kind=K_HEAP; u8 hk=0; bool ro=false; u32 allocSite=0; u8 marked=0; 
  u8* b=nullptr; Expr** s=nullptr; u8* init=nullptr; Cell* sh=nullptr; const char* nm=nullptr;
  Obj(){} Obj(const Obj&o); ~Obj();
};
struct ObjRef { Obj*p=nullptr; ObjRef(){} explicit ObjRef(Obj*x):p(x){if(p)p->rc++;} ObjRef(const ObjRef&o):p(o.p){if(p)p->rc++;} ObjRef(ObjRef&&o)noexcept:p(o.p){o.p=nullptr;}
  ObjRef&operator=(ObjRef o){std::swap(p,o.p);return*this;} ~ObjRef(){if(p&&--p->rc==0)delete p;} };

typedef std::vector<u32> VC;
static inline void vcJoin(VC&a,const VC&b){ if(a.size()<b.size())a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) if(b[i]>a[i])a[i]=b[i]; }
struct FP { u64 addr; bool w; }; // footprint entry; addr==0 => everything
typedef std::vector<FP> Foot;
struct SchedEntry { Foot f; int open=0; };
struct SchedNode { std::map<int,SchedEntry> e; };
enum PK : u8 { P_NONE, P_START, P_LOCK, P_TRYLOCK, P_CWAIT, P_CWAKE, P_NOTIFY, P_ATOM_R, P_ATOM_W, P_CREATE, P_JOIN, P_EXIT, P_CLOCK, P_YIELD, P_SLEEP };
struct Frame { Fn*fn=nullptr; u32 pc=0; u32 bb=0; std::vector<Val> regs; std::vector<u64> allocas; int callDst=-1; u8 onRet=0; u64 onRetArg=0; std::vector<Val> va; };
struct Thread {
  std::vector<Frame> st; bool done=false; PK pk=P_NONE; u64 pa=0,pb=0; bool granted=false; bool parked=false; bool yielded=false;
  bool notified=false; bool timed=false; Val deadline; int result=0; VC vc; VC relF, acqP; bool detached=false; bool joined=false;
  std::map<u32,u64> tls; u64 stepsSince=0; u32 spinCount=0; const void* spinX=nullptr; u64 spinA=0; Val spinV; u32 spinN=0;
};
struct SyncObj { u64 addr=0; u8 kind=0; int owner=-1; int count=0; VC vc; };
struct SymRec { std::string name; std::vector<Expr*> v; std::shared_ptr<SymRec> prev; bool choice=false; };
struct TraceRec { std::string s; std::shared_ptr<TraceRec> prev; };
struct SleepEnt { int tid; std::shared_ptr<SchedNode> node; };
struct State {
  std::vector<Thread> th; int cur=0; std::vector<ObjRef> objs; std::vector<ObjRef> gl; 
  u64 nextAddr=0; std::vector<Expr*> cons; ModelP model; bool approx=false; /* the model may not satisfy the path */ std::shared_ptr<SymRec> syms; std::shared_ptr<TraceRec> trace;
  u64 steps=0; std::vector<SyncObj> sync; 
  std::shared_ptr<SchedNode> node; int nodeTid=-1; Foot foot; std::vector<SleepEnt> sleep; 
  std::vector<std::pair<int,Foot>> sleepF;
  Val now; Val horizon; bool hasHorizon=false; int allocFail=0; int spurious=0; int preempts=0; u32 nsched=0; bool mt=false; int nclock=0;
  std::vector<std::pair<u64,u64>> kv; // harness visible scratch
};
