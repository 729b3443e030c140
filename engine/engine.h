#pragma once
#include "vm.h"
#include <llvm/Support/raw_ostream.h>
struct EngineError { std::string m; EngineError(std::string s):m(std::move(s)){} };
struct ViolationEx { std::string m; ViolationEx(std::string s):m(std::move(s)){} };
struct PathEnd { std::string why; };       // silent termination of the path (infeasible assumption etc.)
struct Retry {};                            // re-execute current instruction (state already prepared)
struct GlobInfo { u64 addr,size; bool ro,tls; u32 idx; llvm::GlobalVariable*G; };
struct SiteInfo { std::string file; u32 line=0; std::string func; };
struct Stats { u64 paths=0,insts=0,forks=0,pruned=0,infeasible=0,scheds=0,asserts=0,assertsSolver=0,maxdepth=0,viol=0,transitions=0; };
struct Options { u64 maxSteps=3000000; bool schedRefcnt=false; int preempt=-1; bool sleepSets=true; bool race=true; std::string outDir; u64 maxPaths=0; int verbose=0; std::vector<std::string> known; int poolFd=-1; double timeLimit=0; bool traceAll=false; };
extern Options gOpt; extern Stats gSt;
extern llvm::Module* gM; extern const llvm::DataLayout* gDL;
extern std::unordered_map<const llvm::GlobalValue*,u64> gAddr; extern std::unordered_map<u64,Fn*> gFnByAddr; extern std::unordered_map<std::string,Fn*> gFnByName;
extern std::vector<GlobInfo> gGlobs; extern std::vector<ObjRef> gRO, gInitRW; extern std::vector<State*> gWork;
extern std::vector<SiteInfo> gSites; extern std::vector<u8> gSiteHit; extern std::vector<std::string> gWitness; extern std::set<std::string> gWitnessHit;
extern u64 initNextAddr;
void setupModule(llvm::Module*M,const std::set<std::string>&modelFns);
void decode(Fn*f);
Val constVal(const llvm::Constant*c);
Builtin findBuiltin(const std::string&n); bool findBuiltinOverride(const std::string&n);
void unknownBuiltin(State&,const Inst&,std::vector<Val>&);
AggExpr* mkAgg(std::vector<Val> f); Val aggVal(std::vector<Val> f);
u32 widthOf(llvm::Type*t); Val freshUndef(u32 w,const char*nm="undef");
Fn* fnOf(const llvm::Function*F);
// state helpers
static inline Expr* ex(const Val&v,u32 w){ return v.e?v.e:mkConst(v.c,w); }
static inline Val fromE(Expr*e){ if(e->op==E_CONST&&e->w<=64) return Val(e->c); return Val(0,e); }
Obj* findObj(State&s,u64 addr);
Obj* writable(State&s,Obj*o);
u64 allocObj(State&s,u64 size,u64 align,OKind k,const char*nm,bool zero=false);
void freeObj(State&s,u64 addr);
Val memLoad(State&s,const Inst&x,Val addr,u64 n,u32 w,int access); // access: 0 plain,1 atomic,2 none
void memStore(State&s,const Inst&x,Val addr,Val v,u64 n,u32 w,int access);
u64 rd64(State&s,u64 a); void wr64(State&s,u64 a,u64 v);
u64 concretizeHigh(State&s,Val v,u32 w);  // tries large values first
u64 concretize(State&s,Val v,u32 w);      // may throw Retry
bool branchOn(State&s,Expr*c);            // may push sibling re-executing instruction
void addCons(State&s,Expr*c);
bool mayBe(State&s,Expr*c,ModelP*m=nullptr);
void pushFrame(State&s,Fn*f,const std::vector<Val>&args,int callDst,bool isInvokeCaller=false);
void setReg(State&s,const Inst&x,Val v);
void advance(State&s,const Inst&x);      // after a call/builtin finished
State* cloneState(State&s);
void pushWork(State*s);
std::string readCStr(State&s,u64 a,size_t max=4096);
void doUnwind(State&s,u64 hdr);
void raceAccess(State&s,const Inst&x,Obj*o,u64 off,u64 n,bool w,bool atomic);
Thread& curT(State&s);
void parkAndSchedule(State&s,PK k,u64 a,u64 b=0);
void scheduleNext(State&s);
void footAdd(State&s,u64 a,bool w);
SyncObj& syncAt(State&s,u64 a);
void hbAcquire(State&s,VC&l); void hbRelease(State&s,VC&l);
bool multi(State&s);
void threadExit(State&s);
void runAll(State*init);
std::string stackStr(State&s);
void reportViolation(State&s,const std::string&m);
void fixModel(State&s);
const Inst& curInst(State&s);
void initTypeinfo();
u64 tlsAddr(State&s,u64 g);
void pruneSyncRange(State&s,Obj*o);
