#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/ADT/StringSet.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <fstream>
#include <algorithm>
using namespace llvm;
extern std::vector<std::string> gEngineErrors;
struct Pool { std::atomic<int> avail; std::atomic<int> stop; std::atomic<int> waiting; };
static Pool* pool=nullptr; static std::vector<pid_t> kids; static double tStart,tFork; static int seqNo=0;
bool ifConvert(llvm::Module&,bool); extern unsigned gIfMax; static bool gIfConv=false,gMerge=false;
static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct VRec { std::string msg,stack,inputs,trace; std::string j; bool known; };
static std::vector<VRec> gV;
static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
bool stopRequested(){ return pool&&pool->stop.load(); }
static std::string apHex(const APInt&a){ SmallString<40> s; a.toString(s,16,false); return std::string(s.str()); }
void reportViolation(State&s,const std::string&m){
  VRec v; v.msg=m; v.stack=stackStr(s); v.known=false;
  std::vector<SymRec*> rs; for(auto*p=s.syms.get();p;p=p->prev.get()) rs.push_back(p); std::reverse(rs.begin(),rs.end());
  std::string j="["; bool first=true; for(auto*r:rs){ if(!first) j+=","; first=false; j+="{\"name\":\""+jesc(r->name)+"\",\"v\":["; for(size_t i=0;i<r->v.size();i++){ if(i) j+=","; APInt a=evalAP(r->v[i],*s.model); j+="["+std::to_string(r->v[i]->w)+",\""+apHex(a)+"\"]"; } j+="]}"; } j+="]"; v.inputs=j;
  std::vector<TraceRec*> ts; for(auto*p=s.trace.get();p;p=p->prev.get()) ts.push_back(p); std::reverse(ts.begin(),ts.end());
  if(ts.size()>150) ts.erase(ts.begin(),ts.end()-150); j="["; for(size_t i=0;i<ts.size();i++){ if(i) j+=","; j+="\""+jesc(ts[i]->s)+"\""; } j+="]"; v.trace=j;
  std::string frames; // top frames for known matching
  for(auto&k:gOpt.known) if(!k.empty()&&(m.find(k)!=std::string::npos)) v.known=true;
  gSt.viol++;
  bool dup=false; for(auto&o:gV) if(o.msg==v.msg) dup=true;
  if(!dup) gV.push_back(v);
  if(!v.known&&pool) pool->stop=1;
}
static void writeOut(){
  std::string fn=gOpt.outDir+"/part-"+std::to_string(getpid())+".json"; std::ofstream o(fn+".tmp");
  struct rusage ru; getrusage(RUSAGE_SELF,&ru);
  o<<"{\"paths\":"<<gSt.paths<<",\"insts\":"<<gSt.insts<<",\"forks\":"<<gSt.forks<<",\"sleep_pruned\":"<<gSt.pruned<<",\"infeasible\":"<<gSt.infeasible<<",\"sched_branches\":"<<gSt.scheds<<",\"transitions\":"<<gSt.transitions<<",\"asserts\":"<<gSt.asserts<<",\"asserts_solver\":"<<gSt.assertsSolver<<",\"max_sched\":"<<gSt.maxdepth
   <<",\"queries\":"<<gSS.queries<<",\"z3\":"<<gSS.z3<<",\"cache\":"<<gSS.cacheHits<<",\"sat\":"<<gSS.sat<<",\"unsat\":"<<gSS.unsat<<",\"solver_s\":"<<gSS.time<<",\"max_query_s\":"<<gSS.maxq<<",\"rss_kb\":"<<ru.ru_maxrss<<",\"vars\":"<<gVars.size()<<",\"pending\":"<<gWork.size();
  o<<",\"errors\":["; for(size_t i=0;i<gEngineErrors.size();i++) o<<(i?",":"")<<"\""<<jesc(gEngineErrors[i])<<"\""; o<<"]";
  o<<",\"witness\":["; { bool f=true; for(auto&w:gWitnessHit){ o<<(f?"":",")<<"\""<<jesc(w)<<"\""; f=false; } } o<<"]";
  o<<",\"expected\":["; { bool f=true; for(auto&w:gWitness){ o<<(f?"":",")<<"\""<<jesc(w)<<"\""; f=false; } } o<<"]";
  o<<",\"violations\":["; { bool f=true; for(auto&v:gV){ o<<(f?"":",")<<"{\"msg\":\""<<jesc(v.msg)<<"\",\"known\":"<<(v.known?"true":"false")<<",\"stack\":\""<<jesc(v.stack)<<"\",\"inputs\":"<<v.inputs<<",\"trace\":"<<v.trace<<"}"; f=false; } } o<<"]";
  // repo coverage
  std::map<std::string,std::set<std::string>> fns; std::map<std::string,std::set<u32>> lines;
  for(size_t i=1;i<gSites.size();i++) if(gSiteHit[i]&&gSites[i].file.find("sharemind/")!=std::string::npos){ std::string b=gSites[i].file.substr(gSites[i].file.rfind("sharemind/")+10); fns[b].insert(gSites[i].func); lines[b].insert(gSites[i].line); }
  o<<",\"functions\":{"; { bool f=true; for(auto&p:fns){ o<<(f?"":",")<<"\""<<jesc(p.first)<<"\":["; bool g=true; for(auto&q:p.second){ o<<(g?"":",")<<"\""<<jesc(q)<<"\""; g=false; } o<<"]"; f=false; } } o<<"}";
  o<<",\"lines\":{"; { bool f=true; for(auto&p:lines){ o<<(f?"":",")<<"\""<<jesc(p.first)<<"\":["; bool g=true; for(auto q:p.second){ o<<(g?"":",")<<q; g=false; } o<<"]"; f=false; } } o<<"}}\n";
  o.close(); rename((fn+".tmp").c_str(),fn.c_str());
}
bool stealCheck(State*cur){
  if(!pool||pool->avail.load()<=pool->waiting.load()) return false;
  size_t have=gWork.size()+(cur?1:0); if(have<2) return false;
  double n=nowS(); if(n-tFork<0.03) return false;
  int a=pool->avail.load(); if(a<=0||!pool->avail.compare_exchange_strong(a,a-1)) return false;
  tFork=n; fflush(stdout); fflush(stderr);
  pid_t p=fork();
  if(p<0){ pool->avail++; return false; }
  if(p==0){ // child takes the oldest pending state
    State*f=gWork.front(); gWork.clear(); gSt=Stats(); gSS=SolverStats(); gEngineErrors.clear(); gV.clear(); kids.clear(); gWork.push_back(f); tFork=nowS();
    runAll(nullptr); writeOut(); pool->avail++; int st; bool bad=false; for(pid_t k:kids){ waitpid(k,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) bad=true; } _exit(bad?3:0); }
  kids.push_back(p); delete gWork.front(); gWork.erase(gWork.begin()); return true;
}
int main(int argc,char**argv){
  std::vector<std::string> bcs; std::string model; std::string poolFile; std::string entry="main"; std::string dumpIR; std::string passes;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{return std::string(argv[++i]);};
    if(a=="--model") model=nx(); else if(a=="--out") gOpt.outDir=nx(); else if(a=="--pool") poolFile=nx(); else if(a=="--max-steps") gOpt.maxSteps=std::stoull(nx()); else if(a=="--preempt") gOpt.preempt=std::stoi(nx()); else if(a=="--no-sleep") gOpt.sleepSets=false; else if(a=="--no-race") gOpt.race=false; else if(a=="--sched-refcnt") gOpt.schedRefcnt=true; else if(a=="--known") gOpt.known.push_back(nx()); else if(a=="-v") gOpt.verbose++; else if(a=="--dump") dumpIR=nx(); else if(a=="--stage0") { extern unsigned gStage0; gStage0=std::stoul(nx()); } else if(a=="--passes") passes=nx(); else if(a=="--ifconv") gIfConv=true; else if(a=="--merge-max") gIfMax=std::stoul(nx()); else if(a=="--merge"){ gIfConv=gMerge=true; passes="default<O1>"; } else bcs.push_back(a); }
  if(!poolFile.empty()){ int fd=open(poolFile.c_str(),O_RDWR); pool=(Pool*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); }
  else { pool=(Pool*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); pool->avail=1; pool->stop=0; }
  pool->waiting++; // one token per running process; starting jobs go before forks of running ones
  while(true){ int a=pool->avail.load(); if(a>0&&pool->avail.compare_exchange_weak(a,a-1)) break; usleep(3000); }
  pool->waiting--;
  LLVMContext ctx; SMDiagnostic err; 
  std::set<std::string> modelFns; auto M=std::make_unique<Module>("all",ctx); Linker L(*M);
  for(auto&b:bcs){ auto m=parseIRFile(b,err,ctx); if(!m){ err.print("vpsym",errs()); pool->avail++; return 2; } if(L.linkInModule(std::move(m))) { pool->avail++; return 2; } }
  if(!model.empty()){ auto m=parseIRFile(model,err,ctx); if(!m){ err.print("vpsym",errs()); pool->avail++; return 2; } 
    for(Function&F:*m) if(!F.isDeclaration()&&!F.hasAvailableExternallyLinkage()&&!F.hasLinkOnceLinkage()&&!F.hasWeakLinkage()) modelFns.insert(F.getName().str());
    if(L.linkInModule(std::move(m),Linker::LinkOnlyNeeded)) { pool->avail++; return 2; } }
  // explicit UB marker for unreachable
  auto*vt=FunctionType::get(Type::getVoidTy(ctx),false);
  (void)vt;
  Function*mainF=M->getFunction(entry); if(!mainF||mainF->isDeclaration()){ fprintf(stderr,"no main\n"); pool->avail++; return 2; }
  Function*st=Function::Create(FunctionType::get(Type::getVoidTy(ctx),false),GlobalValue::ExternalLinkage,"__vp_start",*M);
  { IRBuilder<> B(BasicBlock::Create(ctx,"e",st)); 
    if(auto*g=M->getNamedGlobal("llvm.global_ctors")) if(g->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())){ std::vector<std::pair<u64,Function*>> c; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); c.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(c.begin(),c.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:c) B.CreateCall(p.second->getFunctionType(),p.second); }
    std::vector<Value*> args; for(auto&A:mainF->args()) args.push_back(Constant::getNullValue(A.getType())); B.CreateCall(mainF->getFunctionType(),mainF,args); B.CreateRetVoid(); }
  if(auto*g=M->getNamedGlobal("llvm.global_ctors")) g->eraseFromParent();
  if(auto*g=M->getNamedGlobal("llvm.used")) g->eraseFromParent(); if(auto*g=M->getNamedGlobal("llvm.compiler.used")) g->eraseFromParent();
  for(Function&F:*M) if(!F.isDeclaration()){ if(modelFns.count(F.getName().str())){ F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);} F.removeFnAttr("target-features"); F.removeFnAttr("target-cpu"); F.removeFnAttr("tune-cpu"); F.removeFnAttr(Attribute::OptimizeNone); 
    for(auto&BB:F) if(auto*U=dyn_cast<UnreachableInst>(BB.getTerminator())){ bool nr=false; if(auto*pi=U->getPrevNonDebugInstruction()) if(auto*cb=dyn_cast<CallBase>(pi)) nr=cb->doesNotReturn(); if(!nr&&!isa<LandingPadInst>(BB.getFirstNonPHI())){ FunctionCallee c=M->getOrInsertFunction("vp_unreachable",FunctionType::get(Type::getVoidTy(ctx),false)); auto*ci=CallInst::Create(c,"",U); ci->setDebugLoc(U->getDebugLoc()); } } }
  { StringSet<> keep; keep.insert("__vp_start"); internalizeModule(*M,[&](const GlobalValue&g){return g.getName()=="__vp_start"||g.getName().starts_with("_ZTV");}); }
  {
    PipelineTuningOptions PTO; PTO.SLPVectorization=false; PTO.LoopVectorization=false; PTO.LoopInterleaving=false; PassBuilder PB(nullptr,PTO); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
    ModulePassManager MPM; std::string P=passes.empty()?"globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg),globaldce":passes;
    if(auto e=PB.parsePassPipeline(MPM,P)){ errs()<<"bad pipeline\n"; return 2; } MPM.run(*M,MAM); if(gIfConv) ifConvert(*M,gMerge);
  }
  if(!dumpIR.empty()){ std::error_code ec; raw_fd_ostream o(dumpIR,ec); M->print(o,nullptr); }
  for(Function&F:*M) for(auto&BB:F) for(auto&I:BB) if(auto*cb=dyn_cast<CallBase>(&I)) if(auto*cf=cb->getCalledFunction()) if(cf->getName()=="vp_witness"||cf->getName()=="vp_cover"){ if(auto*gv=dyn_cast<GlobalVariable>(cb->getArgOperand(cf->getName()=="vp_cover"?1:0)->stripPointerCasts())) if(gv->hasInitializer()) if(auto*cd=dyn_cast<ConstantDataSequential>(gv->getInitializer())) gWitness.push_back(cd->getAsCString().str()); }
  std::sort(gWitness.begin(),gWitness.end()); gWitness.erase(std::unique(gWitness.begin(),gWitness.end()),gWitness.end());
  gSites.push_back(SiteInfo()); gSiteHit.push_back(0);
  tStart=tFork=nowS();
  State*init=nullptr;
  try{
    setupModule(M.get(),modelFns); initTypeinfo();
    init=new State(); init->model=std::make_shared<Model>(); init->nextAddr=initNextAddr; init->gl=gInitRW; init->th.emplace_back(); init->th[0].vc={1}; init->now=Val(1000000000ull);
    pushFrame(*init,fnOf(M->getFunction("__vp_start")),{},-1);
  } catch(EngineError&e){ gEngineErrors.push_back(e.m); if(!gOpt.outDir.empty()) writeOut(); fprintf(stderr,"vpsym: %s\n",e.m.c_str()); pool->avail++; return 2; }
  runAll(init);
  bool bad=false; int stt;
  if(!gOpt.outDir.empty()) writeOut();
  pool->avail++; for(pid_t k:kids){ waitpid(k,&stt,0); if(!WIFEXITED(stt)||WEXITSTATUS(stt)) bad=true; }
  if(gOpt.outDir.empty()||gOpt.verbose){
    fprintf(stderr,"paths %llu insts %llu forks %llu pruned %llu infeas %llu sched %llu trans %llu | queries %llu z3 %llu cache %llu solver %.2fs maxq %.2fs | time %.2fs viol %llu err %zu\n",(unsigned long long)gSt.paths,(unsigned long long)gSt.insts,(unsigned long long)gSt.forks,(unsigned long long)gSt.pruned,(unsigned long long)gSt.infeasible,(unsigned long long)gSt.scheds,(unsigned long long)gSt.transitions,(unsigned long long)gSS.queries,(unsigned long long)gSS.z3,(unsigned long long)gSS.cacheHits,gSS.time,gSS.maxq,nowS()-tStart,(unsigned long long)gSt.viol,gEngineErrors.size());
    for(auto&e:gEngineErrors) fprintf(stderr,"ERROR %s\n",e.c_str());
    for(auto&v:gV) fprintf(stderr,"VIOL %s\n%s inputs %s\n trace %s\n",v.msg.c_str(),v.stack.c_str(),v.inputs.c_str(),v.trace.c_str());
  }
  fflush(stderr);
  _exit(bad?3:0);
}
