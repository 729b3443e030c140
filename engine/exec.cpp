#include "engine.h"
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <unistd.h>
using namespace llvm;
void memCopy(State&s,const Inst&x,u64 d,u64 sr,u64 n,bool access); void memFill(State&s,const Inst&x,u64 d,Val v,u64 n,bool access);
bool stealCheck(State*cur); bool stopRequested();
static inline Val& R(Frame&f,int o){ return o>=0?f.regs[o]:f.fn->consts[-o-1]; }
void setReg(State&s,const Inst&x,Val v){ if(x.dst>=0) curT(s).st.back().regs[x.dst]=v; }
static void enterBlock(Frame&f,u32 t){
  Block&b=f.fn->blocks[t];
  if(!b.phi.empty()){ auto it=b.phi.find(f.bb); if(it!=b.phi.end()){ auto&v=it->second; if(v.size()==1) f.regs[v[0].dst]=R(f,v[0].src); else { Val tmp[64]; std::vector<Val> big; Val*p=tmp; if(v.size()>64){big.resize(v.size());p=big.data();} for(size_t i=0;i<v.size();i++) p[i]=R(f,v[i].src); for(size_t i=0;i<v.size();i++) f.regs[v[i].dst]=p[i]; } } }
  f.bb=t; f.pc=b.start;
}
void advance(State&s,const Inst&x){ Frame&f=curT(s).st.back(); if(x.invoke) enterBlock(f,x.t1); else f.pc++; }
void pushFrame(State&s,Fn*fn,const std::vector<Val>&args,int,bool){
  if(fn->decl) throw EngineError("call of undefined function "+fn->name);
  if(!fn->decoded) decode(fn);
  Thread&t=curT(s); if(t.st.size()>2000) throw ViolationEx("call stack deeper than 2000 frames (unbounded recursion)");
  t.st.emplace_back(); Frame&f=t.st.back(); f.fn=fn; f.regs.resize(fn->nregs);
  for(u32 i=0;i<fn->nargs&&i<args.size();i++) f.regs[i]=args[i];
  if(args.size()<fn->nargs) throw EngineError("argument count mismatch calling "+fn->name);
  for(size_t i=fn->nargs;i<args.size();i++) f.va.push_back(args[i]);
  f.bb=0; f.pc=0;
}
static void popFrame(State&s){ Thread&t=curT(s); Frame&f=t.st.back(); for(u64 a:f.allocas) freeObj(s,a); t.st.pop_back(); }
static const char* pkName(PK k){ static const char*n[]={"-","start","lock","trylock","cond-wait","cond-wake","notify","atomic-read","atomic-write","create","join","exit","clock","yield","sleep"}; return n[k]; }
std::string stackStr(State&s){
  std::string r; for(size_t ti=0;ti<s.th.size();ti++){ Thread&t=s.th[ti]; if(t.done) continue; r+=(int)ti==s.cur?"thread "+std::to_string(ti)+" (current):\n":"thread "+std::to_string(ti)+(t.parked?std::string(" [at ")+pkName(t.pk)+"]":"")+":\n";
   for(size_t i=t.st.size();i-->0;){ Frame&f=t.st[i]; if(f.pc>=f.fn->code.size()) continue; auto&x=f.fn->code[f.pc]; auto&si=gSites[x.site]; r+="    "+f.fn->name.substr(0,120)+" "+(si.line?si.file+":"+std::to_string(si.line):"")+"\n"; } }
  return r; }
// ---------------------------------------------------------------- scheduling
bool multi(State&s){ int n=0; for(auto&t:s.th) if(!t.done) n++; return n>1; }
void footAdd(State&s,u64 a,bool w){ for(auto&f:s.foot) if(f.addr==a){ f.w|=w; return; } s.foot.push_back({a,w}); }
static bool dep(const Foot&a,const Foot&b){ for(auto&x:a) for(auto&y:b) if(x.addr==0||y.addr==0||(x.addr==y.addr&&(x.w||y.w))) return true; return false; }
SyncObj& syncAt(State&s,u64 a){ for(auto&y:s.sync) if(y.addr==a) return y; s.sync.emplace_back(); s.sync.back().addr=a; return s.sync.back(); }
void hbAcquire(State&s,VC&l){ vcJoin(curT(s).vc,l); }
void hbRelease(State&s,VC&l){ VC&v=curT(s).vc; l=v; v[s.cur]++; }
static bool mutexFree(State&s,u64 a,int t){ for(auto&y:s.sync) if(y.addr==a) return y.owner==-1||(y.kind==1&&y.owner==t); return true; }
static bool enabled(State&s,int i){
  Thread&t=s.th[i]; if(t.done) return false; if(!t.parked) return true;
  switch(t.pk){
   case P_LOCK: return mutexFree(s,t.pa,i);
   case P_CWAKE: return (t.notified||t.timed||s.spurious>0)&&(t.pb==0||mutexFree(s,t.pb,i));
   case P_JOIN: return s.th[t.pa].done;
   default: return true;
  }
}
static void endTransition(State&s){
  // finish current transition: record footprint, filter sleep set
  std::vector<std::pair<int,Foot>> nz;
  for(auto&p:s.sleepF) if(p.first!=s.nodeTid&&!dep(p.second,s.foot)) nz.push_back(p);
  for(auto&e:s.sleep){ auto it=e.node->e.find(e.tid); if(it==e.node->e.end()||it->second.open!=0) continue; if(!dep(it->second.f,s.foot)) nz.push_back({e.tid,it->second.f}); }
  if(s.node){ auto&en=s.node->e[s.nodeTid]; for(auto&f:s.foot){ bool had=false; for(auto&g:en.f) if(g.addr==f.addr){g.w|=f.w;had=true;} if(!had) en.f.push_back(f);} en.open--; }
  s.node.reset(); s.sleep.clear(); s.sleepF=nz; 
  bool wrote=false; for(auto&f:s.foot) if(f.w) wrote=true;
  if(wrote) for(size_t i=0;i<s.th.size();i++) if((int)i!=s.cur) s.th[i].yielded=false;
  s.foot.clear(); gSt.transitions++;
}
void abandonState(State&s){ if(s.node){ auto&en=s.node->e[s.nodeTid]; en.f.push_back({0,true}); en.open--; s.node.reset(); } }
static void select(State&s,int t){
  Thread&T=s.th[t]; s.cur=t; T.granted=true; T.parked=false; 
  if(T.pk==P_START){ T.granted=false; T.pk=P_NONE; }
  auto r=std::make_shared<TraceRec>(); r->prev=s.trace; r->s="T"+std::to_string(t)+":"+pkName(T.pk); 
  if(T.st.size()){ for(size_t i=T.st.size();i-->0;){ Frame&f=T.st[i]; if(f.pc<f.fn->code.size()){ auto&si=gSites[f.fn->code[f.pc].site]; if(si.line&&si.file.find("/include/c++")==std::string::npos&&si.file.find("model/")==std::string::npos){ r->s+=" @"+si.file.substr(si.file.rfind('/')+1)+":"+std::to_string(si.line)+" "+si.func; break; } } } }
  s.trace=r;
}
void scheduleNext(State&s){
  endTransition(s);
  std::vector<int> en,cand; bool anyLive=false;
  for(size_t i=0;i<s.th.size();i++){ if(!s.th[i].done) anyLive=true; if(enabled(s,i)) en.push_back(i); }
  if(!anyLive) throw PathEnd{"done"};
  if(en.empty()) throw ViolationEx("deadlock: every live thread is blocked forever");
  // a thread whose only way forward is a timeout/spurious wake counts as enabled
  for(int i:en) if(!s.th[i].yielded) cand.push_back(i);
  if(cand.empty()){ for(int i:en) s.th[i].yielded=false; s.th[0].spinCount++; if(s.th[0].spinCount>60) throw ViolationEx("livelock: every runnable thread spins and nothing can change"); cand=en; }
  bool curOK=std::find(cand.begin(),cand.end(),s.cur)!=cand.end();
  if(gOpt.preempt>=0&&curOK&&s.preempts>=gOpt.preempt) cand={s.cur};
  if(curOK) { auto it=std::find(cand.begin(),cand.end(),s.cur); std::rotate(cand.begin(),it,it+1); }
  if(gOpt.sleepSets&&gOpt.preempt<0){ std::vector<int> c2; for(int t:cand){ bool sl=false; for(auto&p:s.sleepF) if(p.first==t) sl=true; if(!sl) c2.push_back(t); } if(c2.empty()){ gSt.pruned++; throw PathEnd{"sleep"}; } cand=c2; }
  else s.sleepF.clear();
  s.nsched++;
  int c0=cand[0];
  if(cand.size()>1){
    auto node=std::make_shared<SchedNode>(); gSt.scheds+=cand.size()-1;
    std::vector<State*> sib;
    for(size_t i=1;i<cand.size();i++){ State*n=cloneState(s); n->node=node; n->nodeTid=cand[i]; if(gOpt.sleepSets&&gOpt.preempt<0) for(size_t j=0;j<i;j++) n->sleep.push_back({cand[j],node}); if(curOK) n->preempts++; select(*n,cand[i]); sib.push_back(n); }
    for(size_t i=sib.size();i-->0;) pushWork(sib[i]);
    s.node=node; s.nodeTid=c0; node->e[c0].open++;
  } else { s.nodeTid=c0; }
  select(s,c0);
}
void parkAndSchedule(State&s,PK k,u64 a,u64 b){
  Thread&t=curT(s);
  if(t.granted){ t.granted=false; return; }
  if(!multi(s)) return;
  if(k!=P_ATOM_R) t.spinX=nullptr;
  t.parked=true; t.pk=k; t.pa=a; t.pb=b;
  scheduleNext(s); throw Retry{};
}
void threadExit(State&s){
  Thread&t=curT(s); footAdd(s,0x100+s.cur,true);
  if(s.cur==0){ if(s.node){ s.node->e[s.nodeTid].f.push_back({0,true}); s.node->e[s.nodeTid].open--; s.node.reset(); } throw PathEnd{"done"}; }
  t.done=true; t.parked=false; 
  { std::vector<u64> dead; for(auto&p:t.tls) dead.push_back(p.second); for(u64 a:dead) freeObj(s,a); t.tls.clear(); }
  scheduleNext(s); throw Retry{};
}
u64 tlsAddr(State&s,u64 g){
  int idx=-1; for(size_t i=0;i<gGlobs.size();i++) if(gGlobs[i].addr==g){idx=i;break;} if(idx<0) throw EngineError("tls");
  Thread&t=curT(s); auto it=t.tls.find(idx); if(it!=t.tls.end()) return it->second;
  Obj*src=gRO[gGlobs[idx].idx].p; u64 a=allocObj(s,src->size,16,K_TLS,src->nm,true); Obj*o=findObj(s,a); memcpy(o->b,src->b,src->size); curT(s).tls[idx]=a; return a;
}
// ---------------------------------------------------------------- exceptions
static u64 vtClass=0,vtSi=0,vtVmi=0,vtPtr=0,vtFn=0,vtFund=0;
void initTypeinfo(){ auto g=[&](const char*n)->u64{ auto*G=gM->getNamedGlobal(n); return G?gAddr[G]+16:0; };
  vtClass=g("_ZTVN10__cxxabiv117__class_type_infoE"); vtSi=g("_ZTVN10__cxxabiv120__si_class_type_infoE"); vtVmi=g("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); vtPtr=g("_ZTVN10__cxxabiv119__pointer_type_infoE"); vtFund=g("_ZTVN10__cxxabiv123__fundamental_type_infoE"); }
static std::string tiName(State&s,u64 ti){ if(!rd64(s,ti+8)){ if(Obj*o=findObj(s,ti)){ std::string n=o->nm; if(n.compare(0,4,"_ZTI")==0) return n.substr(4); return n; } } return readCStr(s,rd64(s,ti+8)); }
static bool tiSame(State&s,u64 a,u64 b){ return a==b||tiName(s,a)==tiName(s,b); }
typedef std::vector<std::pair<u64,u64>> Subs; // (address, typeinfo) public path
static void collect(State&s,u64 ti,u64 obj,bool pub,u64 target,std::vector<std::pair<u64,bool>>&out){
  if(tiSame(s,ti,target)){ out.push_back({obj,pub}); return; }
  u64 vt=rd64(s,ti);
  if(vt==vtSi&&vt){ collect(s,rd64(s,ti+16),obj,pub,target,out); }
  else if(vt==vtVmi&&vt){ u64 fc=rd64(s,ti+16); u32 n=fc>>32; for(u32 i=0;i<n;i++){ u64 b=rd64(s,ti+24+16*i); i64 of=(i64)rd64(s,ti+32+16*i); i64 off=of>>8; if(of&1){ u64 vp=rd64(s,obj); off=(i64)rd64(s,vp+off); } collect(s,b,obj+off,pub&&(of&2),target,out); } }
}
static bool catchMatch(State&s,u64 thrown,u64 target,u64 obj,u64&adj){
  if(!target){ adj=obj; return true; }
  u64 vt=rd64(s,thrown);
  if(vt==vtPtr&&vt){ u64 p=rd64(s,obj); if(tiSame(s,thrown,target)){ adj=p; return true; } if(rd64(s,target)!=vtPtr) return false; u64 tp=rd64(s,thrown+24),cp=rd64(s,target+24); u32 tf=(u32)rd64(s,thrown+16),cf=(u32)rd64(s,target+16); if((tf&~cf)&7) return false; if(tiSame(s,tp,cp)||tiName(s,cp)=="v"){ adj=p; return true; } 
     std::vector<std::pair<u64,bool>> out; u64 pv=rd64(s,tp); if(pv==vtSi||pv==vtVmi||pv==vtClass){ collect(s,tp,p,true,cp,out); if(out.size()==1&&out[0].second){ adj=out[0].first; return true; } } return false; }
  if(tiSame(s,thrown,target)){ adj=obj; return true; }
  if(vt==vtClass||vt==vtSi||vt==vtVmi){ std::vector<std::pair<u64,bool>> out; collect(s,thrown,obj,true,target,out); std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end()); if(out.size()==1&&out[0].second){ adj=out[0].first; return true; } }
  return false;
}
static int matchLpad(State&s,const LandingPadInst*L,u64 ti,u64 obj,u64&adj,bool&cleanup){ // returns selector, 0 if none
  cleanup=L->isCleanup();
  for(unsigned i=0;i<L->getNumClauses();i++){
    Constant*c=L->getClause(i);
    if(L->isCatch(i)){ u64 t=constVal(c).c; if(catchMatch(s,ti,t,obj,adj)) return t?(int)(t&0x7fffffff):1; }
    else { bool any=false; if(auto*ca=dyn_cast<ConstantArray>(c)) for(unsigned j=0;j<ca->getNumOperands();j++) if(catchMatch(s,ti,constVal(ca->getOperand(j)).c,obj,adj)) any=true; if(!any){ adj=obj; return -(int)(i+1); } }
  }
  return 0;
}
void doUnwind(State&s,u64 hdr){
  u64 ti=rd64(s,hdr), obj=rd64(s,hdr+16); Thread&t=curT(s); u64 adj=obj; bool cl;
  int found=-1;
  for(size_t i=t.st.size();i-->0;){ Frame&f=t.st[i]; const Inst&x=f.fn->code[f.pc]; if(!x.invoke) continue; auto*L=cast<InvokeInst>(x.I)->getLandingPadInst(); if(matchLpad(s,L,ti,obj,adj,cl)){ found=i; break; } }
  if(found<0) throw ViolationEx("std::terminate: uncaught exception of type "+tiName(s,ti));
  while(true){
    Frame&f=t.st.back(); const Inst&x=f.fn->code[f.pc];
    if(x.invoke){ auto*L=cast<InvokeInst>(x.I)->getLandingPadInst(); int sel=matchLpad(s,L,ti,obj,adj,cl);
      if(sel||cl){ if(sel) wr64(s,hdr+8,adj); enterBlock(f,x.t2); Block&b=f.fn->blocks[f.bb]; f.pc=b.lpad; const Inst&lp=f.fn->code[f.pc]; f.regs[lp.dst]=aggVal({Val(hdr),Val((u64)(u32)sel)}); f.pc++; return; } }
    popFrame(s);
  }
}
void doDynamicCast(State&s,const Inst&x,std::vector<Val>&a,Val&ret){
  u64 p=concretize(s,a[0],64); if(!p){ ret=Val(0); return; }
  u64 vp=rd64(s,p); i64 top=(i64)rd64(s,vp-16); u64 whole=p+top, wti=rd64(s,vp-8);
  std::vector<std::pair<u64,bool>> out; collect(s,wti,whole,true,a[2].c,out); std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end());
  ret=Val(out.size()==1&&out[0].second?out[0].first:0);
}
// ---------------------------------------------------------------- arithmetic
static Val binop(u32 op,Val a,Val b,u32 w){
  if(a.isC()&&b.isC()&&w<=64){
    u64 m=maskw(w),x=a.c,y=b.c;
    switch(op){
     case Instruction::Add:return Val((x+y)&m); case Instruction::Sub:return Val((x-y)&m); case Instruction::Mul:return Val((x*y)&m);
     case Instruction::And:return Val(x&y); case Instruction::Or:return Val(x|y); case Instruction::Xor:return Val(x^y);
     case Instruction::Shl: if(y>=w) return freshUndef(w,"poison"); return Val((x<<y)&m);
     case Instruction::LShr: if(y>=w) return freshUndef(w,"poison"); return Val(x>>y);
     case Instruction::AShr: if(y>=w) return freshUndef(w,"poison"); return Val((u64)(sx(x,w)>>y)&m);
     case Instruction::UDiv: return Val(x/y); case Instruction::URem: return Val(x%y);
     case Instruction::SDiv: { i64 p=sx(x,w),q=sx(y,w); return Val(q==-1?(0-(u64)p)&m:(u64)(p/q)&m); }
     case Instruction::SRem: { i64 p=sx(x,w),q=sx(y,w); return Val(q==-1?0:(u64)(p%q)&m); }
    } }
  Op o;
  switch(op){ case Instruction::Add:o=E_ADD;break; case Instruction::Sub:o=E_SUB;break; case Instruction::Mul:o=E_MUL;break; case Instruction::And:o=E_AND;break; case Instruction::Or:o=E_OR;break; case Instruction::Xor:o=E_XOR;break; case Instruction::Shl:o=E_SHL;break; case Instruction::LShr:o=E_LSHR;break; case Instruction::AShr:o=E_ASHR;break; case Instruction::UDiv:o=E_UDIV;break; case Instruction::URem:o=E_UREM;break; case Instruction::SDiv:o=E_SDIV;break; default:o=E_SREM; }
  return fromE(mkBin(o,ex(a,w),ex(b,w)));
}
static double asD(Val v,u32 w){ if(w==32){ float f; u32 u=(u32)v.c; memcpy(&f,&u,4); return f; } double d; memcpy(&d,&v.c,8); return d; }
static Val fromD(double d,u32 w){ if(w==32){ float f=(float)d; u32 u; memcpy(&u,&f,4); return Val(u);} u64 u; memcpy(&u,&d,8); return Val(u); }
static Val icmp(u32 p,Val a,Val b,u32 w){
  if(a.isC()&&b.isC()&&w<=64){ u64 x=a.c,y=b.c; i64 sx_=sx(x,w),sy=sx(y,w);
    switch(p){ case CmpInst::ICMP_EQ:return Val(x==y); case CmpInst::ICMP_NE:return Val(x!=y); case CmpInst::ICMP_ULT:return Val(x<y); case CmpInst::ICMP_ULE:return Val(x<=y); case CmpInst::ICMP_UGT:return Val(x>y); case CmpInst::ICMP_UGE:return Val(x>=y); case CmpInst::ICMP_SLT:return Val(sx_<sy); case CmpInst::ICMP_SLE:return Val(sx_<=sy); case CmpInst::ICMP_SGT:return Val(sx_>sy); case CmpInst::ICMP_SGE:return Val(sx_>=sy); } }
  Expr*x=ex(a,w),*y=ex(b,w);
  switch(p){ case CmpInst::ICMP_EQ:return fromE(mkEq(x,y)); case CmpInst::ICMP_NE:return fromE(mkNot(mkEq(x,y))); case CmpInst::ICMP_ULT:return fromE(mkBin(E_ULT,x,y)); case CmpInst::ICMP_ULE:return fromE(mkBin(E_ULE,x,y)); case CmpInst::ICMP_UGT:return fromE(mkBin(E_ULT,y,x)); case CmpInst::ICMP_UGE:return fromE(mkBin(E_ULE,y,x)); case CmpInst::ICMP_SLT:return fromE(mkBin(E_SLT,x,y)); case CmpInst::ICMP_SLE:return fromE(mkBin(E_SLE,x,y)); case CmpInst::ICMP_SGT:return fromE(mkBin(E_SLT,y,x)); case CmpInst::ICMP_SGE:return fromE(mkBin(E_SLE,y,x)); }
  abort();
}
static Val selectV(Val c,Val a,Val b,u32 w){
  if(c.isC()) return c.c?a:b;
  if(a.e&&a.e->op==E_AGG){ auto*x=(AggExpr*)a.e,*y=(AggExpr*)b.e; (void)x;(void)y; throw EngineError("select on aggregate"); }
  return fromE(mkIte(c.e,ex(a,w),ex(b,w)));
}
static std::vector<Val> getArgs(State&s,Frame&f,const Inst&x){ std::vector<Val> a; a.reserve(x.args.size()); for(int o:x.args) a.push_back(R(f,o));
  for(auto&bv:x.sc){ u64 src=a[bv.first].c; u64 n=allocObj(s,bv.second,16,K_STACK,"byval",false); curT(s).st.back().allocas.push_back(n); memCopy(s,x,n,src,bv.second,false); a[bv.first]=Val(n); }
  return a; }
Val gRet;
static void atomicFoot(State&s,const Inst&x,u64 a,bool w){
  if(!s.mt) return;
  bool hidden=x.norace||(!gOpt.schedRefcnt&&x.refcnt);
  if(!hidden) parkAndSchedule(s,w?P_ATOM_W:P_ATOM_R,a);
  footAdd(s,a,w);
}
static bool isAcq(u8 o){ auto x=(AtomicOrdering)o; return x==AtomicOrdering::Acquire||x==AtomicOrdering::AcquireRelease||x==AtomicOrdering::SequentiallyConsistent; }
static bool isRel(u8 o){ auto x=(AtomicOrdering)o; return x==AtomicOrdering::Release||x==AtomicOrdering::AcquireRelease||x==AtomicOrdering::SequentiallyConsistent; }
static void hbLoad(State&s,u64 a,u8 ord){ if(!s.mt) return; auto&y=syncAt(s,a); if(isAcq(ord)) hbAcquire(s,y.vc); else vcJoin(curT(s).acqP,y.vc); }
static void hbStore(State&s,u64 a,u8 ord,bool rmw){ if(!s.mt) return; auto&y=syncAt(s,a); Thread&t=curT(s); if(isRel(ord)){ if(rmw){ vcJoin(y.vc,t.vc); t.vc[s.cur]++; } else hbRelease(s,y.vc); } else { if(!rmw) y.vc=t.relF; else vcJoin(y.vc,t.relF); } }
static Val ovf(State&s,unsigned id,Val a,Val b,u32 w){
  Expr*x=ex(a,w),*y=ex(b,w); Val r,o;
  switch(id){
   case Intrinsic::uadd_with_overflow: { Expr*z=mkBin(E_ADD,x,y); r=fromE(z); o=fromE(mkBin(E_ULT,z,x)); break; }
   case Intrinsic::usub_with_overflow: { r=fromE(mkBin(E_SUB,x,y)); o=fromE(mkBin(E_ULT,x,y)); break; }
   case Intrinsic::umul_with_overflow: { Expr*z=mkBin(E_MUL,mkZext(x,2*w),mkZext(y,2*w)); r=fromE(mkExtract(z,0,w)); o=fromE(mkNot(mkEq(mkExtract(z,w,w),mkConst(0,w)))); break; }
   case Intrinsic::sadd_with_overflow: { Expr*z=mkBin(E_ADD,mkSext(x,w+1),mkSext(y,w+1)); r=fromE(mkBin(E_ADD,x,y)); o=fromE(mkNot(mkEq(mkExtract(z,w,1),mkExtract(z,w-1,1)))); break; }
   case Intrinsic::ssub_with_overflow: { Expr*z=mkBin(E_SUB,mkSext(x,w+1),mkSext(y,w+1)); r=fromE(mkBin(E_SUB,x,y)); o=fromE(mkNot(mkEq(mkExtract(z,w,1),mkExtract(z,w-1,1)))); break; }
   default: { Expr*z=mkBin(E_MUL,mkSext(x,2*w),mkSext(y,2*w)); Expr*l=mkExtract(z,0,w); r=fromE(l); o=fromE(mkNot(mkEq(z,mkSext(l,2*w)))); }
  }
  return aggVal({r,o});
}
static const char* ubKind(u64 k){ static const char*n[]={"add-overflow","builtin-unreachable","cfi-check-fail","divrem-overflow","dynamic-type-cache-miss","float-cast-overflow","function-type-mismatch","implicit-conversion","invalid-builtin","invalid-objc-cast","load-invalid-value","missing-return","mul-overflow","negate-overflow","nullability-arg","nullability-return","nonnull-arg","nonnull-return","out-of-bounds","pointer-overflow","shift-out-of-bounds","sub-overflow","type-mismatch (misaligned or null object)","alignment-assumption","vla-bound-not-positive"}; return k<sizeof(n)/sizeof(*n)?n[k]:"ub"; }
static void intrinsic(State&s,Frame&f,const Inst&x){
  unsigned id=x.imm; u32 w=x.w;
  auto A=[&](int i)->Val{ return R(f,x.args[i]); };
  switch(id){
   case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::stackrestore: advance(s,x); return;
   case Intrinsic::vastart: { // not modelled: leave the list alone
     advance(s,x); return; }
   case Intrinsic::vaend: case Intrinsic::vacopy: advance(s,x); return;
   case Intrinsic::stacksave: setReg(s,x,Val(0)); advance(s,x); return;
   case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: setReg(s,x,A(0)); advance(s,x); return;
   case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n=concretize(s,A(2),x.I->getOperand(2)->getType()->getIntegerBitWidth()); u64 d=concretize(s,A(0),64),r=concretize(s,A(1),64); 
      if(id==Intrinsic::memcpy&&n&&d!=r&&d<r+n&&r<d+n) throw ViolationEx("memcpy with overlapping source and destination");
      memCopy(s,x,d,r,n,!x.norace); advance(s,x); return; }
   case Intrinsic::memset: { u64 n=concretize(s,A(2),64); u64 d=concretize(s,A(0),64); memFill(s,x,d,A(1),n,!x.norace); advance(s,x); return; }
   case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: setReg(s,x,ovf(s,id,A(0),A(1),x.w2)); advance(s,x); return;
   case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { Val a=A(0),b=A(1); u32 p=id==Intrinsic::umin?CmpInst::ICMP_ULT:id==Intrinsic::umax?CmpInst::ICMP_UGT:id==Intrinsic::smin?CmpInst::ICMP_SLT:CmpInst::ICMP_SGT; setReg(s,x,selectV(icmp(p,a,b,w),a,b,w)); advance(s,x); return; }
   case Intrinsic::usub_sat: { Val a=A(0),b=A(1); setReg(s,x,selectV(icmp(CmpInst::ICMP_ULT,a,b,w),w>64?Val(0,mkConst(0,w)):Val(0),binop(Instruction::Sub,a,b,w),w)); advance(s,x); return; }
   case Intrinsic::uadd_sat: { Val a=A(0),b=A(1); Val r=binop(Instruction::Add,a,b,w); setReg(s,x,selectV(icmp(CmpInst::ICMP_ULT,r,a,w),Val(maskw(w)),r,w)); advance(s,x); return; }
   case Intrinsic::abs: { Val a=A(0); setReg(s,x,selectV(icmp(CmpInst::ICMP_SLT,a,Val(0),w),binop(Instruction::Sub,Val(0),a,w),a,w)); advance(s,x); return; }
   case Intrinsic::ctpop: { Val a=A(0); Expr*e=ex(a,w); Expr*r=mkConst(0,w); for(u32 i=0;i<w;i++) r=mkBin(E_ADD,r,mkZext(mkExtract(e,i,1),w)); setReg(s,x,fromE(r)); advance(s,x); return; }
   case Intrinsic::ctlz: { Expr*e=ex(A(0),w); Expr*r=mkConst(w,w); for(u32 i=0;i<w;i++) r=mkIte(mkEq(mkExtract(e,i,1),mkConst(1,1)),mkConst(w-1-i,w),r); setReg(s,x,fromE(r)); advance(s,x); return; }
   case Intrinsic::cttz: { Expr*e=ex(A(0),w); Expr*r=mkConst(w,w); for(u32 i=w;i-->0;) r=mkIte(mkEq(mkExtract(e,i,1),mkConst(1,1)),mkConst(i,w),r); setReg(s,x,fromE(r)); advance(s,x); return; }
   case Intrinsic::bswap: { Expr*e=ex(A(0),w); Expr*r=nullptr; for(u32 i=0;i<w;i+=8){ Expr*b=mkExtract(e,i,8); r=r?mkConcat(r,b):b; } setReg(s,x,fromE(r)); advance(s,x); return; }
   case Intrinsic::fshl: case Intrinsic::fshr: { Expr*a=ex(A(0),w),*b=ex(A(1),w),*c=ex(A(2),w); Expr*cc=mkConcat(a,b); Expr*sh=mkZext(mkBin(E_UREM,c,mkConst(w,w)),2*w); Expr*r= id==Intrinsic::fshl?mkExtract(mkBin(E_SHL,cc,sh),w,w):mkExtract(mkBin(E_LSHR,cc,sh),0,w); setReg(s,x,fromE(r)); advance(s,x); return; }
   case Intrinsic::is_constant: setReg(s,x,Val(0)); advance(s,x); return;
   case Intrinsic::objectsize: setReg(s,x,Val(maskw(w))); advance(s,x); return;
   case Intrinsic::eh_typeid_for: setReg(s,x,Val(A(0).c&0x7fffffff)); advance(s,x); return;
   case Intrinsic::threadlocal_address: setReg(s,x,Val(tlsAddr(s,A(0).c))); advance(s,x); return;
   case Intrinsic::returnaddress: case Intrinsic::frameaddress: setReg(s,x,Val(0)); advance(s,x); return;
   case Intrinsic::trap: throw ViolationEx("trap executed");
   case Intrinsic::ubsantrap: throw ViolationEx(std::string("undefined behaviour: ")+ubKind(A(0).c));
   case Intrinsic::fabs: setReg(s,x,fromD(std::fabs(asD(A(0),w)),w)); advance(s,x); return;
   case Intrinsic::ceil: setReg(s,x,fromD(std::ceil(asD(A(0),w)),w)); advance(s,x); return;
   case Intrinsic::floor: setReg(s,x,fromD(std::floor(asD(A(0),w)),w)); advance(s,x); return;
   case Intrinsic::fmuladd: setReg(s,x,fromD(asD(A(0),w)*asD(A(1),w)+asD(A(2),w),w)); advance(s,x); return;
   default: throw EngineError("intrinsic not supported: "+cast<CallBase>(x.I)->getCalledFunction()->getName().str());
  }
}
static void doBranch(State&s,Frame&f,Val c,u32 t1,u32 t2){
  if(c.isC()){ enterBlock(f,c.c?t1:t2); return; }
  Expr*e=c.e; 
  for(size_t i=s.cons.size();i-->0;) if(s.cons[i]==e){ enterBlock(f,t1); return; }
  { Expr*n=mkNot(e); for(size_t i=s.cons.size();i-->0;) if(s.cons[i]==n){ enterBlock(f,t2); return; } }
  bool t=eval(e,*s.model); Expr*o=t?mkNot(e):e; ModelP m;
  bool as=false; if(solverSat(s.cons,o,*s.model,&m,&as)){ State*n=cloneState(s); n->model=m; if(as) n->approx=true; addCons(*n,o); enterBlock(curT(*n).st.back(),t?t2:t1); gSt.forks++; pushWork(n); addCons(s,t?e:mkNot(e)); }
  else { /* implied: no need to add */ }
  enterBlock(f,t?t1:t2);
}
static Val aggLoad(State&s,const Inst&x,Type*t,u64 a){
  std::vector<Val> v;
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=gDL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) v.push_back(aggLoad(s,x,st->getElementType(i),a+sl->getElementOffset(i))); return aggVal(v); }
  if(auto*at=dyn_cast<ArrayType>(t)){ u64 n=gDL->getTypeAllocSize(at->getElementType()); for(u64 i=0;i<at->getNumElements();i++) v.push_back(aggLoad(s,x,at->getElementType(),a+i*n)); return aggVal(v); }
  if(!t->isIntegerTy()&&!t->isPointerTy()&&!t->isFloatTy()&&!t->isDoubleTy()) throw EngineError("aggregate load");
  return memLoad(s,x,Val(a),gDL->getTypeStoreSize(t),(u32)gDL->getTypeSizeInBits(t),x.norace?2:0);
}
static void step(State&s){
  Thread&T=s.th[s.cur]; Frame&f=T.st.back(); const Inst&x=f.fn->code[f.pc];
  gSiteHit[x.site]=1;
  switch(x.op){
   case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    f.regs[x.dst]=binop(x.op,R(f,x.a),R(f,x.b),x.w); f.pc++; return;
   case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    Val d=R(f,x.b); if(d.isC()?(d.c==0):false) throw ViolationEx("division by zero");
    if(!d.isC()){ Expr*z=mkEq(d.e,mkConst(0,x.w)); if(branchOn(s,z)) throw ViolationEx("division by zero"); }
    Frame&g=curT(s).st.back(); g.regs[x.dst]=binop(x.op,R(g,x.a),R(g,x.b),x.w); g.pc++; return; }
   case Instruction::ICmp: f.regs[x.dst]=icmp(x.imm,R(f,x.a),R(f,x.b),x.w2); f.pc++; return;
   case Instruction::Trunc: { Val v=R(f,x.a); if(v.isC()) v.c&=maskw(x.w); else v=fromE(mkExtract(v.e,0,x.w)); f.regs[x.dst]=v; f.pc++; return; }
   case Instruction::ZExt: { Val v=R(f,x.a); if(!v.isC()) v=fromE(mkZext(v.e,x.w)); else if(x.w>64) v=Val(0,mkZext(mkConst(v.c,x.w2),x.w)); f.regs[x.dst]=v; f.pc++; return; }
   case Instruction::SExt: { Val v=R(f,x.a); if(v.isC()&&x.w<=64) v.c=(u64)sx(v.c,x.w2)&maskw(x.w); else v=fromE(mkSext(ex(v,x.w2),x.w)); f.regs[x.dst]=v; f.pc++; return; }
   case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v=R(f,x.a); if(x.w<x.w2){ if(v.isC()) v.c&=maskw(x.w); else v=fromE(mkExtract(v.e,0,x.w)); } else if(x.w>x.w2){ if(!v.isC()) v=fromE(mkZext(v.e,x.w)); else if(x.w>64) v=Val(0,mkConst(v.c,x.w)); } f.regs[x.dst]=v; f.pc++; return; }
   case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: f.regs[x.dst]=R(f,x.a); f.pc++; return;
   case Instruction::Select: f.regs[x.dst]=selectV(R(f,x.a),R(f,x.b),R(f,x.c),x.w); f.pc++; return;
   case Instruction::GetElementPtr: {
    Val p=R(f,x.a); u64 off=x.imm; Expr*e=nullptr;
    for(size_t i=0;i<x.sc.size();i++){ Val v=R(f,x.sc[i].first); u32 w=x.args[i]; if(v.isC()) off+=(u64)sx(v.c,w)*x.sc[i].second; else { Expr*y=v.e; if(y->w<64) y=mkSext(y,64); y=mkBin(E_MUL,y,mkConst(x.sc[i].second,64)); e=e?mkBin(E_ADD,e,y):y; } }
    if(p.isC()&&!e) f.regs[x.dst]=Val(p.c+off);
    else { Expr*r=mkBin(E_ADD,ex(p,64),mkConst(off,64)); if(e) r=mkBin(E_ADD,r,e); f.regs[x.dst]=fromE(r); }
    f.pc++; return; }
   case Instruction::Alloca: { u64 n=x.imm; Val k=R(f,x.a); n*=concretize(s,k,64); u64 a=allocObj(s,n,x.w2,K_STACK,"local",false); f.allocas.push_back(a); f.regs[x.dst]=Val(a); f.pc++; return; }
   case Instruction::Load: {
    if(x.ord){ u64 a=concretize(s,R(f,x.a),64); { Thread&t=curT(s); if(t.spinX==&x&&t.spinA==a&&t.spinN>=3&&!t.granted&&multi(s)) t.yielded=true; } atomicFoot(s,x,a,false); Val v=memLoad(s,x,Val(a),x.imm,x.w,x.norace?2:1); hbLoad(s,a,x.ord); { Thread&t=curT(s); if(t.spinX==&x&&t.spinA==a&&t.spinV.c==v.c&&t.spinV.e==v.e) t.spinN++; else { t.spinX=&x; t.spinA=a; t.spinV=v; t.spinN=1; } } Frame&g=curT(s).st.back(); g.regs[x.dst]=v; g.pc++; return; }
    if(!x.w){ u64 a=concretize(s,R(f,x.a),64); Val v=aggLoad(s,x,x.I->getType(),a); Frame&g=curT(s).st.back(); g.regs[x.dst]=v; g.pc++; return; }
    Val v=memLoad(s,x,R(f,x.a),x.imm,x.w,x.norace?2:0); f.regs[x.dst]=v; f.pc++; return; }
   case Instruction::Store: {
    if(x.ord){ u64 a=concretize(s,R(f,x.a),64); atomicFoot(s,x,a,true); memStore(s,x,Val(a),R(f,x.b),x.imm,x.w,x.norace?2:1); hbStore(s,a,x.ord,false); f.pc++; return; }
    Val v=R(f,x.b);
    if(!x.w){ if(v.e&&v.e->op==E_AGG){ auto*st=cast<StructType>(cast<StoreInst>(x.I)->getValueOperand()->getType()); auto*sl=gDL->getStructLayout(st); u64 a=concretize(s,R(f,x.a),64); auto&fl=((AggExpr*)v.e)->f; for(size_t i=0;i<fl.size();i++){ Type*et=st->getElementType(i); memStore(s,x,Val(a+sl->getElementOffset(i)),fl[i],gDL->getTypeStoreSize(et),widthOf(et),x.norace?2:0);} f.pc++; return; } throw EngineError("aggregate store"); }
    memStore(s,x,R(f,x.a),v,x.imm,x.w,x.norace?2:0); f.pc++; return; }
   case Instruction::AtomicRMW: {
    u64 a=concretize(s,R(f,x.a),64); atomicFoot(s,x,a,true);
    Val old=memLoad(s,x,Val(a),x.imm,x.w,x.norace?2:1); Val v=R(f,x.b),n;
    switch((AtomicRMWInst::BinOp)x.c){
     case AtomicRMWInst::Xchg:n=v;break; case AtomicRMWInst::Add:n=binop(Instruction::Add,old,v,x.w);break; case AtomicRMWInst::Sub:n=binop(Instruction::Sub,old,v,x.w);break;
     case AtomicRMWInst::And:n=binop(Instruction::And,old,v,x.w);break; case AtomicRMWInst::Or:n=binop(Instruction::Or,old,v,x.w);break; case AtomicRMWInst::Xor:n=binop(Instruction::Xor,old,v,x.w);break;
     case AtomicRMWInst::Nand:n=binop(Instruction::Xor,binop(Instruction::And,old,v,x.w),Val(maskw(x.w)),x.w);break;
     case AtomicRMWInst::Max:n=selectV(icmp(CmpInst::ICMP_SGT,old,v,x.w),old,v,x.w);break; case AtomicRMWInst::Min:n=selectV(icmp(CmpInst::ICMP_SLT,old,v,x.w),old,v,x.w);break;
     case AtomicRMWInst::UMax:n=selectV(icmp(CmpInst::ICMP_UGT,old,v,x.w),old,v,x.w);break; case AtomicRMWInst::UMin:n=selectV(icmp(CmpInst::ICMP_ULT,old,v,x.w),old,v,x.w);break;
     default: throw EngineError("atomicrmw op"); }
    memStore(s,x,Val(a),n,x.imm,x.w,x.norace?2:1); hbLoad(s,a,x.ord); hbStore(s,a,x.ord,true); f.regs[x.dst]=old; f.pc++; return; }
   case Instruction::AtomicCmpXchg: {
    u64 a=concretize(s,R(f,x.a),64); 
    atomicFoot(s,x,a,true);
    Val old=memLoad(s,x,Val(a),x.imm,x.w,x.norace?2:1); Val eq=icmp(CmpInst::ICMP_EQ,old,R(f,x.b),x.w); 
    bool ok=eq.isC()?eq.c:branchOn(s,eq.e);
    if(ok){ memStore(s,x,Val(a),R(f,x.c),x.imm,x.w,x.norace?2:1); hbLoad(s,a,x.ord); hbStore(s,a,x.ord,true); } else hbLoad(s,a,x.w2);
    f.regs[x.dst]=aggVal({old,Val(ok)}); f.pc++; return; }
   case Instruction::Fence: { Thread&t=curT(s); if(s.mt){ if(isAcq(x.ord)) vcJoin(t.vc,t.acqP); if(isRel(x.ord)){ t.relF=t.vc; t.vc[s.cur]++; } } f.pc++; return; }
   case Instruction::ExtractValue: { Val v=R(f,x.a); for(int i:x.args){ if(!v.e||v.e->op!=E_AGG) throw EngineError("extractvalue"); v=((AggExpr*)v.e)->f[i]; } f.regs[x.dst]=v; f.pc++; return; }
   case Instruction::InsertValue: { Val v=R(f,x.a); 
     if(x.args.size()==1){ auto n=((AggExpr*)v.e)->f; n[x.args[0]]=R(f,x.b); f.regs[x.dst]=aggVal(n); }
     else if(x.args.size()==2){ auto n=((AggExpr*)v.e)->f; auto m=((AggExpr*)n[x.args[0]].e)->f; m[x.args[1]]=R(f,x.b); n[x.args[0]]=aggVal(m); f.regs[x.dst]=aggVal(n); }
     else throw EngineError("insertvalue depth"); f.pc++; return; }
   case Instruction::Br: if(!x.imm) enterBlock(f,x.t1); else doBranch(s,f,R(f,x.a),x.t1,x.t2); return;
   case Instruction::Switch: {
    Val v=R(f,x.a);
    if(v.isC()){ for(size_t i=0;i<x.args.size();i++) if(R(f,x.args[i]).c==v.c){ enterBlock(f,x.sw[i]); return; } enterBlock(f,x.t1); return; }
    for(size_t i=0;i<x.args.size();i++){ Expr*c=mkEq(v.e,ex(R(f,x.args[i]),x.w)); if(branchOn(s,c)){ enterBlock(curT(s).st.back(),x.sw[i]); return; } }
    enterBlock(f,x.t1); return; }
   case Instruction::Ret: {
    Val r; if(x.imm) r=R(f,x.a);
    if(T.st.size()==1){ popFrame(s); threadExit(s); return; }
    u8 onr=f.onRet; popFrame(s); Frame&c=curT(s).st.back(); 
    if(onr==1){ return; } // nested call injected by a builtin: caller re-executes its instruction
    const Inst&ci=c.fn->code[c.pc]; if(ci.dst>=0) c.regs[ci.dst]=r; advance(s,ci); return; }
   case X_CALL: { auto a=getArgs(s,f,x); pushFrame(s,x.fn,a,x.dst); return; }
   case X_CALLI: { u64 p=concretize(s,R(f,x.a),64); auto it=gFnByAddr.find(p); if(it==gFnByAddr.end()) throw ViolationEx(p<4096?"call through null function pointer":"call through invalid function pointer"); Fn*fn=it->second; auto a=getArgs(s,curT(s).st.back(),x);
     if(fn->decl||findBuiltinOverride(fn->name)){ Builtin b=findBuiltin(fn->name); if(!b) throw EngineError("call to unmodelled external function "+fn->name); gRet=Val(0); b(s,x,a); setReg(s,x,gRet); advance(s,x); return; }
     pushFrame(s,fn,a,x.dst); return; }
   case X_BUILTIN: { auto a=getArgs(s,f,x); gRet=Val(0); x.bi(s,x,a); setReg(s,x,gRet); advance(s,x); return; }
   case X_INTR: intrinsic(s,f,x); return;
   case X_NOP: advance(s,x); return;
   case Instruction::Resume: { Val v=R(f,x.a); u64 h=((AggExpr*)v.e)->f[0].c; doUnwind(s,h); return; }
   case Instruction::Unreachable: throw ViolationEx("unreachable code reached (flowing off the end of a value-returning function or other undefined behaviour)");
   case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FCmp: case Instruction::FNeg: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
    Val a=R(f,x.a),b=(x.op==Instruction::FNeg||x.op>=Instruction::Trunc&&x.op<=Instruction::FPExt)?Val(0):R(f,x.b);
    u32 wi=x.op==Instruction::FCmp?x.w2:x.w;
    if(!a.isC()) { concretizeHigh(s,a,x.w2?x.w2:x.w); a=Val(eval(a.e,*s.model)); }
    if(!b.isC()) { concretizeHigh(s,b,wi); b=Val(eval(b.e,*s.model)); }
    Val r;
    switch(x.op){
     case Instruction::FAdd:r=fromD(asD(a,x.w)+asD(b,x.w),x.w);break; case Instruction::FSub:r=fromD(asD(a,x.w)-asD(b,x.w),x.w);break; case Instruction::FMul:r=fromD(asD(a,x.w)*asD(b,x.w),x.w);break; case Instruction::FDiv:r=fromD(asD(a,x.w)/asD(b,x.w),x.w);break; case Instruction::FRem:r=fromD(std::fmod(asD(a,x.w),asD(b,x.w)),x.w);break;
     case Instruction::FNeg:r=fromD(-asD(a,x.w),x.w);break;
     case Instruction::FPToUI:r=Val((u64)asD(a,x.w2)&maskw(x.w));break; case Instruction::FPToSI:r=Val((u64)(i64)asD(a,x.w2)&maskw(x.w));break;
     case Instruction::UIToFP:r=fromD((double)a.c,x.w);break; case Instruction::SIToFP:r=fromD((double)sx(a.c,x.w2),x.w);break;
     case Instruction::FPTrunc: case Instruction::FPExt:r=fromD(asD(a,x.w2),x.w);break;
     case Instruction::FCmp:{ double p=asD(a,wi),q=asD(b,wi); bool un=std::isnan(p)||std::isnan(q); bool o=false; switch(x.imm){ case CmpInst::FCMP_OEQ:o=!un&&p==q;break; case CmpInst::FCMP_OGT:o=!un&&p>q;break; case CmpInst::FCMP_OGE:o=!un&&p>=q;break; case CmpInst::FCMP_OLT:o=!un&&p<q;break; case CmpInst::FCMP_OLE:o=!un&&p<=q;break; case CmpInst::FCMP_ONE:o=!un&&p!=q;break; case CmpInst::FCMP_ORD:o=!un;break; case CmpInst::FCMP_UNO:o=un;break; case CmpInst::FCMP_UEQ:o=un||p==q;break; case CmpInst::FCMP_UGT:o=un||p>q;break; case CmpInst::FCMP_UGE:o=un||p>=q;break; case CmpInst::FCMP_ULT:o=un||p<q;break; case CmpInst::FCMP_ULE:o=un||p<=q;break; case CmpInst::FCMP_UNE:o=un||p!=q;break; case CmpInst::FCMP_TRUE:o=true;break; } r=Val(o); }
    }
    Frame&g=curT(s).st.back(); g.regs[x.dst]=r; g.pc++; return; }
   default: throw EngineError("op");
  }
}
static void statePathEnd(State*s,const std::string&why){ if(why=="done") gSt.paths++; else if(why=="infeasible") gSt.infeasible++; if(s->nsched>gSt.maxdepth) gSt.maxdepth=s->nsched; }
std::vector<std::string> gEngineErrors;
void abandonAll(){ gWork.clear(); }
void runAll(State*init){
  if(init) gWork.push_back(init);
  u64 tick=0;
  while(!gWork.empty()){
    if(stopRequested()) return;
    stealCheck(nullptr);
    if(gWork.empty()) break;
    State*s=gWork.back(); gWork.pop_back();
    std::string why;
    try{
      while(true){
        try{ while(true){ step(*s); s->steps++; gSt.insts++; if(!(++tick&0xfff)){ if(s->steps>gOpt.maxSteps) throw ViolationEx("no termination within "+std::to_string(gOpt.maxSteps)+" executed instructions on one path"); if(stopRequested()) return; if(gWork.size()) stealCheck(s); } } }
        catch(Retry&){}
      }
    }
    catch(PathEnd&e){ why=e.why; }
    catch(ViolationEx&e){ why="violation"; try{ fixModel(*s); reportViolation(*s,e.m); } catch(PathEnd&){ why="infeasible"; } catch(SolverUnknown&u){ why="error"; gEngineErrors.push_back("solver gave no answer: "+u.why); } }
    catch(SolverUnknown&e){ why="error"; gEngineErrors.push_back("solver gave no answer: "+e.why+"\n"+stackStr(*s)); }
    catch(EngineError&e){ why="error"; gEngineErrors.push_back(e.m+"\n"+stackStr(*s)); }
    statePathEnd(s,why); abandonState(*s); 
    delete s;
    if(gEngineErrors.size()>5) return;
  }
}
