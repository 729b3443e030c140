#include "engine.h"
#include <llvm/IR/Intrinsics.h>
#include <errno.h>
#include <algorithm>
using namespace llvm;
extern Val gRet; void memCopy(State&s,const Inst&x,u64 d,u64 sr,u64 n,bool access); void memFill(State&s,const Inst&x,u64 d,Val v,u64 n,bool access);
void doDynamicCast(State&s,const Inst&x,std::vector<Val>&a,Val&ret);
typedef std::vector<Val> A;
#define BI(name) static void name(State&s,const Inst&x,A&a)
static void addSym(State&s,const std::string&n,std::vector<Expr*> v,bool choice=false){ auto r=std::make_shared<SymRec>(); r->name=n; r->v=std::move(v); r->prev=s.syms; r->choice=choice; s.syms=r; }
static std::string cstr(State&s,Val v){ return readCStr(s,concretize(s,v,64)); }
// ---- harness API
BI(b_sym){ u64 p=concretize(s,a[0],64),n=concretize(s,a[1],64); std::string nm=cstr(s,a[2]); std::vector<Expr*> rec;
  for(u64 o=0;o<n;){ u64 k=n-o>=8?8:n-o>=4?4:n-o>=2?2:1; Expr*v=mkVar(n<=8?nm:nm+"@"+std::to_string(o),k*8); rec.push_back(v); memStore(s,x,Val(p+o),Val(0,v),k,k*8,0); o+=k; }
  addSym(s,nm,rec); }
BI(b_symbytes){ u64 p=concretize(s,a[0],64),n=concretize(s,a[1],64); std::string nm=cstr(s,a[2]); std::vector<Expr*> rec;
  for(u64 o=0;o<n;o++){ Expr*v=mkVar(nm+"["+std::to_string(o)+"]",8); rec.push_back(v); memStore(s,x,Val(p+o),Val(0,v),1,8,0); }
  addSym(s,nm,rec); }
BI(b_choose){ u64 n=concretize(s,a[0],64); std::string nm=cstr(s,a[1]); if(!n) throw PathEnd{"infeasible"};
  Expr*v=mkVar(nm,32); std::vector<State*> sib;
  for(u64 i=n;i-->1;){ State*c=cloneState(s); auto m=std::make_shared<Model>(*s.model); if(m->v.size()<=v->c) m->v.resize(v->c+1,0); m->v[v->c]=i; c->model=m; addSym(*c,nm,{mkConst(i,32)},true); Frame&f=curT(*c).st.back(); if(x.dst>=0) f.regs[x.dst]=Val(i); advance(*c,x); gSt.forks++; pushWork(c); }
  addSym(s,nm,{mkConst(0,32)},true); gRet=Val(0); }
BI(b_assume){ Val c=a[0]; if(c.isC()){ if(!(c.c&1)) throw PathEnd{"infeasible"}; return; }
  Expr*e=c.e->w==1?c.e:mkExtract(c.e,0,1); if(isConst(e)){ if(!e->c) throw PathEnd{"infeasible"}; return; }
  if(eval(e,*s.model)) { addCons(s,e); return; }
  ModelP m; if(!solverSat(s.cons,e,*s.model,&m)) throw PathEnd{"infeasible"}; s.model=m; addCons(s,e); }
BI(b_assert){ gSt.asserts++; Val c=a[0]; 
  if(c.isC()){ if(!(c.c&1)) throw ViolationEx("property assertion failed: "+cstr(s,a[1])); return; }
  Expr*e=c.e->w==1?c.e:mkExtract(c.e,0,1); if(isConst(e)){ if(!e->c) throw ViolationEx("property assertion failed: "+cstr(s,a[1])); return; }
  gSt.assertsSolver++; ModelP m; Expr*ne=mkNot(e);
  if(!s.approx&&!eval(e,*s.model)){ throw ViolationEx("property assertion failed: "+cstr(s,a[1])); }
  if(solverSat(s.cons,ne,*s.model,&m)){ s.model=m; addCons(s,ne); throw ViolationEx("property assertion failed: "+cstr(s,a[1])); }
  }
BI(b_fail){ throw ViolationEx("property assertion failed: "+cstr(s,a[0])); }
BI(b_witness){ fixModel(s); gWitnessHit.insert(cstr(s,a[0])); }
BI(b_cover){ std::string l=cstr(s,a[1]); if(gWitnessHit.count(l)) return; fixModel(s); Val c=a[0]; if(c.isC()){ if(c.c&1) gWitnessHit.insert(l); return; }
  Expr*e=c.e->w==1?c.e:mkExtract(c.e,0,1); if(isConst(e)){ if(e->c) gWitnessHit.insert(l); return; }
  if(eval(e,*s.model)){ gWitnessHit.insert(l); return; } ModelP m; if(solverSat(s.cons,e,*s.model,&m)) gWitnessHit.insert(l); }
BI(b_native){ gRet=Val(0); }
BI(b_concretize){ gRet=Val(concretize(s,a[0],64)); }
BI(b_leakmark){ for(auto&o:s.objs) if(o.p->kind==K_HEAP) o.p->marked=1; }
BI(b_leakcheck){ for(auto&o:s.objs) if(o.p->kind==K_HEAP&&!o.p->marked&&!o.p->nm) { auto&si=gSites[o.p->allocSite]; throw ViolationEx("memory leak: "+std::to_string(o.p->size)+"-byte heap block allocated at "+si.file+":"+std::to_string(si.line)+" ("+si.func+") is never freed"); } }
BI(b_live){ u64 n=0; for(auto&o:s.objs) if(o.p->kind==K_HEAP&&!o.p->marked&&!o.p->nm) n++; gRet=Val(n); }
BI(b_allocfail){ s.allocFail=(int)concretize(s,a[0],32); }
BI(b_spurious){ s.spurious=(int)concretize(s,a[0],32); }
BI(b_log){ if(gOpt.verbose) { std::string m=cstr(s,a[0]); Val v=a[1]; fprintf(stderr,"[log] %s %s\n",m.c_str(),v.isC()?std::to_string(v.c).c_str():exprStr(v.e).c_str()); } }
BI(b_issym){ gRet=Val(a[0].e!=nullptr); }
BI(b_end){ throw PathEnd{"done"}; }
BI(b_valid){ u64 p=concretize(s,a[0],64),n=concretize(s,a[1],64); Obj*o=findObj(s,p); gRet=Val(o&&p-o->addr+n<=o->size); }
// ---- heap
static u64 heapAlloc(State&s,u64 n,u64 al,u8 hk){ u64 p=allocObj(s,n,al,K_HEAP,nullptr,false); findObj(s,p)->hk=hk; return p; }
static bool mayAlloc(State&s,const Inst&x,Val&n){ // decides failure; concretizes n
  if(!n.isC()){ if(!branchOn(s,mkBin(E_ULE,n.e,mkConst(1<<16,64)))) return false; n=Val(concretize(s,n,64)); }
  if(n.c>(1ull<<30)) return false;
  if(s.allocFail>0){ State*c=cloneState(s); c->allocFail--; addSym(*c,"alloc fails",{mkConst(1,32)},true); Frame&f=curT(*c).st.back(); if(x.dst>=0) f.regs[x.dst]=Val(0); advance(*c,x); gSt.forks++; pushWork(c); addSym(s,"alloc fails",{mkConst(0,32)},true); }
  return true; }
BI(b_vpmalloc){ Val n=a[0]; if(a[2].c==4){ gRet=Val(heapAlloc(s,n.c,a[1].c,4)); return; } /* exceptions: the emergency pool */ if(!mayAlloc(s,x,n)){ gRet=Val(0); return; } gRet=Val(heapAlloc(s,n.c,a[1].c,(u8)a[2].c)); }
BI(b_malloc){ Val n=a[0]; if(!mayAlloc(s,x,n)){ gRet=Val(0); return; } gRet=Val(heapAlloc(s,n.c,16,1)); }
BI(b_calloc){ u64 n=concretize(s,a[0],64)*concretize(s,a[1],64); u64 p=heapAlloc(s,n,16,1); Obj*o=findObj(s,p); if(o->init) memset(o->init,1,n); gRet=Val(p); }
static void checkFree(State&s,const Inst&x,u64 p,u8 hk){ Obj*o=findObj(s,p); if(!o||o->addr!=p||o->kind!=K_HEAP) throw ViolationEx("invalid free / double free of pointer that is not a live heap block");
  if(o->hk!=hk) { static const char*n[]={"?","malloc","operator new","operator new[]","exception"}; throw ViolationEx(std::string("allocation mismatch: memory obtained by ")+n[o->hk%5]+" released by the release function of "+n[hk%5]); }
  if(s.mt) raceAccess(s,x,o,0,o->size,true,false); freeObj(s,p); }
BI(b_free){ u64 p=concretize(s,a[0],64); if(p) checkFree(s,x,p,1); }
BI(b_vpfree){ u64 p=concretize(s,a[0],64); if(p) checkFree(s,x,p,(u8)a[1].c); }
BI(b_realloc){ u64 p=concretize(s,a[0],64); Val nv=a[1]; Obj*o=nullptr; if(p){ o=findObj(s,p); if(!o||o->addr!=p||o->kind!=K_HEAP||o->hk!=1) throw ViolationEx("realloc of a pointer that is not a live malloc block"); }
  if(!mayAlloc(s,x,nv)){ gRet=Val(0); return; }
  u64 n=nv.c,q=heapAlloc(s,n,16,1); if(p){ o=findObj(s,p); u64 k=std::min(n,o->size); if(k) memCopy(s,x,q,p,k,false); checkFree(s,x,p,1);} gRet=Val(q); }
BI(b_memalign){ u64 pp=concretize(s,a[0],64); Val al=a[1]; if(!al.isC()) al=Val(concretize(s,al,64)); if(al.c<8||(al.c&(al.c-1))){ gRet=Val(EINVAL); return; }
  Val n=a[2]; if(!n.isC()){ if(!branchOn(s,mkBin(E_ULE,n.e,mkConst(1<<16,64)))){ gRet=Val(ENOMEM); return; } n=Val(concretize(s,n,64)); } if(n.c>(1ull<<30)){ gRet=Val(ENOMEM); return; }
  if(s.allocFail>0){ State*c=cloneState(s); c->allocFail--; addSym(*c,"alloc fails",{mkConst(1,32)},true); Frame&f=curT(*c).st.back(); if(x.dst>=0) f.regs[x.dst]=Val(ENOMEM); advance(*c,x); gSt.forks++; pushWork(c); addSym(s,"alloc fails",{mkConst(0,32)},true); }
  u64 p=heapAlloc(s,n.c,al.c,1); wr64(s,pp,p); gRet=Val(0); }
BI(b_alignedalloc){ gRet=Val(heapAlloc(s,concretize(s,a[1],64),concretize(s,a[0],64),1)); }
BI(b_marknoleak){ u64 p=concretize(s,a[0],64); Obj*o=findObj(s,p); if(o){ o=writable(s,o); o->marked=1; } }
// ---- libc memory
BI(b_memcpy){ u64 n=concretize(s,a[2],64); u64 d=concretize(s,a[0],64),r=concretize(s,a[1],64); if(n&&d!=r&&d<r+n&&r<d+n) throw ViolationEx("memcpy with overlapping source and destination"); memCopy(s,x,d,r,n,!x.norace); gRet=a[0]; }
BI(b_memmove){ u64 n=concretize(s,a[2],64); memCopy(s,x,concretize(s,a[0],64),concretize(s,a[1],64),n,!x.norace); gRet=a[0]; }
BI(b_memset){ u64 n=concretize(s,a[2],64); memFill(s,x,concretize(s,a[0],64),a[1],n,!x.norace); gRet=a[0]; }
BI(b_memcmp){ u64 n=concretize(s,a[2],64); u64 p=concretize(s,a[0],64),q=concretize(s,a[1],64); Expr*r=mkConst(0,32);
  for(u64 i=n;i-->0;){ Expr*u=ex(memLoad(s,x,Val(p+i),1,8,x.norace?2:0),8),*v=ex(memLoad(s,x,Val(q+i),1,8,x.norace?2:0),8); 
    r=mkIte(mkEq(u,v),r,mkIte(mkBin(E_ULT,u,v),mkConst(0xffffffffu,32),mkConst(1,32))); }
  gRet=fromE(r); }
// ---- exceptions
BI(b_unwind){ u64 h=concretize(s,a[0],64); doUnwind(s,h); throw Retry{}; }
BI(b_terminate){ throw ViolationEx("std::terminate called"); }
BI(b_abort){ throw ViolationEx("abort() called"); }
BI(b_assertfail){ throw ViolationEx("assertion in the code failed: "+cstr(s,a[0])+" at "+cstr(s,a[1])+":"+std::to_string(a[2].c)); }
BI(b_pure){ throw ViolationEx("pure virtual function called"); }
BI(b_dyncast){ Val r; doDynamicCast(s,x,a,r); gRet=r; }
BI(b_exit){ throw PathEnd{"done"}; }
// ---- threads
BI(b_thcreate){ u64 fn=concretize(s,a[0],64),arg=concretize(s,a[1],64); 
  parkAndSchedule(s,P_CREATE,1); footAdd(s,1,true);
  if(s.th.size()>=MAXT) throw EngineError("too many threads"); int id=s.th.size();
  auto it=gFnByAddr.find(fn); if(it==gFnByAddr.end()) throw EngineError("thread entry");
  s.mt=true; s.th.emplace_back(); Thread&n=s.th.back(); n.vc=s.th[s.cur].vc; n.vc.resize(std::max<size_t>(n.vc.size(),id+1),0); n.vc[id]=1; s.th[s.cur].vc[s.cur]++;
  n.parked=true; n.pk=P_START; n.pa=0x100+id;
  int c=s.cur; s.cur=id; pushFrame(s,it->second,{Val(arg)},-1); s.cur=c; gRet=Val(id); }
BI(b_thjoin){ u64 id=concretize(s,a[0],64); if(id>=s.th.size()) throw ViolationEx("join of an invalid thread"); if((int)id==s.cur) throw ViolationEx("thread joins itself");
  Thread&t=curT(s); if(!t.granted&&!multi(s)&&!s.th[id].done) throw ViolationEx("deadlock: join");
  if(!t.granted){ if(s.th[id].joined) throw ViolationEx("a thread is joined twice"); s.th[id].joined=true; }
  parkAndSchedule(s,P_JOIN,id); footAdd(s,0x100+id,false);
  if(!s.th[id].done) throw EngineError("join scheduled early"); vcJoin(curT(s).vc,s.th[id].vc); }
BI(b_tid){ gRet=Val(s.cur); }
BI(b_self){ gRet=Val(s.cur+1); }
BI(b_yield){ if(!multi(s)){ s.th[0].spinCount++; if(s.th[0].spinCount>1000) throw ViolationEx("livelock: spinning forever with no other thread"); return; } Thread&t=curT(s); if(t.granted){ t.granted=false; footAdd(s,2,false); return; } t.yielded=true; parkAndSchedule(s,P_YIELD,2); }
BI(b_mlock){ u64 m=concretize(s,a[0],64); rd64(s,m); Thread&t=curT(s); 
  if(!t.granted){ auto&y=syncAt(s,m); if(y.owner==s.cur&&y.kind!=1) throw ViolationEx("deadlock: a thread locks a mutex it already holds"); }
  parkAndSchedule(s,P_LOCK,m); footAdd(s,m,true); auto&y=syncAt(s,m); if(y.owner!=-1&&!(y.kind==1&&y.owner==s.cur)) throw ViolationEx("deadlock: mutex is held and no thread can release it");
  y.owner=s.cur; y.count++; if(s.mt) hbAcquire(s,y.vc); gRet=Val(0); }
BI(b_mtrylock){ u64 m=concretize(s,a[0],64); rd64(s,m); parkAndSchedule(s,P_TRYLOCK,m); auto&y=syncAt(s,m); footAdd(s,m,y.owner==-1); if(y.owner!=-1){ gRet=Val(EBUSY); return; } y.owner=s.cur; y.count++; if(s.mt) hbAcquire(s,y.vc); gRet=Val(0); }
// with try_lock about, others may see the mutex held: releasing is then a step of its own
static bool tryLocks(){ static int v=-1; if(v<0){ auto*F=gM->getFunction("pthread_mutex_trylock"); v=F&&!F->use_empty(); } return v; }
BI(b_munlock){ u64 m=concretize(s,a[0],64); rd64(s,m); if(tryLocks()) parkAndSchedule(s,P_YIELD,m); auto&y=syncAt(s,m); if(y.owner!=s.cur) throw ViolationEx("mutex unlocked by a thread that does not hold it"); footAdd(s,m,true); if(--y.count==0){ y.owner=-1; if(s.mt) hbRelease(s,y.vc); } gRet=Val(0); }
BI(b_mrecursive){ u64 m=concretize(s,a[0],64); syncAt(s,m).kind=1; gRet=Val(0); }
static void condWait(State&s,const Inst&x,u64 c,u64 m,bool timed,Val deadline){
  Thread&t=curT(s);
  if(t.result==0){ // phase 0
    rd64(s,c);
    parkAndSchedule(s,P_CWAIT,c); Thread&t2=curT(s); footAdd(s,c,true); footAdd(s,m,true);
    auto&y=syncAt(s,m); if(y.owner!=s.cur) throw ViolationEx("condition variable wait without holding the mutex"); if(y.count!=1) throw ViolationEx("condition wait on recursively held mutex");
    y.owner=-1; y.count=0; hbRelease(s,y.vc);
    t2.result=1; t2.pk=P_CWAKE; t2.parked=true; t2.pa=c; t2.pb=m; t2.notified=false; t2.timed=timed; t2.deadline=deadline;
    if(timed&&s.hasHorizon){ Expr*c=mkBin(E_SLE,ex(deadline,64),ex(s.horizon,64)); if(isConst(c)?!c->c:!mayBe(s,c)) t2.timed=false; } // the time never comes
    t2.granted=false;
    scheduleNext(s); throw Retry{};
  }
  // phase 1: chosen to wake; mutex is free
  Thread&w=curT(s); if(!w.granted) throw EngineError("cond wait phase"); 
  if(!w.notified&&w.timed&&s.spurious>0){ // both spurious and timeout possible
    State*n=cloneState(s); Thread&u=curT(*n); u.timed=false; gSt.forks++; pushWork(n); w.timed=true; w.notified=false; s.spurious=s.spurious; 
    // current: timeout; clone: spurious
  }
  if(s.hasHorizon&&!curT(s).notified&&curT(s).timed){ Expr*c=mkBin(E_SLE,ex(curT(s).deadline,64),ex(s.horizon,64)); if(isConst(c)?!c->c:!branchOn(s,c)) throw PathEnd{"infeasible"}; }
  Thread&v=curT(s); v.granted=false; v.result=0; footAdd(s,c,true); footAdd(s,m,true);
  auto&y=syncAt(s,m); y.owner=s.cur; y.count=1; hbAcquire(s,y.vc);
  if(v.notified) gRet=Val(0);
  else if(v.timed){ footAdd(s,3,true); gRet=Val(ETIMEDOUT); // time has reached the deadline
    if(s.now.isC()&&v.deadline.isC()){ if((i64)v.deadline.c>(i64)s.now.c) s.now=v.deadline; }
    else s.now=fromE(mkIte(mkBin(E_SLT,ex(s.now,64),ex(v.deadline,64)),ex(v.deadline,64),ex(s.now,64))); }
  else { s.spurious--; gRet=Val(0); }
  v.notified=false; v.timed=false;
}
BI(b_cwait){ condWait(s,x,concretize(s,a[0],64),concretize(s,a[1],64),false,Val(0)); }
BI(b_ctimedwait){ condWait(s,x,concretize(s,a[0],64),concretize(s,a[1],64),true,a[2]); } // vp_cond_timedwait(c,m,deadline_ns)
static void notifyImpl(State&s,const Inst&x,u64 c,bool all){
  rd64(s,c); parkAndSchedule(s,P_NOTIFY,c); footAdd(s,c,true);
  std::vector<int> w; for(size_t i=0;i<s.th.size();i++){ auto&t=s.th[i]; if(!t.done&&t.parked&&t.pk==P_CWAKE&&t.pa==c&&!t.notified) w.push_back(i); }
  gRet=Val(0); if(w.empty()) return;
  if(all){ for(int i:w) s.th[i].notified=true; return; }
  for(size_t k=1;k<w.size();k++){ State*n=cloneState(s); n->th[w[k]].notified=true; auto r=std::make_shared<TraceRec>(); r->prev=n->trace; r->s="notify_one wakes T"+std::to_string(w[k]); n->trace=r; Frame&f=curT(*n).st.back(); if(x.dst>=0) f.regs[x.dst]=Val(0); advance(*n,x); gSt.forks++; pushWork(n); }
  s.th[w[0]].notified=true; if(w.size()>1){ auto r=std::make_shared<TraceRec>(); r->prev=s.trace; r->s="notify_one wakes T"+std::to_string(w[0]); s.trace=r; } }
BI(b_csignal){ notifyImpl(s,x,concretize(s,a[0],64),false); }
BI(b_cbroadcast){ notifyImpl(s,x,concretize(s,a[0],64),true); }
BI(b_cdestroy){ u64 c=concretize(s,a[0],64); for(auto&t:s.th) if(!t.done&&t.parked&&t.pk==P_CWAKE&&t.pa==c&&!t.notified) throw ViolationEx("condition variable destroyed while a thread waits on it"); gRet=Val(0); }
BI(b_zero){ gRet=Val(0); }
BI(b_clock){ if(multi(s)) parkAndSchedule(s,P_CLOCK,3); footAdd(s,3,true);
  Expr*v=mkVar("clock",64); addSym(s,"clock",{v}); Expr*n=ex(s.now,64); addCons(s,mkBin(E_SLE,n,v)); addCons(s,mkBin(E_SLE,v,mkConst(1ull<<61,64))); if(s.hasHorizon) addCons(s,mkBin(E_SLE,v,ex(s.horizon,64)));
  auto m=std::make_shared<Model>(*s.model); if(m->v.size()<=v->c) m->v.resize(v->c+1,0); m->v[v->c]=eval(n,*s.model); 
  if(m->v[v->c]>(1ull<<61)) throw PathEnd{"infeasible"};
  s.model=m; s.now=Val(0,v); gRet=Val(0,v); }
BI(b_now){ gRet=s.now; }
BI(b_setnow){ s.now=a[0]; }
BI(b_never){ gRet=Val(0); if(s.hasHorizon){ Expr*c=mkBin(E_SLE,ex(a[0],64),ex(s.horizon,64)); gRet=Val(isConst(c)?!c->c:!mayBe(s,c)); } }
BI(b_horizon){ s.horizon=a[0]; s.hasHorizon=true; }
BI(b_sleepuntil){ // vp_sleep_until(ns)
  if(multi(s)) parkAndSchedule(s,P_SLEEP,3); footAdd(s,3,true); Val d=a[0];
  s.now=fromE(mkIte(mkBin(E_SLT,ex(s.now,64),ex(d,64)),ex(d,64),ex(s.now,64))); }
BI(b_guardacq){ u64 p=concretize(s,a[0],64); Val v=memLoad(s,x,Val(p),1,8,2); auto&y=syncAt(s,p); if(s.mt) hbAcquire(s,y.vc); gRet=Val(v.c==0); }
BI(b_guardrel){ u64 p=concretize(s,a[0],64); memStore(s,x,Val(p),Val(1),1,8,2); auto&y=syncAt(s,p); if(s.mt) hbRelease(s,y.vc); }
BI(b_unreach){ throw ViolationEx("unreachable code reached (flowing off the end of a value-returning function or other undefined behaviour)"); }
BI(b_thcount){ u64 n=0; for(auto&t:s.th) if(!t.done) n++; gRet=Val(n); }
BI(b_blocked){ u64 id=concretize(s,a[0],64); gRet=Val(id<s.th.size()&&!s.th[id].done&&s.th[id].parked&&s.th[id].pk==P_CWAKE&&!s.th[id].notified); }
void unknownBuiltin(State&s,const Inst&x,A&){ throw EngineError("call to unmodelled external function "+(x.fn?x.fn->name:std::string("?"))); }
BI(b_errno){ Thread&t=curT(s); auto it=t.tls.find(0xffffff); if(it==t.tls.end()){ u64 p=allocObj(s,16,16,K_TLS,"errno",true); curT(s).tls[0xffffff]=p; gRet=Val(p); } else gRet=Val(it->second); }

static const std::unordered_map<std::string,Builtin>& tbl(){
  static std::unordered_map<std::string,Builtin> t={
  {"vp_sym",b_sym},{"vp_sym_bytes",b_symbytes},{"vp_choose",b_choose},{"vp_assume",b_assume},{"vp_assert_",b_assert},{"vp_fail",b_fail},{"vp_witness",b_witness},{"vp_cover",b_cover},{"vp_native",b_native},{"vp_concretize",b_concretize},
  {"vp_leak_mark",b_leakmark},{"vp_leak_check",b_leakcheck},{"vp_live_heap",b_live},{"vp_alloc_may_fail",b_allocfail},{"vp_spurious",b_spurious},{"vp_log",b_log},{"vp_is_symbolic",b_issym},{"vp_end",b_end},{"vp_valid",b_valid},
  {"vp_malloc",b_vpmalloc},{"vp_free",b_vpfree},{"malloc",b_malloc},{"calloc",b_calloc},{"free",b_free},{"realloc",b_realloc},{"posix_memalign",b_memalign},{"aligned_alloc",b_alignedalloc},{"vp_noleak",b_marknoleak},
  {"memcpy",b_memcpy},{"memmove",b_memmove},{"memset",b_memset},{"memcmp",b_memcmp},{"bcmp",b_memcmp},
  {"vp_unwind",b_unwind},{"_ZSt9terminatev",b_terminate},{"abort",b_abort},{"__assert_fail",b_assertfail},{"__cxa_pure_virtual",b_pure},{"__cxa_deleted_virtual",b_pure},{"__dynamic_cast",b_dyncast},{"exit",b_exit},{"_exit",b_exit},{"_Exit",b_exit},
  {"vp_thread_create",b_thcreate},{"vp_thread_join",b_thjoin},{"vp_tid",b_tid},{"pthread_self",b_self},{"sched_yield",b_yield},{"vp_yield",b_yield},
  {"pthread_mutex_lock",b_mlock},{"pthread_mutex_trylock",b_mtrylock},{"pthread_mutex_unlock",b_munlock},{"vp_mutex_recursive",b_mrecursive},{"pthread_mutex_init",b_zero},{"pthread_mutex_destroy",b_zero},
  {"pthread_cond_wait",b_cwait},{"vp_cond_timedwait",b_ctimedwait},{"pthread_cond_signal",b_csignal},{"pthread_cond_broadcast",b_cbroadcast},{"pthread_cond_destroy",b_cdestroy},{"pthread_cond_init",b_zero},
  {"vp_clock",b_clock},{"vp_now",b_now},{"vp_set_now",b_setnow},{"vp_horizon",b_horizon},{"vp_never",b_never},{"vp_sleep_until",b_sleepuntil},{"__cxa_guard_acquire",b_guardacq},{"__cxa_guard_release",b_guardrel},{"__cxa_guard_abort",b_zero},{"__cxa_atexit",b_zero},{"__cxa_thread_atexit",b_zero},{"atexit",b_zero},
  {"vp_unreachable",b_unreach},{"vp_live_threads",b_thcount},{"vp_is_blocked",b_blocked},{"__errno_location",b_errno},
  }; return t; }
Builtin findBuiltin(const std::string&n){ auto it=tbl().find(n); return it==tbl().end()?nullptr:it->second; }
bool findBuiltinOverride(const std::string&n){ return n.compare(0,3,"vp_")==0&&tbl().count(n); }
