#include "engine.h"
#include <algorithm>
using namespace llvm;
Thread& curT(State&s){ return s.th[s.cur]; }
const Inst& curInst(State&s){ Frame&f=curT(s).st.back(); return f.fn->code[f.pc]; }
State* cloneState(State&s){ return new State(s); }
void pushWork(State*s){ if(s->node){ s->node->e[s->nodeTid].open++; } gWork.push_back(s); }

static inline Obj* findIn(std::vector<ObjRef>&v,u64 a){
  size_t lo=0,hi=v.size();
  while(lo<hi){ size_t m=(lo+hi)/2; if(v[m].p->addr<=a) lo=m+1; else hi=m; }
  if(!lo) return nullptr; Obj*o=v[lo-1].p; if(a-o->addr<=o->size) return o; return nullptr;
}
static int globIdx(u64 a){
  size_t lo=0,hi=gGlobs.size();
  while(lo<hi){ size_t m=(lo+hi)/2; if(gGlobs[m].addr<=a) lo=m+1; else hi=m; }
  if(!lo) return -1; auto&g=gGlobs[lo-1]; if(a-g.addr<=g.size) return (int)lo-1; return -1;
}
Obj* findObj(State&s,u64 a){
  if(a>=0x100000000ull) return findIn(s.objs,a);
  if(a>=0x10000000ull){ int i=globIdx(a); if(i<0) return nullptr; auto&g=gGlobs[i]; return g.ro?gRO[g.idx].p:s.gl[g.idx].p; }
  return nullptr;
}
Obj* writable(State&s,Obj*o){
  if(o->rc==1) return o;
  Obj*n=new Obj(*o);
  if(o->kind==K_GLOBAL){ int i=globIdx(o->addr); s.gl[gGlobs[i].idx]=ObjRef(n); return n; }
  size_t lo=0,hi=s.objs.size(); u64 a=o->addr;
  while(lo<hi){ size_t m=(lo+hi)/2; if(s.objs[m].p->addr<=a) lo=m+1; else hi=m; }
  s.objs[lo-1]=ObjRef(n); return n;
}
u64 allocObj(State&s,u64 size,u64 al,OKind k,const char*nm,bool zero){
  if(al<16) al=16;
  u64 a=(s.nextAddr+al-1)/al*al; if(k==K_HEAP&&a%(2*al)==0) a+=al; /* never aligned beyond the request */ s.nextAddr=a+size+32;
  Obj*o=new Obj(); o->addr=a;o->size=size;o->kind=k;o->nm=nm; o->b=(u8*)calloc(1,size?size:1);
  if(!zero&&size) o->init=(u8*)calloc(1,size);
  if(s.th.size()&&curT(s).st.size()){ o->allocSite=curInst(s).site; }
  s.objs.push_back(ObjRef(o));
  return a;
}
void pruneSyncRange(State&s,Obj*o){
  for(size_t i=0;i<s.sync.size();){ auto&y=s.sync[i]; if(y.addr>=o->addr&&y.addr<o->addr+o->size){
      if(y.owner>=0&&s.th[y.owner].done==false) throw ViolationEx("mutex destroyed (its memory released) while locked");
      for(auto&t:s.th) if(!t.done&&(t.pk==P_CWAKE&&t.parked)&&(t.pa==y.addr||t.pb==y.addr)) throw ViolationEx("condition variable or mutex destroyed (its memory released) while a thread waits on it");
      s.sync.erase(s.sync.begin()+i); } else i++; }
}
void freeObj(State&s,u64 a){
  size_t lo=0,hi=s.objs.size();
  while(lo<hi){ size_t m=(lo+hi)/2; if(s.objs[m].p->addr<=a) lo=m+1; else hi=m; }
  Obj*o=s.objs[lo-1].p; 
  if(!s.sync.empty()) pruneSyncRange(s,o);
  s.objs.erase(s.objs.begin()+(lo-1));
}
static std::string hexs(u64 a){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)a); return b; }
[[noreturn]] static void badAccess(State&s,u64 a,u64 n,bool w){
  const char*k=w?"write":"read";
  if(a<4096) throw ViolationEx(std::string("null pointer ")+k);
  Obj*o=findObj(s,a);
  if(!o){ // look for preceding object to describe
    throw ViolationEx(std::string("invalid memory ")+k+" of "+std::to_string(n)+" bytes (use after free/return or wild pointer "+hexs(a)+")"); }
  throw ViolationEx(std::string("out of bounds ")+k+" of "+std::to_string(n)+" bytes at offset "+std::to_string((i64)(a-o->addr))+" of a "+std::to_string(o->size)+"-byte "+(o->kind==K_HEAP?"heap block":o->kind==K_STACK?"local variable":"global")+(o->nm?std::string(" ")+o->nm:""));
}
void addCons(State&s,Expr*c){
  if(isConst(c)){ if(!c->c) throw PathEnd{"infeasible"}; return; }
  if(c->op==E_AND&&c->w==1){ addCons(s,c->k[0]); addCons(s,c->k[1]); return; }
  for(Expr*e:s.cons) if(e==c) return;
  s.cons.push_back(c);
}
static int knownCond(State&s,Expr*c){ Expr*n=nullptr; 
  for(size_t i=s.cons.size();i-->0;){ if(s.cons[i]==c) return 1; }
  n=mkNot(c); for(size_t i=s.cons.size();i-->0;){ if(s.cons[i]==n) return 0; }
  return -1; }
void fixModel(State&s){ if(!s.approx) return; ModelP m; if(!solverExact(s.cons,*s.model,&m)) throw PathEnd{"infeasible"}; s.model=m; s.approx=false; }
bool mayBe(State&s,Expr*c,ModelP*m){
  if(isConst(c)){ if(m) *m=s.model; return c->c; }
  int k=knownCond(s,c); if(k==0) return false; 
  if(k==1||eval(c,*s.model)){ if(m)*m=s.model; return true; }
  return solverSat(s.cons,c,*s.model,m);
}
// Decide a condition: continue with one side, queue the other (which re-executes the current instruction)
bool branchOn(State&s,Expr*c){
  if(isConst(c)) return c->c;
  int k=knownCond(s,c); if(k>=0) return k;
  bool t=eval(c,*s.model); Expr*other=t?mkNot(c):c; ModelP m;
  bool as=false; if(solverSat(s.cons,other,*s.model,&m,&as)){ State*n=cloneState(s); n->model=m; if(as) n->approx=true; addCons(*n,other); gSt.forks++; pushWork(n); }
  addCons(s,t?c:mkNot(c));
  return t;
}
u64 concretize(State&s,Val v,u32 w){
  if(v.isC()) return v.c;
  if(w>64) throw EngineError("concretize wide"); fixModel(s);
  u64 x=eval(v.e,*s.model); Expr*eq=mkEq(v.e,mkConst(x,w));
  if(isConst(eq)) return x;
  ModelP m; Expr*ne=mkNot(eq);
  int k=knownCond(s,eq); if(k==1) return x;
  if(solverSat(s.cons,ne,*s.model,&m)){ State*n=cloneState(s); n->model=m; addCons(*n,ne); gSt.forks++; pushWork(n); }
  addCons(s,eq); return x;
}
// Floating point is computed for one value at a time; rounding shows for large ones first
u64 concretizeHigh(State&s,Val v,u32 w){
  if(v.isC()||w>64) return concretize(s,v,w);
  fixModel(s); Expr*eq=mkEq(v.e,mkConst(eval(v.e,*s.model),w)); if(isConst(eq)||knownCond(s,eq)==1) return concretize(s,v,w);
  Expr*acc=mkConst(1,1); ModelP best=s.model;
  for(u32 i=w;i-->0&&i+40>w;){ Expr*bit=mkEq(mkExtract(v.e,i,1),mkConst(1,1)); Expr*t=mkBin(E_AND,acc,bit); ModelP m; if(mayBe(s,t,&m)){ acc=t; best=m; } }
  if(mayBe(s,acc,&best)) s.model=best;
  return concretize(s,v,w);
}
static void knownLow(Expr*e,u32&k,u64&v){
  switch(e->op){
   case E_CONST: k=std::min(e->w,64u); v=constAP(e).getLoBits(64).zextOrTrunc(64).getZExtValue(); return;
   case E_CONCAT: { knownLow(e->k[1],k,v); u32 lw=e->k[1]->w; if(k>=lw){ u32 k2;u64 v2; knownLow(e->k[0],k2,v2); k=std::min(64u,lw+k2); if(lw<64) v=(v&maskw(lw))|(v2<<lw); } return; }
   case E_ADD: { u32 a,b;u64 x,y; knownLow(e->k[0],a,x); knownLow(e->k[1],b,y); k=std::min(a,b); v=(x+y); return; }
   case E_SUB: { u32 a,b;u64 x,y; knownLow(e->k[0],a,x); knownLow(e->k[1],b,y); k=std::min(a,b); v=(x-y); return; }
   case E_MUL: if(isConst(e->k[1])){ u64 c=constAP(e->k[1]).getLoBits(64).zextOrTrunc(64).getZExtValue(); if(c){ u32 a;u64 x; knownLow(e->k[0],a,x); k=std::min(64u,a+(u32)__builtin_ctzll(c)); v=(x&maskw(a?a:1))*c; if(!a) v=0; return; } } k=0;v=0;return;
   case E_ZEXT: { knownLow(e->k[0],k,v); if(k>=e->k[0]->w) {v&=maskw(e->k[0]->w);k=std::min(64u,e->w);} return; }
   case E_SEXT: { knownLow(e->k[0],k,v); k=std::min(k,e->k[0]->w); return; }
   case E_ITE: { u32 a,b;u64 x,y; knownLow(e->k[1],a,x); knownLow(e->k[2],b,y); k=std::min(a,b); while(k&&((x^y)&maskw(k))) k--; v=x; return; }
   default: k=0;v=0;
  }
}
// resolve to object; returns offset expr (null if concrete offset in off)
static Obj* resolve(State&s,Val addr,u64 n,bool w,u64&off,Expr*&oe){
  oe=nullptr;
  if(addr.isC()){
    Obj*o=findObj(s,addr.c); if(!o||addr.c-o->addr+n>o->size) badAccess(s,addr.c,n,w);
    if(w&&o->ro) throw ViolationEx("write to read-only memory");
    off=addr.c-o->addr; return o;
  }
  u64 a=eval(addr.e,*s.model); Obj*o=findObj(s,a);
  if(s.approx&&(!o||a-o->addr+n>o->size)){ fixModel(s); a=eval(addr.e,*s.model); o=findObj(s,a); }
  if(!o||a-o->addr+n>o->size) badAccess(s,a,n,w);
  Expr*rel=mkBin(E_SUB,addr.e,mkConst(o->addr,64)); Expr*inb=mkBin(E_ULE,rel,mkConst(o->size-n,64));
  if(!isConst(inb)&&knownCond(s,inb)!=1){ ModelP m; Expr*nb=mkNot(inb); bool as=false; if(solverSat(s.cons,nb,*s.model,&m,&as)){ State*x=cloneState(s); x->model=m; if(as) x->approx=true; addCons(*x,nb); gSt.forks++; pushWork(x); addCons(s,inb);} }
  if(w&&o->ro) throw ViolationEx("write to read-only memory");
  if(o->size>(w?256u:1024u)){ u64 c=concretize(s,addr,64); off=c-o->addr; return o; }
  oe=rel; return o;
}
static inline Expr* byteOf(State&s,Obj*&o,u64 i){
  if(o->init&&!o->init[i]){ Expr*v=freshUndef(8,"uninit").e; o=writable(s,o); if(!o->s) o->s=(Expr**)calloc(o->size,sizeof(Expr*)); o->s[i]=v; o->init[i]=1; }
  if(o->s&&o->s[i]){ Expr*b=o->s[i]; return b->op==E_EXTRACT?mkExtract(b->k[0],b->c,8):b; }
  return mkConst(o->b[i],8);
}
static Val loadAt(State&s,Obj*&o,u64 off,u64 n,u32 w){
  bool sym=false;
  if(o->init) for(u64 i=0;i<n;i++) if(!o->init[off+i]){sym=true;break;}
  if(!sym&&o->s) for(u64 i=0;i<n;i++) if(o->s[off+i]){sym=true;break;}
  if(!sym&&n<=8){ u64 v=0; memcpy(&v,o->b+off,n); if(w<64) v&=maskw(w); return Val(v); }
  Expr*e=nullptr; for(u64 i=0;i<n;){
    Expr*b=byteOf(s,o,off+i); u64 run=1; Expr*r=o->s?o->s[off+i]:nullptr;
    if(r&&r->op==E_EXTRACT){ while(i+run<n){ Expr*q=o->s[off+i+run]; if(!q||q->op!=E_EXTRACT||q->k[0]!=r->k[0]||q->c!=r->c+8*run) break; run++; } if(run>1) b=mkExtract(r->k[0],r->c,8*run); }
    e=e?mkConcat(b,e):b; i+=run; }
  if(e->w>w) e=mkExtract(e,0,w);
  return fromE(e);
}
Val memLoad(State&s,const Inst&x,Val addr,u64 n,u32 w,int access){
  u64 off; Expr*oe; Obj*o=resolve(s,addr,n,false,off,oe);
  if(!oe){ if(access!=2&&s.mt) raceAccess(s,x,o,off,n,false,access==1); o=findObj(s,o->addr); return loadAt(s,o,off,n,w); }
  if(access!=2&&s.mt){ raceAccess(s,x,o,0,o->size,false,access==1); o=findObj(s,o->addr);}
  u32 k;u64 kv; knownLow(oe,k,kv); u64 step=1; u64 st=0; if(k){ step=1ull<<std::min(k,20u); st=kv&(step-1); }
  Expr*r=nullptr;
  for(u64 p=st;p+n<=o->size;p+=step){ 
    bool un=false; if(o->init) for(u64 i=0;i<n;i++) if(!o->init[p+i]) un=true;
    (void)un;
    Expr*v=ex(loadAt(s,o,p,n,w),w); r=r?mkIte(mkEq(oe,mkConst(p,64)),v,r):v; }
  if(!r) throw PathEnd{"infeasible"};
  return fromE(r);
}
static void storeAt(State&s,Obj*o,u64 off,Val v,u64 n,u32 w){
  if(v.isC()&&n<=8){ memcpy(o->b+off,&v.c,n); if(o->s) for(u64 i=0;i<n;i++) o->s[off+i]=nullptr; if(o->init) memset(o->init+off,1,n); return; }
  Expr*e=ex(v,w); if(e->w<n*8) e=mkZext(e,n*8);
  if(isConst(e)){ for(u64 i=0;i<n;i++){ o->b[off+i]=constAP(e).extractBits(8,i*8).getZExtValue(); if(o->s) o->s[off+i]=nullptr; if(o->init) o->init[off+i]=1; } return; }
  if(!o->s) o->s=(Expr**)calloc(o->size,sizeof(Expr*));
  for(u64 i=0;i<n;i++){ o->s[off+i]=n==1?e:mkExtractRaw(e,i*8,8); if(o->init) o->init[off+i]=1; }
}
void memStore(State&s,const Inst&x,Val addr,Val v,u64 n,u32 w,int access){
  u64 off; Expr*oe; Obj*o=resolve(s,addr,n,true,off,oe);
  if(!oe){ if(access!=2&&s.mt){ raceAccess(s,x,o,off,n,true,access==1); o=findObj(s,o->addr);} o=writable(s,o); storeAt(s,o,off,v,n,w); return; }
  if(access!=2&&s.mt){ raceAccess(s,x,o,0,o->size,true,access==1); o=findObj(s,o->addr);}
  u32 k;u64 kv; knownLow(oe,k,kv); u64 step=1; u64 st=0; if(k){ step=1ull<<std::min(k,20u); st=kv&(step-1); }
  o=writable(s,o); Expr*e=ex(v,w); if(e->w<n*8) e=mkZext(e,n*8);
  for(u64 p=st;p+n<=o->size;p+=step){ Expr*c=mkEq(oe,mkConst(p,64)); if(isConst(c)&&!c->c) continue;
    Val old=loadAt(s,o,p,n,n*8>w&&n*8<=64?n*8:w); u32 ow=e->w; Expr*oe2=ex(old,ow); storeAt(s,o,p,fromE(mkIte(c,e,oe2)),n,ow); }
}
u64 rd64(State&s,u64 a){ Obj*o=findObj(s,a); if(!o||a-o->addr+8>o->size) badAccess(s,a,8,false); Val v=loadAt(s,o,a-o->addr,8,64); if(!v.isC()) return concretize(s,v,64); return v.c; }
void wr64(State&s,u64 a,u64 v){ Obj*o=findObj(s,a); if(!o||a-o->addr+8>o->size) badAccess(s,a,8,true); o=writable(s,o); storeAt(s,o,a-o->addr,Val(v),8,64); }
std::string readCStr(State&s,u64 a,size_t max){
  std::string r; Obj*o=findObj(s,a); if(!o) badAccess(s,a,1,false);
  for(u64 i=a-o->addr;r.size()<max;i++){ if(i>=o->size) break; if(o->s&&o->s[i]){ r+='?'; continue; } if(!o->b[i]) break; r+=(char)o->b[i]; }
  return r; }
// memcpy support: copies byte state between objects (handles symbolic bytes and uninit)
void memCopy(State&s,const Inst&x,u64 d,u64 sr,u64 n,bool access){
  if(!n) return;
  Obj*so=findObj(s,sr); if(!so||sr-so->addr+n>so->size) badAccess(s,sr,n,false);
  if(access&&s.mt) raceAccess(s,x,so,sr-so->addr,n,false,false);
  Obj*dob=findObj(s,d); if(!dob||d-dob->addr+n>dob->size) badAccess(s,d,n,true);
  if(dob->ro) throw ViolationEx("write to read-only memory");
  if(access&&s.mt) raceAccess(s,x,dob,d-dob->addr,n,true,false);
  so=findObj(s,sr); u64 o1=sr-so->addr; 
  std::vector<u8> tb(so->b+o1,so->b+o1+n); std::vector<Expr*> ts; std::vector<u8> ti;
  if(so->s) ts.assign(so->s+o1,so->s+o1+n); if(so->init) ti.assign(so->init+o1,so->init+o1+n);
  dob=findObj(s,d); dob=writable(s,dob); u64 o2=d-dob->addr;
  memcpy(dob->b+o2,tb.data(),n);
  if(!ts.empty()){ bool any=false; for(auto*e:ts) if(e) any=true; if(any&&!dob->s) dob->s=(Expr**)calloc(dob->size,sizeof(Expr*)); }
  if(dob->s){ if(ts.empty()) memset(dob->s+o2,0,n*sizeof(Expr*)); else memcpy(dob->s+o2,ts.data(),n*sizeof(Expr*)); }
  if(!ti.empty()&&memchr(ti.data(),0,n)){ if(!dob->init){ dob->init=(u8*)malloc(dob->size); memset(dob->init,1,dob->size);} }
  if(dob->init){ if(ti.empty()) memset(dob->init+o2,1,n); else memcpy(dob->init+o2,ti.data(),n); }
}
void memFill(State&s,const Inst&x,u64 d,Val v,u64 n,bool access){
  if(!n) return;
  Obj*o=findObj(s,d); if(!o||d-o->addr+n>o->size) badAccess(s,d,n,true);
  if(o->ro) throw ViolationEx("write to read-only memory");
  if(access&&s.mt) raceAccess(s,x,o,d-o->addr,n,true,false);
  o=findObj(s,d); o=writable(s,o); u64 off=d-o->addr;
  if(v.isC()){ memset(o->b+off,(int)v.c,n); if(o->s) memset(o->s+off,0,n*sizeof(Expr*)); }
  else { if(!o->s) o->s=(Expr**)calloc(o->size,sizeof(Expr*)); Expr*e=mkExtract(v.e,0,8); for(u64 i=0;i<n;i++) o->s[off+i]=e; }
  if(o->init) memset(o->init+off,1,n);
}
// ------------------------------------------------------------------ data races (happens-before)
static std::string siteStr(u32 i){ if(i>=gSites.size()||!gSites[i].line) return "?"; return gSites[i].file+":"+std::to_string(gSites[i].line)+" ("+gSites[i].func+")"; }
void raceAccess(State&s,const Inst&x,Obj*o,u64 off,u64 n,bool w,bool atomic){
  if(!gOpt.race||x.norace||o->ro) return;
  int t=s.cur; VC&vc=s.th[t].vc; 
  if(o->kind==K_STACK||o->kind==K_TLS){} 
  o=writable(s,o);
  if(!o->sh){ o->sh=(Cell*)calloc(o->size?o->size:1,sizeof(Cell)); }
  auto clk=[&](int u)->u32{ return (size_t)u<vc.size()?vc[u]:0; };
  u32 me=clk(t);
  for(u64 i=off;i<off+n&&i<o->size;i++){ Cell&c=o->sh[i];
    auto race=[&](const char*k,int u,u32 site){ throw ViolationEx(std::string("data race: ")+(w?"write":"read")+" by thread "+std::to_string(t)+" at "+siteStr(x.site)+" is concurrent with "+k+" by thread "+std::to_string(u)+" at "+siteStr(site)+(o->kind==K_HEAP?" (heap object allocated at "+siteStr(o->allocSite)+")":"")); };
    if(c.pw&&c.pwt!=t&&c.pw>clk(c.pwt)) race("a write",c.pwt,c.psite);
    if(w) for(int u=0;u<MAXT;u++) if(u!=t&&c.pr[u]>clk(u)) race("a read",u,c.rsite);
    if(!atomic){ for(int u=0;u<MAXT;u++) if(u!=t){ if(c.aw[u]>clk(u)) race("an atomic write",u,c.asite); if(w&&c.ar[u]>clk(u)) race("an atomic read",u,c.asite); } }
    if(atomic){ if(w) c.aw[t]=me; else c.ar[t]=me; c.asite=x.site; }
    else if(w){ c.pw=me; c.pwt=t; c.psite=x.site; }
    else { c.pr[t]=me; c.rsite=x.site; }
  }
}
