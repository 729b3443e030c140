#include <map>
#include <unordered_set>
#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <llvm/ADT/SmallString.h>
#include <chrono>
#include <unistd.h>
SolverStats gSS; double gQueryTimeout=300; unsigned gStage0=3000000;
static Z3_context C=nullptr; static u64 ctxExprs=0; static std::vector<Expr*> translated;
static std::string zerr;
static void onErr(Z3_context c,Z3_error_code e){ zerr=Z3_get_error_msg(c,e); }
static void initC(){
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); C=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C,onErr);
}
static void resetC(){ for(Expr*e:translated) e->z=nullptr; translated.clear(); if(C) Z3_del_context(C); C=nullptr; initC(); }
void solverAfterFork(){}
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static Z3_ast tr(Expr*e);
static Z3_ast bv(Expr*e){ // as bit-vector even when w==1
  Z3_ast a=tr(e); if(e->w>1) return a;
  Z3_sort s=Z3_mk_bv_sort(C,1); return Z3_mk_ite(C,a,Z3_mk_unsigned_int64(C,1,s),Z3_mk_unsigned_int64(C,0,s)); }
static Z3_ast tr1(Expr*e){
  u32 w=e->w;
  switch(e->op){
   case E_CONST:{ if(w==1) return e->c?Z3_mk_true(C):Z3_mk_false(C);
     Z3_sort s=Z3_mk_bv_sort(C,w); if(w<=64) return Z3_mk_unsigned_int64(C,e->c,s);
     llvm::SmallString<80> str; e->big->toStringUnsigned(str); return Z3_mk_numeral(C,str.c_str(),s); }
   case E_VAR:{ Z3_symbol sy=Z3_mk_int_symbol(C,(int)e->c); return Z3_mk_const(C,sy,w==1?Z3_mk_bool_sort(C):Z3_mk_bv_sort(C,w)); }
   case E_NOT: return w==1?Z3_mk_not(C,tr(e->k[0])):Z3_mk_bvnot(C,tr(e->k[0]));
   case E_CONCAT: return Z3_mk_concat(C,bv(e->k[0]),bv(e->k[1]));
   case E_EXTRACT:{ Z3_ast x=Z3_mk_extract(C,e->c+w-1,e->c,bv(e->k[0])); if(w==1) return Z3_mk_eq(C,x,Z3_mk_unsigned_int64(C,1,Z3_mk_bv_sort(C,1))); return x; }
   case E_ZEXT: if(e->k[0]->w==1){ Z3_sort s=Z3_mk_bv_sort(C,w); return Z3_mk_ite(C,tr(e->k[0]),Z3_mk_unsigned_int64(C,1,s),Z3_mk_unsigned_int64(C,0,s)); } return Z3_mk_zero_ext(C,w-e->k[0]->w,tr(e->k[0]));
   case E_SEXT: return Z3_mk_sign_ext(C,w-e->k[0]->w,bv(e->k[0]));
   case E_ITE: return Z3_mk_ite(C,tr(e->k[0]),tr(e->k[1]),tr(e->k[2]));
   default: break;
  }
  Z3_ast a=tr(e->k[0]),b=tr(e->k[1]);
  if(e->k[0]->w==1) switch(e->op){
   case E_AND:{Z3_ast v[2]={a,b};return Z3_mk_and(C,2,v);} case E_OR:{Z3_ast v[2]={a,b};return Z3_mk_or(C,2,v);} case E_XOR:return Z3_mk_xor(C,a,b);
   case E_EQ:return Z3_mk_iff(C,a,b);
   default:{ a=bv(e->k[0]); b=bv(e->k[1]); } // fallthrough to generic on 1-bit vectors
  }
  Z3_ast r=nullptr;
  switch(e->op){
   case E_ADD:r=Z3_mk_bvadd(C,a,b);break; case E_SUB:r=Z3_mk_bvsub(C,a,b);break; case E_MUL:r=Z3_mk_bvmul(C,a,b);break;
   case E_UDIV:r=Z3_mk_bvudiv(C,a,b);break; case E_SDIV:r=Z3_mk_bvsdiv(C,a,b);break; case E_UREM:r=Z3_mk_bvurem(C,a,b);break; case E_SREM:r=Z3_mk_bvsrem(C,a,b);break;
   case E_AND:r=Z3_mk_bvand(C,a,b);break; case E_OR:r=Z3_mk_bvor(C,a,b);break; case E_XOR:r=Z3_mk_bvxor(C,a,b);break;
   case E_SHL:r=Z3_mk_bvshl(C,a,b);break; case E_LSHR:r=Z3_mk_bvlshr(C,a,b);break; case E_ASHR:r=Z3_mk_bvashr(C,a,b);break;
   case E_EQ:return Z3_mk_eq(C,a,b); case E_ULT:return Z3_mk_bvult(C,a,b); case E_ULE:return Z3_mk_bvule(C,a,b);
   case E_SLT:return Z3_mk_bvslt(C,a,b); case E_SLE:return Z3_mk_bvsle(C,a,b);
   default: abort();
  }
  if(w==1) r=Z3_mk_eq(C,r,Z3_mk_unsigned_int64(C,1,Z3_mk_bv_sort(C,1)));
  return r;
}
static Z3_ast tr(Expr*e0){
  if(e0->z) return (Z3_ast)e0->z;
  std::vector<Expr*> st{e0};
  while(!st.empty()){ Expr*x=st.back(); if(x->z){st.pop_back();continue;}
    bool ok=true; for(u32 i=0;i<x->nk;i++) if(!x->k[i]->z){st.push_back(x->k[i]);ok=false;}
    if(!ok) continue; x->z=tr1(x); translated.push_back(x); st.pop_back(); }
  return (Z3_ast)e0->z;
}
struct KeyHash{ size_t operator()(const std::vector<u32>&v)const{ u64 h=1469598103934665603ull; for(u32 x:v){h^=x;h*=1099511628211ull;} return h; } };
struct CE{ bool sat; bool assumed=false; std::vector<std::pair<u32,u64>> m; };
static std::unordered_map<std::vector<u32>,CE,KeyHash> cache;
// Product abstraction: products of two non-constant factors become unconstrained values below the product of the factors' upper bounds.
// Unsatisfiable then implies unsatisfiable; a satisfying assignment counts only if the real constraints hold under it.
static APInt maxVal(Expr*e){ u32 w=e->w;
  switch(e->op){ case E_CONST: return constAP(e); case E_ZEXT: return maxVal(e->k[0]).zext(w);
    case E_AND:{ APInt a=maxVal(e->k[0]),b=maxVal(e->k[1]); u32 m=std::min(a.getActiveBits(),b.getActiveBits()); if(isConst(e->k[0])) return a; if(isConst(e->k[1])) return b; return APInt::getLowBitsSet(w,m); }
    case E_LSHR: if(isConst(e->k[1])&&e->k[1]->c<w) return maxVal(e->k[0]).lshr((unsigned)e->k[1]->c); break;
    case E_CONCAT: if(isConst(e->k[0])&&constAP(e->k[0])==0) return maxVal(e->k[1]).zext(w); break;
    default: break; }
  return APInt::getAllOnes(w); }
static Expr* baseOp(Expr*e){ for(;;){ if(e->op==E_ZEXT&&e->k[0]->w>1) e=e->k[0]; else if(e->op==E_CONCAT&&isConst(e->k[0])&&constAP(e->k[0])==0) e=e->k[1]; else return e; } }
static void findMuls(Expr*e,std::unordered_set<Expr*>&seen,std::vector<Expr*>&out){
  std::vector<Expr*> st{e}; while(!st.empty()){ Expr*x=st.back(); st.pop_back(); if(!x->hm||!seen.insert(x).second) continue;
    if(x->op==E_MUL&&x->w>=8&&!isConst(x->k[0])&&!isConst(x->k[1])) out.push_back(x);
    for(u32 i=0;i<x->nk;i++) st.push_back(x->k[i]); } }
static bool z3run(const std::vector<Expr*>&cs,const std::vector<u32>&vars,CE&out,bool lenient=false){
  bool haveAbs=false;
  if(!C) initC();
  if(translated.size()>2000000) resetC();
  double t0=now(); gSS.z3++;
  static const char* dq=getenv("VP_DUMPQ"); if(dq&&gSS.z3>=(u64)atoi(dq)){ fprintf(stderr,"Q%llu:\n",(unsigned long long)gSS.z3); for(Expr*e:cs) fprintf(stderr,"   %s\n",exprStr(e,12).c_str()); }
  static const char* tac=nullptr;
  Z3_lbool r=Z3_L_UNDEF;
  Z3_solver sol=nullptr; std::string why;
  { std::unordered_set<Expr*> seen; std::vector<Expr*> mu; for(Expr*e:cs) if(e->hm) findMuls(e,seen,mu);
    if(!mu.empty()){
      std::vector<Z3_ast> from,to; Z3_solver ms=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,ms);
      Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),40000000); Z3_solver_set_params(C,ms,p); Z3_params_dec_ref(C,p);
      std::map<std::pair<u32,u32>,Z3_ast> prod;
      for(Expr*m:mu){ Expr*x=baseOp(m->k[0]),*y=baseOp(m->k[1]); if(x->id>y->id) std::swap(x,y); u32 pw=x->w+y->w; Z3_ast&v=prod[{x->id,y->id}];
        if(!v){ Z3_sort so=Z3_mk_bv_sort(C,pw); v=Z3_mk_fresh_const(C,"prod",so);
          APInt q=maxVal(x).zext(pw)*maxVal(y).zext(pw); llvm::SmallString<80> str; q.toStringUnsigned(str); Z3_solver_assert(C,ms,Z3_mk_bvule(C,v,Z3_mk_numeral(C,str.c_str(),so))); }
        from.push_back(tr(m)); to.push_back(pw==m->w?v:pw>m->w?Z3_mk_extract(C,m->w-1,0,v):Z3_mk_zero_ext(C,m->w-pw,v)); }
      for(Expr*e:cs) Z3_solver_assert(C,ms,Z3_substitute(C,tr(e),from.size(),from.data(),to.data()));
      { static const char* da=getenv("VP_DUMPABS"); if(da){ FILE*f=fopen(da,"w"); fputs(Z3_solver_to_string(C,ms),f); fputs("(check-sat)\n",f); fclose(f);} }
      zerr.clear(); Z3_lbool q=Z3_solver_check(C,ms); gSS.absq++;
      if(getenv("VP_ABSV")) fprintf(stderr,"abs %d err %s lenient %d t %.2f\n",(int)q,zerr.c_str(),(int)lenient,now()-t0);
      if(q==Z3_L_FALSE&&zerr.empty()){ Z3_solver_dec_ref(C,ms); double dt=now()-t0; gSS.time+=dt; if(dt>gSS.maxq) gSS.maxq=dt; gSS.unsat++; out.sat=false; out.m.clear(); return false; }
      if(q==Z3_L_TRUE&&zerr.empty()){ // cheap attempt: keep the inputs, recompute the products
        Z3_model m=Z3_solver_get_model(C,ms); Z3_model_inc_ref(C,m); out.m.clear();
        for(u32 v:vars){ Expr*e=gVars[v].e; Z3_ast a=nullptr; u64 x=0; if(Z3_model_eval(C,m,tr(e),true,&a)){ if(e->w==1) x=Z3_get_bool_value(C,a)==Z3_L_TRUE; else { uint64_t y=0; if(Z3_get_numeral_uint64(C,a,&y)) x=y; } } out.m.push_back({v,x}); }
        Z3_model_dec_ref(C,m);
        Model mm; for(auto&pr:out.m){ if(mm.v.size()<=pr.first) mm.v.resize(pr.first+1,0); mm.v[pr.first]=pr.second; }
        newEvalStamp(); bool ok=true; for(Expr*e:cs) if(!eval(e,mm)){ ok=false; break; }
        haveAbs=true;
        if(ok){ Z3_solver_dec_ref(C,ms); double dt=now()-t0; gSS.time+=dt; if(dt>gSS.maxq) gSS.maxq=dt; gSS.sat++; out.sat=true; return true; } }
      Z3_solver_dec_ref(C,ms);
      if(lenient&&haveAbs){ double dt=now()-t0; gSS.time+=dt; if(dt>gSS.maxq) gSS.maxq=dt; out.sat=true; out.assumed=true; return true; } } }
  for(int stage=0;stage<2&&r==Z3_L_UNDEF;stage++){
    if(stage==0) sol=Z3_mk_simple_solver(C);
    else sol=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV"));
    Z3_solver_inc_ref(C,sol);
    Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p);
    if(stage==0) Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),gStage0);
    if(stage==0&&haveAbs) Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),lenient?200:2000);
    Z3_solver_set_params(C,sol,p); Z3_params_dec_ref(C,p);
    for(Expr*e:cs) Z3_solver_assert(C,sol,tr(e));
    zerr.clear();
    r=Z3_solver_check(C,sol);
    if(!zerr.empty()){ r=Z3_L_UNDEF; why=zerr; }
    if(r==Z3_L_UNDEF&&stage==0){ Z3_solver_dec_ref(C,sol); if(lenient&&haveAbs){ double dt=now()-t0; gSS.time+=dt; if(dt>gSS.maxq) gSS.maxq=dt; out.sat=true; out.assumed=true; return true; } }
  }
  (void)tac;
  double dt=now()-t0; gSS.time+=dt; if(dt>gSS.maxq) gSS.maxq=dt;
  if(r==Z3_L_UNDEF){ if(why.empty()) why=Z3_solver_get_reason_unknown(C,sol); Z3_solver_dec_ref(C,sol); throw SolverUnknown{why}; }
  out.sat=r==Z3_L_TRUE; out.m.clear();
  if(out.sat){
    gSS.sat++;
    Z3_model m=Z3_solver_get_model(C,sol); Z3_model_inc_ref(C,m);
    for(u32 v:vars){ Expr*e=gVars[v].e; Z3_ast a=nullptr; u64 x=0;
      if(Z3_model_eval(C,m,tr(e),true,&a)){ if(e->w==1) x=Z3_get_bool_value(C,a)==Z3_L_TRUE; else { uint64_t y=0; if(Z3_get_numeral_uint64(C,a,&y)) x=y; } }
      out.m.push_back({v,x}); }
    Z3_model_dec_ref(C,m);
    // self check: the solver's assignment must satisfy the slice under our own evaluator
    Model mm; for(auto&p:out.m){ if(mm.v.size()<=p.first) mm.v.resize(p.first+1,0); mm.v[p.first]=p.second; }
    for(Expr*e:cs) if(!eval(e,mm)){ Z3_solver_dec_ref(C,sol); throw SolverUnknown{"internal: solver model does not satisfy "+exprStr(e)}; }
  } else gSS.unsat++;
  Z3_solver_dec_ref(C,sol);
  return out.sat;
}
bool solverSat(const std::vector<Expr*>&cons,Expr*extra,const Model&base,ModelP*out,bool*assumed){
  if(isConst(extra)){ if(!extra->c) return false; }
  gSS.queries++;
  // independence slice
  std::vector<Expr*> sl{extra}; std::vector<char> used(cons.size(),0);
  std::vector<u32> vs=exprVars(extra);
  std::vector<char> in(gVars.size(),0); for(u32 v:vs) in[v]=1;
  bool ch=true;
  while(ch){ ch=false;
    for(size_t i=cons.size();i-->0;) if(!used[i]){ const auto&cv=exprVars(cons[i]); bool hit=false; for(u32 v:cv) if(in[v]){hit=true;break;}
      if(hit){ used[i]=1; sl.push_back(cons[i]); for(u32 v:cv) if(!in[v]){in[v]=1;vs.push_back(v);ch=true;} } } }
  std::vector<u32> key; for(Expr*e:sl) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=cache.find(key); if(it!=cache.end()&&it->second.assumed&&!assumed){ cache.erase(it); it=cache.end(); }
  if(it!=cache.end()) gSS.cacheHits++;
  else { CE ce; std::sort(vs.begin(),vs.end()); z3run(sl,vs,ce,assumed!=nullptr); if(cache.size()>400000) cache.clear(); it=cache.emplace(std::move(key),std::move(ce)).first; }
  if(it->second.sat&&out){ auto m=std::make_shared<Model>(base); for(auto&p:it->second.m){ if(m->v.size()<=p.first) m->v.resize(p.first+1,0); m->v[p.first]=p.second; } *out=m; }
  if(assumed&&it->second.assumed) *assumed=true;
  return it->second.sat;
}
bool solverExact(const std::vector<Expr*>&cons,const Model&base,ModelP*out){
  std::vector<u32> vs; for(Expr*e:cons){ const auto&v=exprVars(e); vs.insert(vs.end(),v.begin(),v.end()); } std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
  CE ce; if(!z3run(cons,vs,ce)) return false;
  auto m=std::make_shared<Model>(base); for(auto&p:ce.m){ if(m->v.size()<=p.first) m->v.resize(p.first+1,0); m->v[p.first]=p.second; } *out=m; return true; }
