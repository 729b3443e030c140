#include "expr.h"
#include <algorithm>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
u64 gExprCount=0;
std::vector<VarInfo> gVars;
static std::vector<Expr*> table(1<<16,nullptr);
static Expr* pool=nullptr; static size_t poolLeft=0;
static Expr* allocE(){ if(!poolLeft){ poolLeft=4096; pool=(Expr*)malloc(sizeof(Expr)*poolLeft);} poolLeft--; return pool++; }
static inline u32 mix(u64 h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return (u32)h; }
static void grow(){ std::vector<Expr*> t(table.size()*4,nullptr); for(Expr*e:table) while(e){Expr*n=e->next; size_t i=e->hash&(t.size()-1); e->next=t[i]; t[i]=e; e=n;} table.swap(t); }
static Expr* intern(Op op,u32 w,u64 c,const APInt* big,Expr*a=nullptr,Expr*b=nullptr,Expr*d=nullptr){
  u64 h=op*0x9E3779B97F4A7C15ull+w*1000003ull; h=(h^c)*0x9E3779B97F4A7C15ull;
  if(big) h^=(u64)(size_t)llvm::hash_value(*big);
  h=(h^(a?a->id+1:0))*0x9E3779B97F4A7C15ull; h=(h^(b?b->id+1:0))*0x9E3779B97F4A7C15ull; h=(h^(d?d->id+1:0))*0x9E3779B97F4A7C15ull;
  u32 hh=mix(h); size_t i=hh&(table.size()-1);
  for(Expr*e=table[i];e;e=e->next) if(e->hash==hh&&e->op==op&&e->w==w&&e->c==c&&e->k[0]==a&&e->k[1]==b&&e->k[2]==d&&(!big||(e->big&&*e->big==*big))) return e;
  Expr*e=allocE(); e->op=op;e->w=w;e->id=(u32)gExprCount++;e->c=c;e->big=big?new APInt(*big):nullptr;e->k[0]=a;e->k[1]=b;e->k[2]=d;e->nk=d?3:b?2:a?1:0;
  e->hash=hh;e->hm=e->op==E_MUL&&e->w>=8&&e->k[0]->op!=E_CONST&&e->k[1]->op!=E_CONST; for(u32 q=0;q<e->nk;q++) if(e->k[q]->hm) e->hm=true; e->z=nullptr;e->evStamp=0;e->evVal=0;e->vars=nullptr;e->next=table[i];table[i]=e;
  if(gExprCount>table.size()*2) grow();
  return e;
}
Expr* mkConst(u64 v,u32 w){ assert(w>0); if(w>64) return mkConstA(APInt(w,v)); return intern(E_CONST,w,v&maskw(w),nullptr); }
Expr* mkConstA(const APInt&a){ if(a.getBitWidth()<=64) return intern(E_CONST,a.getBitWidth(),a.getZExtValue(),nullptr); return intern(E_CONST,a.getBitWidth(),0,&a); }
APInt constAP(const Expr*e){ return e->w<=64?APInt(e->w,e->c):*e->big; }
Expr* mkVar(const std::string&n,u32 w){ assert(w<=64); u32 i=gVars.size(); Expr*e=intern(E_VAR,w,i,nullptr); gVars.push_back({n,w,e}); return e; }
static Expr *T=nullptr,*F=nullptr;
Expr* mkTrue(){ if(!T)T=mkConst(1,1); return T; }
Expr* mkFalse(){ if(!F)F=mkConst(0,1); return F; }
static APInt foldAP(Op op,const APInt&a,const APInt&b){
  switch(op){
   case E_ADD:return a+b; case E_SUB:return a-b; case E_MUL:return a*b;
   case E_UDIV:return b.isZero()?APInt::getAllOnes(a.getBitWidth()):a.udiv(b);
   case E_UREM:return b.isZero()?a:a.urem(b);
   case E_SDIV:if(b.isZero()) return a.isNegative()?APInt(a.getBitWidth(),1):APInt::getAllOnes(a.getBitWidth()); return a.sdiv(b);
   case E_SREM:return b.isZero()?a:a.srem(b);
   case E_AND:return a&b; case E_OR:return a|b; case E_XOR:return a^b;
   case E_SHL:return b.uge(a.getBitWidth())?APInt(a.getBitWidth(),0):a.shl(b);
   case E_LSHR:return b.uge(a.getBitWidth())?APInt(a.getBitWidth(),0):a.lshr(b);
   case E_ASHR:return b.uge(a.getBitWidth())?a.ashr(a.getBitWidth()-1):a.ashr(b);
   case E_EQ:return APInt(1,a==b); case E_ULT:return APInt(1,a.ult(b)); case E_ULE:return APInt(1,a.ule(b));
   case E_SLT:return APInt(1,a.slt(b)); case E_SLE:return APInt(1,a.sle(b));
   default: abort();
  }
}
static u64 foldU(Op op,u64 a,u64 b,u32 w){
  u64 m=maskw(w);
  switch(op){
   case E_ADD:return (a+b)&m; case E_SUB:return (a-b)&m; case E_MUL:return (a*b)&m;
   case E_UDIV:return b?a/b:m; case E_UREM:return b?a%b:a;
   case E_SDIV:{ if(!b) return sx(a,w)<0?1:m; i64 x=sx(a,w),y=sx(b,w); if(y==-1) return (0-(u64)x)&m; return (u64)(x/y)&m; }
   case E_SREM:{ if(!b) return a; i64 x=sx(a,w),y=sx(b,w); if(y==-1) return 0; return (u64)(x%y)&m; }
   case E_AND:return a&b; case E_OR:return a|b; case E_XOR:return a^b;
   case E_SHL:return b>=w?0:(a<<b)&m; case E_LSHR:return b>=w?0:a>>b; case E_ASHR:return (u64)(sx(a,w)>>(b>=w?(w>64?63:w-1):b))&m;
   case E_EQ:return a==b; case E_ULT:return a<b; case E_ULE:return a<=b; case E_SLT:return sx(a,w)<sx(b,w); case E_SLE:return sx(a,w)<=sx(b,w);
   default: abort();
  }
}
static bool isCmp(Op o){return o>=E_EQ&&o<=E_SLE;}
static bool isZero(Expr*e){return isConst(e)&&(e->w<=64?e->c==0:e->big->isZero());}
static bool isOnes(Expr*e){return isConst(e)&&(e->w<=64?e->c==maskw(e->w):e->big->isAllOnes());}
static bool isOne(Expr*e){return isConst(e)&&(e->w<=64?e->c==1:e->big->isOne());}
Expr* mkNot(Expr*a){
  if(isConst(a)) return mkConstA(~constAP(a));
  if(a->op==E_NOT) return a->k[0];
  if(a->w==1){
    if(a->op==E_ULT) return mkBin(E_ULE,a->k[1],a->k[0]);
    if(a->op==E_ULE) return mkBin(E_ULT,a->k[1],a->k[0]);
    if(a->op==E_SLT) return mkBin(E_SLE,a->k[1],a->k[0]);
    if(a->op==E_SLE) return mkBin(E_SLT,a->k[1],a->k[0]);
  }
  return intern(E_NOT,a->w,0,nullptr,a);
}
static Expr* mkEqS(Expr*a,Expr*b);
// Linear normal form, used only when it cancels or merges terms (e.g. (x/c)*c + (x - (x/c)*c) == x).
struct Lin { Expr* t[12]; u64 c[12]; int n=0; int leaves=0; u64 k=0; bool ok=true; };
static void linCollect(Expr*e,u64 c,Lin&L,int d){
  if(!L.ok) return;
  if(isConst(e)){ L.k+=c*e->c; return; }
  if(d<6){
    if(e->op==E_ADD){ linCollect(e->k[0],c,L,d+1); linCollect(e->k[1],c,L,d+1); return; }
    if(e->op==E_SUB){ linCollect(e->k[0],c,L,d+1); linCollect(e->k[1],0-c,L,d+1); return; }
    if(e->op==E_MUL&&isConst(e->k[1])){ linCollect(e->k[0],c*e->k[1]->c,L,d+1); return; } }
  L.leaves++;
  for(int i=0;i<L.n;i++) if(L.t[i]==e){ L.c[i]+=c; return; }
  if(L.n==12){ L.ok=false; return; }
  L.t[L.n]=e; L.c[L.n++]=c; }
static bool linHasMul(Expr*e){ return e->op==E_MUL||e->op==E_ADD||e->op==E_SUB; }
static Expr* linTry(Op op,Expr*a,Expr*b){
  if(a->w>64||a->w<8||!(linHasMul(a)||linHasMul(b))) return nullptr;
  Lin L; linCollect(a,1,L,0); linCollect(b,op==E_SUB?~0ull:1,L,0); if(!L.ok) return nullptr;
  u64 m=maskw(a->w); int nz=0; for(int i=0;i<L.n;i++){ L.c[i]&=m; if(L.c[i]) nz++; }
  if(nz>=L.leaves||nz>2) return nullptr;
  Expr*r=nullptr; for(int pass=0;pass<2;pass++) for(int i=0;i<L.n;i++){ if(!L.c[i]) continue; bool neg=L.c[i]==m; if((pass==0)==neg) continue; if(!r){ r=L.c[i]==1?L.t[i]:mkBin(E_MUL,L.t[i],mkConst(L.c[i],a->w)); } else r=neg?mkBin(E_SUB,r,L.t[i]):mkBin(E_ADD,r,L.c[i]==1?L.t[i]:mkBin(E_MUL,L.t[i],mkConst(L.c[i],a->w))); }
  L.k&=m; if(!r) return mkConst(L.k,a->w); return L.k?mkBin(E_ADD,r,mkConst(L.k,a->w)):r; }
Expr* mkBin(Op op,Expr*a,Expr*b){
  if((op==E_ADD||op==E_SUB)&&!isConst(a)&&!isConst(b)) if(Expr*r=linTry(op,a,b)) return r;
  assert(a->w==b->w);
  u32 w=a->w; u32 rw=isCmp(op)?1:w;
  if(isConst(a)&&isConst(b)){ if(w<=64) return mkConst(foldU(op,a->c,b->c,w),rw); return mkConstA(foldAP(op,constAP(a),constAP(b))); }
  switch(op){
   case E_ADD:
    if(w==1) return mkBin(E_XOR,a,b);
    if(isConst(a)) std::swap(a,b);
    if(isZero(b)) return a;
    if(isConst(b)){ if(a->op==E_ADD&&isConst(a->k[1])) return mkBin(E_ADD,a->k[0],mkBin(E_ADD,a->k[1],b)); 
       if(a->op==E_ITE&&isConst(a->k[1])&&isConst(a->k[2])) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b)); }
    else { if(a->op==E_ADD&&isConst(a->k[1])) return mkBin(E_ADD,mkBin(E_ADD,a->k[0],b),a->k[1]);
       if(b->op==E_ADD&&isConst(b->k[1])) return mkBin(E_ADD,mkBin(E_ADD,a,b->k[0]),b->k[1]);
       if(b->op==E_SUB&&b->k[1]==a) return b->k[0]; if(a->op==E_SUB&&a->k[1]==b) return a->k[0];
       if(a->id>b->id) std::swap(a,b); }
    break;
   case E_SUB:
    if(w==1) return mkBin(E_XOR,a,b);
    if(a==b) return mkConst(0,w);
    if(isConst(b)) return mkBin(E_ADD,a,mkConstA(-constAP(b)));
    if(a->op==E_ADD){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; }
    if(b->op==E_ADD&&isConst(b->k[1])){ // a-(x+c) = (a-x)-c
       return mkBin(E_ADD,mkBin(E_SUB,a,b->k[0]),mkConstA(-constAP(b->k[1]))); }
    if(a->op==E_ADD&&isConst(a->k[1])) return mkBin(E_ADD,mkBin(E_SUB,a->k[0],b),a->k[1]);
    break;
   case E_MUL:
    if(w==1) return mkBin(E_AND,a,b);
    if(isConst(a)) std::swap(a,b);
    if(isZero(b)) return b; if(isOne(b)) return a;
    if(!isConst(b)&&a->id>b->id) std::swap(a,b);
    break;
   case E_UDIV: if(isOne(b)) return a;
    if(isConst(b)&&constAP(b).isPowerOf2()) return mkBin(E_LSHR,a,mkConst(constAP(b).logBase2(),w)); break;
   case E_UREM: if(isOne(b)) return mkConst(0,w);
    if(isConst(b)&&constAP(b).isPowerOf2()) return mkBin(E_AND,a,mkConstA(constAP(b)-1)); break;
   case E_SDIV: if(isOne(b)) return a; break;
   case E_SREM: if(isOne(b)) return mkConst(0,w); break;
   case E_AND:
    if(isConst(a)) std::swap(a,b);
    if(a==b) return a; if(isZero(b)) return b; if(isOnes(b)) return a;
    if(w==1){ if(a==mkNot(b)) return mkFalse(); }
    if(isConst(b)&&w>1){
      APInt c=constAP(b);
      if(c.isMask()) return mkZext(mkExtract(a,0,c.countr_one()),w);
      if(c.isShiftedMask()){ unsigned lo=c.countr_zero(),n=c.popcount(); Expr*e=mkExtract(a,lo,n); e=mkConcat(e,mkConst(0,lo)); return e->w<w?mkZext(e,w):e; }
      if(a->op==E_AND&&isConst(a->k[1])) return mkBin(E_AND,a->k[0],mkBin(E_AND,a->k[1],b));
    }
    if(!isConst(b)&&a->id>b->id) std::swap(a,b);
    break;
   case E_OR:
    if(isConst(a)) std::swap(a,b);
    if(a==b) return a; if(isZero(b)) return a; if(isOnes(b)) return b;
    if(w==1){ if(a==mkNot(b)) return mkTrue(); }
    if(w>1){ // zext(x) | concat(y,0_k) with x->w<=k
      for(int s=0;s<2;s++){ Expr*x=s?b:a,*y=s?a:b;
        if(x->op==E_ZEXT&&y->op==E_CONCAT&&isZero(y->k[1])&&y->k[1]->w>=x->k[0]->w){
          u32 kz=y->k[1]->w; Expr*lo=x->k[0]->w<kz?mkZext(x->k[0],kz):x->k[0]; return mkConcat(y->k[0],lo); }
        if(x->op==E_ZEXT&&y->op==E_ZEXT&&y->k[0]->op==E_CONCAT&&isZero(y->k[0]->k[1])&&y->k[0]->k[1]->w>=x->k[0]->w){
          u32 kz=y->k[0]->k[1]->w; Expr*lo=x->k[0]->w<kz?mkZext(x->k[0],kz):x->k[0]; return mkZext(mkConcat(y->k[0]->k[0],lo),w); } }
    }
    if(!isConst(b)&&a->id>b->id) std::swap(a,b);
    break;
   case E_XOR:
    if(isConst(a)) std::swap(a,b);
    if(a==b) return mkConst(0,w); if(isZero(b)) return a; if(isOnes(b)) return mkNot(a);
    if(!isConst(b)&&a->id>b->id) std::swap(a,b);
    break;
   case E_SHL:
    if(isZero(a)) return a;
    if(isConst(b)){ APInt s=constAP(b); if(s.uge(w)) return mkConst(0,w); u32 n=s.getZExtValue(); if(!n) return a; return mkConcat(mkExtract(a,0,w-n),mkConst(0,n)); }
    break;
   case E_LSHR:
    if(isZero(a)) return a;
    if(isConst(b)){ APInt s=constAP(b); if(s.uge(w)) return mkConst(0,w); u32 n=s.getZExtValue(); if(!n) return a; return mkZext(mkExtract(a,n,w-n),w); }
    break;
   case E_ASHR:
    if(isZero(a)) return a;
    if(isConst(b)){ APInt s=constAP(b); u32 n=s.uge(w)?w-1:s.getZExtValue(); if(!n) return a; return mkSext(mkExtract(a,n,w-n),w); }
    break;
   case E_EQ: return mkEqS(a,b);
   case E_ULT:
    if(a==b) return mkFalse();
    if(w==1) return mkAnd(mkNot(a),b);
    if(isZero(b)) return mkFalse(); if(isOnes(a)) return mkFalse();
    if(isZero(a)) return mkNot(mkEq(b,a));
    if(isOne(b)) return mkEq(a,mkConst(0,w));
    goto cmpz;
   case E_ULE:
    if(a==b) return mkTrue();
    if(w==1) return mkOr(mkNot(a),b);
    if(isZero(a)) return mkTrue(); if(isOnes(b)) return mkTrue();
    if(isZero(b)) return mkEq(a,b);
    if(isOne(a)) return mkNot(mkEq(b,mkConst(0,w)));
    goto cmpz;
   case E_SLT: if(a==b) return mkFalse(); if(w==1) return mkAnd(a,mkNot(b)); goto cmpz;
   case E_SLE: if(a==b) return mkTrue(); if(w==1) return mkOr(a,mkNot(b)); goto cmpz;
   cmpz:{
    if(a->op==E_ZEXT||b->op==E_ZEXT){
      Expr*x=a->op==E_ZEXT?a->k[0]:nullptr,*y=b->op==E_ZEXT?b->k[0]:nullptr;
      Op u=(op==E_SLT)?E_ULT:(op==E_SLE)?E_ULE:op;
      if(x&&y){ u32 m=std::max(x->w,y->w); return mkBin(u,mkZext(x,m),mkZext(y,m)); }
      if(x&&isConst(b)){ APInt c=constAP(b); bool sgn=(op==E_SLT||op==E_SLE);
        if(sgn&&c.isNegative()) return mkFalse();
        if(c.getActiveBits()>x->w) return mkTrue();
        return mkBin(u,x,mkConstA(c.trunc(x->w))); }
      if(y&&isConst(a)){ APInt c=constAP(a); bool sgn=(op==E_SLT||op==E_SLE);
        if(sgn&&c.isNegative()) return mkTrue();
        if(c.getActiveBits()>y->w) return mkFalse();
        return mkBin(u,mkConstA(c.trunc(y->w)),y); }
    }
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
    if(a->op==E_SEXT&&isConst(b)&&(op==E_SLT||op==E_SLE)){ APInt c=constAP(b); if(c.isSignedIntN(a->k[0]->w)) return mkBin(op,a->k[0],mkConstA(c.trunc(a->k[0]->w))); return c.isNegative()?mkFalse():mkTrue(); }
    if(b->op==E_SEXT&&isConst(a)&&(op==E_SLT||op==E_SLE)){ APInt c=constAP(a); if(c.isSignedIntN(b->k[0]->w)) return mkBin(op,mkConstA(c.trunc(b->k[0]->w)),b->k[0]); return c.isNegative()?mkTrue():mkFalse(); }
    if(a->op==E_ITE&&isConst(b)&&isConst(a->k[1])&&isConst(a->k[2])) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
    if(b->op==E_ITE&&isConst(a)&&isConst(b->k[1])&&isConst(b->k[2])) return mkIte(b->k[0],mkBin(op,a,b->k[1]),mkBin(op,a,b->k[2]));
    break; }
   default: break;
  }
  return intern(op,rw,0,nullptr,a,b);
}
static Expr* mkEqS(Expr*a,Expr*b){
  if(a==b) return mkTrue();
  u32 w=a->w;
  if(isConst(a)) std::swap(a,b);
  if(w==1){ if(isConst(b)) return b->c?a:mkNot(a); if(a==mkNot(b)) return mkFalse(); }
  if(isConst(b)){
    APInt c=constAP(b);
    switch(a->op){
     case E_ZEXT: if(c.getActiveBits()>a->k[0]->w) return mkFalse(); return mkEqS(a->k[0],mkConstA(c.trunc(a->k[0]->w)));
     case E_SEXT: if(!c.isSignedIntN(a->k[0]->w)) return mkFalse(); return mkEqS(a->k[0],mkConstA(c.trunc(a->k[0]->w)));
     case E_ADD: if(isConst(a->k[1])) return mkEqS(a->k[0],mkConstA(c-constAP(a->k[1]))); break;
     case E_XOR: if(isConst(a->k[1])) return mkEqS(a->k[0],mkConstA(c^constAP(a->k[1]))); break;
     case E_NOT: return mkEqS(a->k[0],mkConstA(~c));
     case E_CONCAT: { u32 lw=a->k[1]->w; return mkAnd(mkEqS(a->k[0],mkConstA(c.extractBits(w-lw,lw))),mkEqS(a->k[1],mkConstA(c.trunc(lw)))); }
     case E_ITE: { bool c1=isConst(a->k[1]),c2=isConst(a->k[2]);
        if(c1&&c2){ bool e1=a->k[1]==b,e2=a->k[2]==b; if(e1&&e2) return mkTrue(); if(e1) return a->k[0]; if(e2) return mkNot(a->k[0]); return mkFalse(); }
        if(c1){ Expr*r=mkEqS(a->k[2],b); return a->k[1]==b?mkOr(a->k[0],r):mkAnd(mkNot(a->k[0]),r); }
        if(c2){ Expr*r=mkEqS(a->k[1],b); return a->k[2]==b?mkOr(mkNot(a->k[0]),r):mkAnd(a->k[0],r); }
        break; }
     case E_SUB: if(c.isZero()) return mkEqS(a->k[0],a->k[1]); break;
     default: break;
    }
  } else {
    if(a->op==E_ZEXT&&b->op==E_ZEXT){ u32 m=std::max(a->k[0]->w,b->k[0]->w); if(m<w) return mkEqS(mkZext(a->k[0],m),mkZext(b->k[0],m)); }
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->k[0]->w==b->k[0]->w) return mkEqS(a->k[0],b->k[0]);
    if(a->op==E_ADD&&b->op==E_ADD){ if(a->k[1]==b->k[1]) return mkEqS(a->k[0],b->k[0]); if(a->k[0]==b->k[0]) return mkEqS(a->k[1],b->k[1]); }
    if(a->op==E_ADD&&isConst(a->k[1])&&a->k[0]==b) return mkFalse();
    if(b->op==E_ADD&&isConst(b->k[1])&&b->k[0]==a) return mkFalse();
    if(a->id>b->id) std::swap(a,b);
  }
  return intern(E_EQ,1,0,nullptr,a,b);
}
static Expr* mkExtract2(Expr*a,u32 lo,u32 w);
struct ExC{Expr*a;u32 lo,w;Expr*r;}; static ExC exCache[1<<14];
Expr* mkExtract(Expr*a,u32 lo,u32 w){
  assert(lo+w<=a->w&&w>0);
  if(lo==0&&w==a->w) return a;
  if(a->op==E_CONST||a->op==E_VAR) return mkExtract2(a,lo,w);
  ExC&c=exCache[(a->id*0x9E3779B1u+lo*0x85EBCA6Bu+w*0xC2B2AE35u)>>18];
  if(c.a==a&&c.lo==lo&&c.w==w) return c.r;
  Expr*r=mkExtract2(a,lo,w);
  ExC&d=exCache[(a->id*0x9E3779B1u+lo*0x85EBCA6Bu+w*0xC2B2AE35u)>>18]; d.a=a;d.lo=lo;d.w=w;d.r=r; return r;
}
static Expr* mkExtract2(Expr*a,u32 lo,u32 w){
  switch(a->op){
   case E_CONST: if(a->w<=64) return mkConst(a->c>>lo,w); return mkConstA(a->big->extractBits(w,lo));
   case E_EXTRACT: return mkExtract(a->k[0],a->c+lo,w);
   case E_CONCAT: { u32 lw=a->k[1]->w; if(lo>=lw) return mkExtract(a->k[0],lo-lw,w); if(lo+w<=lw) return mkExtract(a->k[1],lo,w);
      return mkConcat(mkExtract(a->k[0],0,lo+w-lw),mkExtract(a->k[1],lo,lw-lo)); }
   case E_ZEXT: { u32 iw=a->k[0]->w; if(lo>=iw) return mkConst(0,w); if(lo+w<=iw) return mkExtract(a->k[0],lo,w); return mkZext(mkExtract(a->k[0],lo,iw-lo),w); }
   case E_SEXT: { u32 iw=a->k[0]->w; if(lo+w<=iw) return mkExtract(a->k[0],lo,w); if(lo<iw) return mkSext(mkExtract(a->k[0],lo,iw-lo),w); if(lo>=iw) return mkSext(mkExtract(a->k[0],iw-1,1),w); break; }
   case E_ITE: if(isConst(a->k[1])||isConst(a->k[2])||a->k[1]->op==E_ITE||a->k[2]->op==E_ITE||a->k[1]->op==E_ZEXT||a->k[2]->op==E_ZEXT||a->k[1]->op==E_CONCAT||a->k[2]->op==E_CONCAT) return mkIte(a->k[0],mkExtract(a->k[1],lo,w),mkExtract(a->k[2],lo,w)); break;
   case E_AND: case E_OR: case E_XOR: return mkBin(a->op,mkExtract(a->k[0],lo,w),mkExtract(a->k[1],lo,w));
   case E_NOT: return mkNot(mkExtract(a->k[0],lo,w));
   case E_ADD: case E_SUB: case E_MUL: if(lo==0) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
   default: break;
  }
  return intern(E_EXTRACT,w,lo,nullptr,a);
}
Expr* mkExtractRaw(Expr*a,u32 lo,u32 w){ return intern(E_EXTRACT,w,lo,nullptr,a); }
Expr* mkConcat(Expr*h,Expr*l){
  u32 w=h->w+l->w;
  if(isConst(h)&&isConst(l)) return mkConstA(constAP(h).concat(constAP(l)));
  if(isZero(h)) return mkZext(l,w);
  if(h->op==E_EXTRACT&&l->op==E_EXTRACT&&h->k[0]==l->k[0]&&h->c==l->c+l->w) return mkExtract(h->k[0],l->c,w);
  if(h->op==E_EXTRACT&&h->k[0]==l&&h->c==l->w) return mkExtract(l,0,w); // unreachable normally
  if(l->op==E_CONCAT&&h->op==E_EXTRACT&&l->k[0]->op==E_EXTRACT&&l->k[0]->k[0]==h->k[0]&&h->c==l->k[0]->c+l->k[0]->w) return mkConcat(mkConcat(h,l->k[0]),l->k[1]);
  if(h->op==E_CONCAT&&l->op==E_EXTRACT&&h->k[1]->op==E_EXTRACT&&h->k[1]->k[0]==l->k[0]&&h->k[1]->c==l->c+l->w) return mkConcat(h->k[0],mkConcat(h->k[1],l));
  if(isConst(l)&&h->op==E_CONCAT&&isConst(h->k[1])) return mkConcat(h->k[0],mkConcat(h->k[1],l));
  if(h->op==E_ZEXT) return mkZext(mkConcat(h->k[0],l),w);
  return intern(E_CONCAT,w,0,nullptr,h,l);
}
Expr* mkZext(Expr*a,u32 w){
  assert(w>=a->w);
  if(w==a->w) return a;
  if(isConst(a)) return mkConstA(constAP(a).zext(w));
  if(a->op==E_ZEXT) return mkZext(a->k[0],w);
  if(a->op==E_ITE&&isConst(a->k[1])&&isConst(a->k[2])) return mkIte(a->k[0],mkZext(a->k[1],w),mkZext(a->k[2],w));
  return intern(E_ZEXT,w,0,nullptr,a);
}
Expr* mkSext(Expr*a,u32 w){
  assert(w>=a->w);
  if(w==a->w) return a;
  if(isConst(a)) return mkConstA(constAP(a).sext(w));
  if(a->op==E_SEXT) return mkSext(a->k[0],w);
  if(a->op==E_ZEXT) return mkZext(a->k[0],w);
  if(a->op==E_ITE&&isConst(a->k[1])&&isConst(a->k[2])) return mkIte(a->k[0],mkSext(a->k[1],w),mkSext(a->k[2],w));
  return intern(E_SEXT,w,0,nullptr,a);
}
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  assert(c->w==1&&a->w==b->w);
  if(isConst(c)) return c->c?a:b;
  if(a==b) return a;
  if(c->op==E_NOT) return mkIte(c->k[0],b,a);
  if(a->w==1){
    if(isConst(a)) return a->c?mkOr(c,b):mkAnd(mkNot(c),b);
    if(isConst(b)) return b->c?mkOr(mkNot(c),a):mkAnd(c,a);
  }
  if(a->op==E_ITE&&a->k[0]==c) a=a->k[1];
  if(b->op==E_ITE&&b->k[0]==c) b=b->k[2];
  if(a==b) return a;
  if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->k[0]->w==b->k[0]->w) return mkZext(mkIte(c,a->k[0],b->k[0]),a->w);
  return intern(E_ITE,a->w,0,nullptr,c,a,b);
}
static u64 stamp=1;
static std::unordered_map<Expr*,APInt> wideMemo;
void newEvalStamp(){ stamp++; wideMemo.clear(); }
static u64 evS(Expr*e,const Model&m);
static APInt evA(Expr*e,const Model&m){
  if(e->w<=64) return APInt(e->w,evS(e,m));
  if(e->op==E_CONST) return *e->big;
  auto it=wideMemo.find(e); if(it!=wideMemo.end()) return it->second;
  APInt r(e->w,0);
  switch(e->op){
   case E_NOT:r=~evA(e->k[0],m);break;
   case E_CONCAT:r=evA(e->k[0],m).concat(evA(e->k[1],m));break;
   case E_EXTRACT:r=evA(e->k[0],m).extractBits(e->w,e->c);break;
   case E_ZEXT:r=evA(e->k[0],m).zext(e->w);break;
   case E_SEXT:r=evA(e->k[0],m).sext(e->w);break;
   case E_ITE:r=evS(e->k[0],m)?evA(e->k[1],m):evA(e->k[2],m);break;
   default:r=foldAP(e->op,evA(e->k[0],m),evA(e->k[1],m));
  }
  wideMemo.emplace(e,r); return r;
}
static u64 evS(Expr*e,const Model&m){
  if(e->op==E_CONST) return e->c;
  if(e->op==E_VAR) return m.get(e->c);
  if(e->evStamp==stamp) return e->evVal;
  u64 r;
  switch(e->op){
   case E_NOT:r=~evS(e->k[0],m)&maskw(e->w);break;
   case E_CONCAT:r=(evS(e->k[0],m)<<e->k[1]->w)|evS(e->k[1],m);break;
   case E_EXTRACT: if(e->k[0]->w<=64) r=(evS(e->k[0],m)>>e->c)&maskw(e->w); else r=evA(e->k[0],m).extractBits(e->w,e->c).getZExtValue(); break;
   case E_ZEXT:r=evS(e->k[0],m);break;
   case E_SEXT:r=(u64)sx(evS(e->k[0],m),e->k[0]->w)&maskw(e->w);break;
   case E_ITE:r=evS(e->k[0],m)?evS(e->k[1],m):evS(e->k[2],m);break;
   default:
    if(e->k[0]->w<=64) r=foldU(e->op,evS(e->k[0],m),evS(e->k[1],m),e->k[0]->w);
    else r=foldAP(e->op,evA(e->k[0],m),evA(e->k[1],m)).getZExtValue();
  }
  e->evStamp=stamp;e->evVal=r;return r;
}
u64 eval(Expr*e,const Model&m){ newEvalStamp(); return evS(e,m); }
APInt evalAP(Expr*e,const Model&m){ newEvalStamp(); return evA(e,m); }
const std::vector<u32>& exprVars(Expr*e){
  if(e->vars) return *e->vars;
  static std::vector<u32> empty;
  if(e->op==E_CONST) return empty;
  // iterative collection
  std::vector<u32> out; std::vector<Expr*> st{e}; static std::unordered_map<Expr*,char> seen; seen.clear();
  while(!st.empty()){ Expr*x=st.back(); st.pop_back(); if(x->op==E_CONST||seen.count(x)) continue; seen[x]=1;
    if(x->vars){ out.insert(out.end(),x->vars->begin(),x->vars->end()); continue; }
    if(x->op==E_VAR){ out.push_back(x->c); continue; }
    for(u32 i=0;i<x->nk;i++) st.push_back(x->k[i]); }
  std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end());
  e->vars=new std::vector<u32>(std::move(out)); return *e->vars;
}
std::string exprStr(Expr*e,int d){
  static const char*n[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","not","concat","extract","zext","sext","ite","agg"};
  if(e->op==E_CONST){ llvm::SmallString<40> s; constAP(e).toStringUnsigned(s); return std::string(s.str()); }
  if(e->op==E_VAR) return gVars[e->c].name;
  if(d<=0) return "..";
  std::string s="("; s+=n[e->op]; if(e->op==E_EXTRACT){ s+=":"+std::to_string(e->c)+"+"+std::to_string(e->w);} else if(e->op==E_ZEXT||e->op==E_SEXT) s+=":"+std::to_string(e->w);
  for(u32 i=0;i<e->nk;i++) s+=" "+exprStr(e->k[i],d-1); return s+")";
}
