// Hash-consed bit-vector expressions with simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <cassert>
#include <llvm/ADT/APInt.h>
using llvm::APInt;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

enum Op : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_NOT, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE, E_AGG };

struct Expr {
  Op op; u32 w; u32 id; u32 nk;
  u64 c;          // const value (w<=64), var index, extract low bit
  APInt* big;     // const value when w>64
  Expr* k[3];
  Expr* next;     // hash chain
  u32 hash;
  bool hm;        // contains a product of two non-constant factors
  void* z;        // Z3_ast
  u64 evStamp; u64 evVal;
  std::vector<u32>* vars; // cached var set (sorted)
};
struct AggData;
struct Val { u64 c; Expr* e; Val():c(0),e(nullptr){} explicit Val(u64 x):c(x),e(nullptr){} Val(u64 x,Expr*y):c(x),e(y){} bool isC()const{return !e;} };
struct AggExpr : Expr { std::vector<Val> f; };

static inline u64 maskw(u32 w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v,u32 w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

extern u64 gExprCount;
Expr* mkConst(u64 v,u32 w);
Expr* mkConstA(const APInt& a);
struct VarInfo{ std::string name; u32 w; Expr* e; };
extern std::vector<VarInfo> gVars;
Expr* mkVar(const std::string& name,u32 w);
Expr* mkBin(Op op,Expr* a,Expr* b);
Expr* mkNot(Expr* a);
Expr* mkExtract(Expr* a,u32 lo,u32 w);
Expr* mkExtractRaw(Expr* a,u32 lo,u32 w);
Expr* mkConcat(Expr* hi,Expr* lo);
Expr* mkZext(Expr* a,u32 w);
Expr* mkSext(Expr* a,u32 w);
Expr* mkIte(Expr* c,Expr* a,Expr* b);
static inline bool isConst(const Expr*e){return e->op==E_CONST;}
APInt constAP(const Expr*e);
static inline Expr* mkAnd(Expr*a,Expr*b){return mkBin(E_AND,a,b);}
static inline Expr* mkOr(Expr*a,Expr*b){return mkBin(E_OR,a,b);}
static inline Expr* mkEq(Expr*a,Expr*b){return mkBin(E_EQ,a,b);}
Expr* mkTrue(); Expr* mkFalse();

// Assignment of variables: index -> value (w<=64 only variables). Missing => 0
struct Model { std::vector<u64> v; u64 get(u32 i)const{return i<v.size()?v[i]:0;} };
APInt evalAP(Expr*e,const Model&m);
u64 eval(Expr*e,const Model&m); // w<=64
void newEvalStamp();
const std::vector<u32>& exprVars(Expr*e);
std::string exprStr(Expr*e,int depth=6);
