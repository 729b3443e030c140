#pragma once
#include "expr.h"
#include <memory>
typedef std::shared_ptr<const Model> ModelP;
struct SolverStats { u64 queries=0, z3=0, cacheHits=0, unsat=0, sat=0, absq=0; double time=0, maxq=0; };
extern SolverStats gSS;
extern double gQueryTimeout; // seconds for one query
struct SolverUnknown { std::string why; };
// returns true if constraints && extra satisfiable; fills out (based on base model)
bool solverSat(const std::vector<Expr*>& cons, Expr* extra, const Model& base, ModelP* out, bool* assumed = nullptr);
// With assumed != nullptr a query over products that exceeds a resource limit is answered yes, *assumed is set and the model may be wrong.
bool solverExact(const std::vector<Expr*>& cons, const Model& base, ModelP* out);
void solverAfterFork();
