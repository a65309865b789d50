#pragma once
#include "expr.h"
#include <map>
#include <set>

enum SolveR { S_UNSAT, S_SAT, S_MAYBE /*relaxed-sat, not confirmed*/, S_UNKNOWN };
struct SolveStats {
  uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unsat = 0, sat = 0, maybe = 0, unknown = 0, exactCalls = 0, arithCalls = 0, refinements = 0;
  double z3time = 0, maxq = 0;
};
extern SolveStats gStats;
struct SolverOpts { unsigned branchMs = 4000, assertMs = 60000; bool forceExact = false, forceArith = false, reals = false; int verbose = 0; };
extern SolverOpts gSolverOpts;
// Is (AND pc) AND q satisfiable?  "model" is in/out: on entry a candidate assignment (values for unrelated vars are kept).
SolveR solve(const std::vector<Expr*>& pc, Expr* q, Assign& model, bool isAssert);
bool satisfies(const std::vector<Expr*>& pc, Expr* q, const Assign& as);
