#pragma once
#include "expr.h"
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, trivial = 0; double seconds = 0; u64 maxNodes = 0; double maxSeconds = 0; };
extern SolverStats gSolver;
extern unsigned gSolverTimeoutMs;
// is the conjunction satisfiable?  (forceSolver: never answer from the model cache for Unsat; always for final verdicts)
Res solve(const std::vector<Expr*>& conj, Model* model, bool verdict);
// verdict on "exists x in dom(var) with f(x) != g(x)" using explicit decision-tree encodings over raw bits
Res solveUnaryNeq(Expr* f, Expr* g, Expr* pc, Model* model);
