// Z3-backed decision procedure with independence slicing and caching.
#pragma once
#include "expr.h"
enum SatR { R_UNSAT = 0, R_SAT = 1, R_UNK = 2 };
struct SolverStats { uint64_t queries = 0, z3queries = 0, fast = 0, cached = 0, sat = 0, unsat = 0, unknown = 0; double z3time = 0; uint64_t assertQueries = 0, assertUnsat = 0; };
extern SolverStats sstats;
extern unsigned z3Rlimit;
// Is pc /\ extra satisfiable?  pc is known satisfiable with model m (m satisfies every element of pc).
// On SAT, m is updated so that it satisfies pc /\ extra.
SatR solve(const std::vector<Expr*>& pc, Expr* extra, Model& m, bool forceZ3 = false);
