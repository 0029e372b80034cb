// Feasibility queries over path constraints: slicing by shared symbols, result cache, z3.
#pragma once
#include "expr.h"
#include <map>
struct SolverStats { u64 queries = 0, solved = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0; double secs = 0; };
extern SolverStats g_sst;
extern unsigned g_queryTimeoutMs;
extern std::string g_dumpDir;
enum Sat { UNSAT, SAT, UNKNOWN };
// Is cs /\ cond satisfiable?  cur is a model of cs; on SAT, out receives a model of cs/\cond.
Sat satCheck (const std::vector<E>& cs, E cond, const ModelRef& cur, ModelRef& out);
