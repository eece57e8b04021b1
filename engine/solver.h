#pragma once
#include "expr.h"
enum SatR { S_UNSAT, S_SAT, S_UNKNOWN };
struct SolverStats {
  uint64_t branchQueries = 0, fastMask = 0, cacheHits = 0, z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, assertQueries = 0, fpQueries = 0, fpAbs = 0;
  double z3Time = 0; double z3Max = 0;
};
extern SolverStats gStats;
extern unsigned gZ3TimeoutMs;
// path condition with per-symbol domains
struct PathCond {
  std::vector<E> cs;
  std::unordered_map<uint32_t, Mask256> dom;    // symbols of width <= 8
  std::unordered_map<uint32_t, char> linked;    // narrow symbols occurring in constraints over several symbols
  void add(E e);
};
// Is pc && q satisfiable?  base: a model of pc.  On S_SAT, out is a model of pc && q.
SatR checkSat(const PathCond &pc, E q, const Model &base, ModelP *out, bool forceZ3 = false);
std::string smt2Of(const PathCond &pc, E q);
void solverInit(unsigned seed);
