#pragma once
#include "expr.hpp"
#include <set>
enum SolveR { S_SAT, S_UNSAT, S_UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, bytecases = 0, cacheHits = 0, modelHits = 0; double seconds = 0, maxs = 0; };
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
void solverInit();
// satisfiability of cons /\ extra; on SAT, m is updated so that it satisfies all of them
SolveR solve(const std::vector<E> &cons, E extra, Model &m);
std::string dumpSmt2(const std::vector<E> &cons, E extra);
