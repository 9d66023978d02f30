#pragma once
#include "expr.h"
#include <set>
namespace ve {
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, relaxed = 0, algebra = 0; double time = 0; double maxTime = 0; };
struct SolverCfg { unsigned timeoutMs = 10000; unsigned hardTimeoutMs = 60000; bool intAsBv = false; bool dump = false; std::string dumpDir; bool useCvc5 = true, algebraReplace = false; std::string nra = "both"; };
extern SolverStats sstats;
extern SolverCfg scfg;
void initExpr();
// conjunction check; model optional. hard=true uses the full portfolio
Res solve(const std::vector<E> &cs, Model *m, bool *exact, bool hard = false);
// as solve but only over constraints connected with 'focus'
void slice(const std::vector<E> &pc, E focus, std::vector<E> &out);
std::string smt2(const std::vector<E> &cs);
}
