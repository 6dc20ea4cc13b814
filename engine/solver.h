#pragma once
#include "term.h"
struct SolveResult { enum R { SAT, UNSAT, UNK } r; std::map<int, double> model; std::map<int,bool> bmodel; };
SolveResult solve(const std::vector<B>& conds, unsigned timeoutMs);
extern double g_solverTime; extern long g_solverCalls;
