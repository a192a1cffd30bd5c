#pragma once
#include "expr.h"
struct Solver {
    u64 queries = 0, cached = 0, reused = 0, unknowns = 0; double secs = 0; u64 slowest_ms = 0;
    unsigned timeout_ms = 60000;
    // Is (all cs) satisfiable?  cs are width-1.  1 sat (model filled for the variables of cs), 0 unsat, -1 unknown
    int check(const std::vector<Expr *> &cs, Assign &model);
};
extern Solver solver;
