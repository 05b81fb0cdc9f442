// Z3 front end with constraint slicing and a query cache.
#pragma once
#include "expr.h"
#include <memory>

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, cached = 0, unknown = 0, ns = 0, max_ns = 0;
};
extern SolverStats g_ss;
void solver_init (unsigned rlimit);
// 1 = sat (model updated for the variables involved), 0 = unsat, -1 = unknown
int solver_check (const std::vector<Expr *> &cs, Expr *q, const Model &base, Model *out);
std::string expr_str (Expr *e);
