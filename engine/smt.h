// Two encodings of the same queries: linear/non-linear integer arithmetic (polynomials
// with explicit wrap variables) and bit-vectors, both decided by Z3.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <gmpxx.h>

enum Res { SAT, UNSAT, UNKNOWN };
struct SmtStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, lia = 0, nia = 0, bv = 0; double time = 0; double maxq = 0; };
extern SmtStats g_smt;
struct SmtCfg { int lia_ms = 4000, nia_ms = 8000, bv_ms = 30000; bool bv_first = false; bool no_bv = false, no_lia = false; };
extern SmtCfg g_cfg;
// is the conjunction of cs satisfiable?  model is indexed by variable; verified by evaluation
Res smtCheck(const std::vector<Expr*>& cs, std::vector<u128>& model);
