// z3 interface of amisym
#pragma once
#include "expr.hpp"
#include <z3++.h>

struct SolverStats { long queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; };
extern SolverStats g_ss;

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct Model { std::map<int, int64_t> ints; std::map<int, long double> reals; bool hasReals = false; };

// is the conjunction satisfiable?  exact = encode the reals exactly (definitions of atoms), otherwise a sound
// linear abstraction (every non-linear monomial is a free real): UNSAT is then definitive, SAT may be spurious.
Res solveConj(const std::vector<BE>& conj, bool exact, unsigned timeout_ms, Model* model);
// pc and (p != 0)
Res solveNonZero(const std::vector<BE>& pc, PE p, bool exact, unsigned timeout_ms, Model* model);
// pc and (l != r), over the sound abstraction of the monomials
Res solveDiffer(const std::vector<BE>& pc, PE l, PE r, unsigned timeout_ms);
