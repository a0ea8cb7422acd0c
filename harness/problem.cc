#include "common.h"
#include "candy/core/CNFProblem.cc"
using namespace Candy;
OFF(CP_problem, offsetof(CNFProblem, problem)) OFF(CP_variables, offsetof(CNFProblem, variables))
#define R(f) OFF(R_##f, offsetof(CandySolverResult, f))
R(status) R(model) R(minimizedModel) R(conflict)
extern "C" {
void w_cnf_read(CNFProblem* p, Cl* c) { p->readClause(*c); }
void w_cnf_range(CNFProblem* p, const Lit* a, const Lit* b) { p->readClause(a, b); }
bool w_cnf_check(CNFProblem* p, CandySolverResult* r) { return p->checkResult(*r); }
}
