#include "common.h"
#include "candy/ipasir/ipasircandy.cc"
#define P(f) OFF(IP_##f, offsetof(IPASIRCandy, f))
P(problem) P(solver) P(assumptions) P(clause) P(fmap) P(nomodel)
#define R(f) OFF(R_##f, offsetof(CandySolverResult, f))
R(status) R(model) R(minimizedModel) R(conflict)
OFF(CP_problem, offsetof(CNFProblem, problem)) OFF(CP_variables, offsetof(CNFProblem, variables))
// where the virtual functions are in the table
#define SLOT(NAME, RET, ARGS, Q) extern "C" { extern RET (CandySolverInterface::* const OFF_MP_##NAME) ARGS Q; RET (CandySolverInterface::* const OFF_MP_##NAME) ARGS Q = &CandySolverInterface::NAME; }
SLOT(init, void, (const CNFProblem&, ClauseAllocator*, bool), )
SLOT(solve, lbool, (), )
SLOT(nVars, unsigned int, (), const)
SLOT(getAssignment, Trail&, (), )
SLOT(getCandySolverResult, CandySolverResult&, (), )
SLOT(setTermCallback, void, (void*, int (*)(void*)), )
SLOT(setLearntCallback, void, (void*, int, void (*)(void*, int*)), )
