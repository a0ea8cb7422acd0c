#include "common.h"
#include "candy/systems/ReduceDB.h"
using namespace Candy;
OFF(R_db, offsetof(ReduceDB, clause_db)) OFF(R_trail, offsetof(ReduceDB, trail)) OFF(R_nReduced, offsetof(ReduceDB, nReduced)) OFF(R_calls, offsetof(ReduceDB, nReduceCalls_))
OFF(R_plbd, offsetof(ReduceDB, persistentLBD)) OFF(R_median, offsetof(ReduceDB, keepMedianLBD)) OFF(R_before, offsetof(ReduceDB, nbclausesbeforereduce)) OFF(R_inc, offsetof(ReduceDB, incReduceDB))
OFF(DB_clauses, offsetof(ClauseDatabase, clauses)) OFF(DB_variables, offsetof(ClauseDatabase, variables))
extern "C" {
void w_reduce(ReduceDB* r) { r->reduce(); }
}
