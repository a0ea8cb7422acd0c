#include "common.h"
#include "candy/simplification/VariableElimination.h"
using namespace Candy;
extern "C" {
bool w_merge_size(VariableElimination* e, const Clause* p, const Clause* q, int v, size_t* size) { return e->merge(*p, *q, Var(v), *size); }
bool w_merge_lits(VariableElimination* e, const Clause* p, const Clause* q, int v, std::vector<Lit>* out) { return e->merge(*p, *q, Var(v), *out); }
}
