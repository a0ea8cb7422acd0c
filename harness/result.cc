#include "common.h"
#include "candy/core/CandySolverResult.h"
using namespace Candy;
#define T(f) OFF(T_##f, offsetof(Trail, f))
T(trail_size) T(qhead) T(trail) T(assigns) T(vardata) T(trail_lim) T(stamp) T(decision) T(assumptions) T(variables)
OFF(VD_reason, offsetof(VarData, reason)) OFF(VD_level, offsetof(VarData, level)) SZ(VarData, VarData)
OFF(S_stamped, offsetof(Stamp<uint32_t>, stamped)) OFF(S_stamp, offsetof(Stamp<uint32_t>, stamp))
#define R(f) OFF(R_##f, offsetof(CandySolverResult, f))
R(status) R(model) R(minimizedModel) R(conflict)
static inline Lit L(int x) { Lit l; l.x = x; return l; }
extern "C" {
void w_res_clear(CandySolverResult* r) { r->clear(); }
void w_res_set(CandySolverResult* r, int p) { r->setModelValue(L(p)); }
void w_res_setmin(CandySolverResult* r, int p) { r->setMinimizedModelValue(L(p)); }
bool w_res_sat(CandySolverResult* r, int p) { return r->satisfies(L(p)); }
int w_res_value(CandySolverResult* r, int v) { return r->value(Var(v)).x; }
void w_res_model(CandySolverResult* r, Trail* t) { r->setModel(*t); }
}
