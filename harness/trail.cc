#include "common.h"
#include "candy/core/Trail.h"
using namespace Candy;
#define T(f) OFF(T_##f, offsetof(Trail, f))
T(trail_size) T(qhead) T(trail) T(assigns) T(vardata) T(trail_lim) T(stamp) T(decision) T(assumptions) T(variables)
OFF(VD_reason, offsetof(VarData, reason)) OFF(VD_level, offsetof(VarData, level)) SZ(VarData, VarData)
OFF(S_stamped, offsetof(Stamp<uint32_t>, stamped)) OFF(S_stamp, offsetof(Stamp<uint32_t>, stamp))
extern "C" {
void w_trail_decide(Trail* t, int p) { Lit l; l.x = p; t->decide(l); }
bool w_trail_propagate(Trail* t, int p, Clause* c) { Lit l; l.x = p; return t->propagate(l, c); }
bool w_trail_fact(Trail* t, int p) { Lit l; l.x = p; return t->fact(l); }
void w_trail_backtrack(Trail* t, unsigned l) { t->backtrack(l); }
void w_trail_newlevel(Trail* t) { t->newDecisionLevel(); }
void w_trail_reset(Trail* t) { t->reset(); }
void w_trail_init(Trail* t, unsigned n) { t->init(n); }
unsigned w_trail_value(Trail* t, int p) { Lit l; l.x = p; return (unsigned)(t->value(l) == l_True) + 2 * (t->value(l) == l_False) + 4 * (t->value(l) == l_Undef) + 8 * t->satisfies(l) + 16 * t->falsifies(l); }
bool w_trail_satisfies(Trail* t, Clause* c) { return t->satisfies(c->begin(), c->end()); }
bool w_trail_falsifies(Trail* t, Clause* c) { return t->falsifies(c->begin(), c->end()); }
unsigned long w_trail_lbd(Trail* t, Clause* c) { return t->computeLBD(c->begin(), c->end()); }
void w_trail_assume(Trail* t, std::vector<Lit>* a) { t->setAssumptions(*a); }
unsigned w_trail_level(Trail* t, int v) { return t->level(v); }
Clause* w_trail_reason(Trail* t, int v) { return t->reason(v); }
}
