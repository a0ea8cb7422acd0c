#include "common.h"
#include "candy/systems/propagate/Propagate.h"
using namespace Candy;
#define T(f) OFF(T_##f, offsetof(Trail, f))
T(trail_size) T(qhead) T(trail) T(assigns) T(vardata) T(trail_lim) T(stamp) T(decision) T(assumptions) T(variables)
OFF(VD_reason, offsetof(VarData, reason)) OFF(VD_level, offsetof(VarData, level)) SZ(VarData, VarData)
OFF(S_stamped, offsetof(Stamp<uint32_t>, stamped)) OFF(S_stamp, offsetof(Stamp<uint32_t>, stamp))
OFF(BW_clause, offsetof(BinaryWatcher, clause)) OFF(BW_other, offsetof(BinaryWatcher, other)) SZ(BW, BinaryWatcher)
OFF(DB_bin, offsetof(ClauseDatabase, binaryWatchers)) OFF(DB_clauses, offsetof(ClauseDatabase, clauses)) OFF(DB_variables, offsetof(ClauseDatabase, variables))
OFF(P_db, 0) OFF(P_trail, 8) OFF(P_watchers, offsetof(Propagate, watchers)) static_assert(offsetof(Propagate, watchers) == 16, "two references come first");
OFF(W_cref, offsetof(Watcher, cref)) OFF(W_blocker, offsetof(Watcher, blocker)) SZ(W, Watcher)
static inline Lit L(int x) { Lit l; l.x = x; return l; }
extern "C" {
Clause* w_pr_binary(Propagate* o, int p) { return o->propagate_binary_clauses(L(p)); }
Clause* w_pr_watched(Propagate* o, int p) { return o->propagate_watched_clauses(L(p)); }
Clause* w_pr_propagate(Propagate* o) { return o->propagate(); }
void w_pr_attach(Propagate* o, Clause* c) { o->attachClause(c); }
void w_pr_detach(Propagate* o, const Clause* c) { o->detachClause(c); }
void w_pr_init(Propagate* o) { o->init(); }
}
