#include "common.h"
#include "candy/systems/branching/VSIDS.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/VSIDSC.h"
using namespace Candy;
#define T(f) OFF(T_##f, offsetof(Trail, f))
T(trail_size) T(qhead) T(trail) T(assigns) T(vardata) T(trail_lim) T(stamp) T(decision) T(assumptions) T(variables)
OFF(VD_reason, offsetof(VarData, reason)) OFF(VD_level, offsetof(VarData, level)) SZ(VarData, VarData)
OFF(S_stamped, offsetof(Stamp<uint32_t>, stamped)) OFF(S_stamp, offsetof(Stamp<uint32_t>, stamp))
#define X(C, f) OFF(C##_##f, offsetof(C, f))
X(VSIDS, clause_db) X(VSIDS, trail) X(VSIDS, order_heap) X(VSIDS, polarity) X(VSIDS, stamp) X(VSIDS, activity)
X(VSIDSC, clause_db) X(VSIDSC, trail) X(VSIDSC, order_heap) X(VSIDSC, polarity) X(VSIDSC, stamp) X(VSIDSC, activity)
X(LRB, clause_db) X(LRB, trail) X(LRB, order_heap) X(LRB, polarity) X(LRB, stamp) X(LRB, weight) X(LRB, interval_assigned) X(LRB, participated)
OFF(DB_result, offsetof(ClauseDatabase, result))
OFF(AR_nConflicts, offsetof(AnalysisResult, nConflicts)) OFF(AR_learnt, offsetof(AnalysisResult, learnt_clause)) OFF(AR_involved, offsetof(AnalysisResult, involved_clauses)) OFF(AR_lbd, offsetof(AnalysisResult, lbd)) OFF(AR_level, offsetof(AnalysisResult, backtrack_level))
extern "C" {
int w_vsids_pick(VSIDS* b) { return b->pickBranchLit().x; }
int w_lrb_pick(LRB* b) { return b->pickBranchLit().x; }
void w_vsids_reset(VSIDS* b) { b->reset(); }
void w_lrb_reset(LRB* b) { b->reset(); }
void w_vsids_conflict(VSIDS* b) { b->process_conflict(); }
int w_vsidsc_pick(VSIDSC* b) { return b->pickBranchLit().x; }
void w_vsidsc_reset(VSIDSC* b) { b->reset(); }
void w_vsidsc_conflict(VSIDSC* b) { b->process_conflict(); }
void w_vsidsc_bump(VSIDSC* b, int v, double inc) { b->varBumpActivity(Var(v), inc); }
void w_vsids_bump(VSIDS* b, int v) { b->varBumpActivity(Var(v)); }
void w_lrb_conflict(LRB* b) { b->process_conflict(); }
}
