#include "common.h"
#include "candy/systems/learning/ConflictAnalysis.h"
using namespace Candy;
#define T(f) OFF(T_##f, offsetof(Trail, f))
T(trail_size) T(qhead) T(trail) T(assigns) T(vardata) T(trail_lim) T(stamp) T(decision) T(assumptions) T(variables)
OFF(VD_reason, offsetof(VarData, reason)) OFF(VD_level, offsetof(VarData, level)) SZ(VarData, VarData)
OFF(S_stamped, offsetof(Stamp<uint32_t>, stamped)) OFF(S_stamp, offsetof(Stamp<uint32_t>, stamp))
#define X(C, f) OFF(C##_##f, offsetof(C, f))
#define CA ConflictAnalysis
X(CA, learnt_clause) X(CA, involved_clauses) X(CA, stamp) X(CA, analyze_clear) X(CA, analyze_stack) X(CA, minimized) X(CA, clause_db) X(CA, trail)
OFF(BW_clause, offsetof(BinaryWatcher, clause)) OFF(BW_other, offsetof(BinaryWatcher, other)) SZ(BW, BinaryWatcher)
OFF(DB_result, offsetof(ClauseDatabase, result)) OFF(DB_bin, offsetof(ClauseDatabase, binaryWatchers))
OFF(AR_nConflicts, offsetof(AnalysisResult, nConflicts)) OFF(AR_learnt, offsetof(AnalysisResult, learnt_clause)) OFF(AR_involved, offsetof(AnalysisResult, involved_clauses)) OFF(AR_lbd, offsetof(AnalysisResult, lbd)) OFF(AR_level, offsetof(AnalysisResult, backtrack_level))
static inline Lit L(int x) { Lit l; l.x = x; return l; }
extern "C" {
bool w_ca_redundant(CA* c, int p, unsigned long a) { return c->litRedundant(L(p), a); }
void w_ca_minimize(CA* c) { c->minimization(); }
void w_ca_binary(CA* c) { c->minimizationWithBinaryResolution(); }
void w_ca_analyze(CA* c, const Clause* k) { c->analyze(k); }
void w_ca_handle(CA* c, Clause* k) { c->handle_conflict(k); }
std::vector<Lit> w_ca_final(CA* c, int p) { return c->analyzeFinal(L(p)); }
}
