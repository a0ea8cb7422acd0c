#include "common.h"
#include "candy/core/clauses/ClauseDatabase.h"
using namespace Candy;
OFF(DB_bin, offsetof(ClauseDatabase, binaryWatchers)) OFF(DB_clauses, offsetof(ClauseDatabase, clauses)) OFF(DB_cert, offsetof(ClauseDatabase, certificate)) OFF(DB_variables, offsetof(ClauseDatabase, variables))
OFF(DB_alloc, offsetof(ClauseDatabase, allocator)) OFF(BW_clause, offsetof(BinaryWatcher, clause)) OFF(BW_other, offsetof(BinaryWatcher, other)) SZ(BW, BinaryWatcher)
OFF(DB_empty, offsetof(ClauseDatabase, emptyClause_)) SZ(VecBW, std::vector<BinaryWatcher>)
extern "C" {
Clause* w_db_create(ClauseDatabase* d, std::vector<Lit>* v, unsigned lbd, bool lemma) { return d->createClause(v->begin(), v->end(), lbd, lemma); }
void w_db_reinit(ClauseDatabase* d) { d->reinitBinaryWatchers(); }
Clause* w_db_strengthen(ClauseDatabase* d, Clause* c, int p) { Lit l; l.x = p; return d->strengthenClause(c, l); }
void w_db_remove(ClauseDatabase* d, Clause* c) { d->removeClause(c); }
const std::vector<BinaryWatcher>* w_db_watchers(ClauseDatabase* d, int p) { Lit l; l.x = p; return &d->getBinaryWatchers(l); }
}
