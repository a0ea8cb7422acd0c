#include "common.h"
#include <assert.h>
#include <cstdint>
#include <cstring>
#include <vector>
#include "candy/core/clauses/Clause.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/simplification/SubsumptionClause.h"
using namespace Candy;
typedef SubsumptionClause SC; typedef ClauseAllocatorPage Pg;
OFF(SC_clause, offsetof(SC, clause)) OFF(SC_abs, offsetof(SC, abstraction)) SZ(SC, SC)
OFF(Pg_size, offsetof(Pg, page_size)) OFF(Pg_cursor, offsetof(Pg, cursor)) OFF(Pg_memory, offsetof(Pg, memory))
static inline Lit L(int x) { Lit l; l.x = x; return l; }
extern "C" {
void w_clause_make(Clause* c, std::vector<Lit>* v, unsigned short lbd) { new (c) Clause(v->begin(), v->end(), lbd); }
void w_clause_swap(Clause* c, unsigned short i, unsigned short j) { c->swap(i, j); }
bool w_clause_contains(Clause* c, int p) { return c->contains(L(p)); }
unsigned w_clause_kind(Clause* c) { return (unsigned)c->isPersistent() + 2 * c->isLearnt() + 4 * c->isDeleted(); }
unsigned w_clause_lbd(Clause* c) { return c->getLBD(); }
unsigned w_clause_size(Clause* c) { return c->size(); }
int w_clause_at(Clause* c, int i) { return (*c)[i].x; }
int w_clause_first(Clause* c) { return c->first().x; }
int w_clause_second(Clause* c) { return c->second().x; }
int w_clause_third(Clause* c) { return c->third().x; }
int w_clause_back(Clause* c) { return c->back().x; }
void w_clause_setDeleted(Clause* c) { c->setDeleted(); }
void w_clause_setPersistent(Clause* c) { c->setPersistent(); }
void w_clause_setLBD(Clause* c, unsigned short l) { c->setLBD(l); }

int w_sc_subsumes(SC* a, SC* b) { return a->subsumes(b).x; }
bool w_sc_equals(SC* a, SC* b) { return a->equals(b); }
bool w_sc_contains(SC* a, int p) { return a->contains(L(p)); }
unsigned w_sc_size(SC* a) { return a->size(); }
bool w_sc_isdel(SC* a) { return a->is_deleted(); }
void w_sc_setdel(SC* a) { a->set_deleted(); }
void w_sc_reset(SC* a, Clause* c) { a->reset(c); }
void w_sc_make(SC* a, Clause* c) { new (a) SC(c); }
void w_sc_assign(SC* a, SC* b) { *a = *b; }

bool w_pg_has(Pg* p, size_t n) { return p->hasMemory(n); }
void* w_pg_alloc(Pg* p, size_t n) { return p->allocate(n); }
size_t w_pg_bytes(Pg* p, size_t n) { return p->clauseBytes(n); }
bool w_pg_contains(Pg* p, void* q) { return p->contains(q); }
}
