#include "common.h"
#include "candy/core/clauses/Clause.h"
#include "candy/core/clauses/Certificate.h"
using namespace Candy;
OFF(CE_active, offsetof(Certificate, active))
extern "C" {
void w_cert_added(Certificate* c, Clause* k) { c->added(k->begin(), k->end()); }
void w_cert_removed(Certificate* c, Clause* k) { c->removed(k->begin(), k->end()); }
void w_cert_proof(Certificate* c) { c->proof(); }
}
