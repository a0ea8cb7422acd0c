#include "common.h"
#include "candy/gates/BlockList.h"
using namespace Candy;
OFF(BL_index, offsetof(BlockList, index)) OFF(BL_num, offsetof(BlockList, num_blocked))
static inline Lit L(int x) { Lit l; l.x = x; return l; }
extern "C" {
bool w_bl_pair(const BlockList* b, int o, Cl* c, Cl* d) { return b->isBlocked(L(o), *c, *d); }
bool w_bl_clause(const BlockList* b, int o, Cl* c) { return b->isBlocked(L(o), c); }
}
