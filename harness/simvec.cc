#include "common.h"
#include "candy/randomsimulation/SimulationVector.cc"
using namespace Candy; typedef SimulationVector SV;
SZ(SV, SV)
extern "C" {
void w_sv_not(SV* o, SV* a) { *o = ~*a; }
void w_sv_bang(SV* o, SV* a) { *o = !*a; }
void w_sv_or(SV* o, SV* a, SV* b) { *o = *a | *b; }
void w_sv_xor(SV* o, SV* a, SV* b) { *o = *a ^ *b; }
void w_sv_oreq(SV* a, SV* b) { *a |= *b; }
void w_sv_andeq(SV* a, SV* b) { *a &= *b; }
bool w_sv_eq(SV* a, SV* b) { return *a == *b; }
}
