#include "common.h"
#include "candy/minimizer/Minimizer.h"
using namespace Candy;
static inline Lit L(int x) { Lit l; l.x = x; return l; }
extern "C" {
void w_min_half(Minimizer* m, CNFProblem* p, int a, int b, int s, int c) { m->genHalfAdder(*p, L(a), L(b), L(s), L(c)); }
void w_min_full(Minimizer* m, CNFProblem* p, int a, int b, int d, int s, int c) { m->genFullAdder(*p, L(a), L(b), L(d), L(s), L(c)); }
}
