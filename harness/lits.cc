#include "common.h"
#include "candy/core/SolverTypes.h"
using namespace Candy;
static inline Lit L(int x) { Lit l; l.x = x; return l; }
static inline unsigned enc(lbool a) { return (unsigned)(a == l_True) + 2 * (a == l_False) + 4 * (a == l_Undef); }
extern "C" {
int w_lit_make(int v, bool s) { return Lit(Var(v), s).x; }
int w_lit_make1(int v) { return Lit(Var(v)).x; }
int w_lit_var(int x) { return L(x).var().id; }
bool w_lit_sign(int x) { return L(x).sign(); }
int w_lit_neg(int x) { return (~L(x)).x; }
int w_lit_xor(int x, bool b) { return (L(x) ^ b).x; }
unsigned w_lit_cmp(int x, int y) { return (unsigned)(L(x) == L(y)) + 2 * (L(x) != L(y)) + 4 * (L(x) < L(y)); }
int w_lit_int(int x) { return (int)L(x); }
int w_lit_undef() { return lit_Undef.x; }
int w_lit_error() { return lit_Error.x; }
unsigned w_lb_bool(bool b) { return enc(lbool(b)); }
unsigned w_lb_eq(unsigned char a, unsigned char b) { return (unsigned)(lbool(a) == lbool(b)) + 2 * (lbool(a) != lbool(b)); }
unsigned w_lb_xor(unsigned char a, bool b) { return enc(lbool(a) ^ b); }
unsigned w_lb_and(unsigned char a, unsigned char b) { return enc(lbool(a) && lbool(b)); }
unsigned w_lb_or(unsigned char a, unsigned char b) { return enc(lbool(a) || lbool(b)); }
unsigned w_lb_enc(unsigned char a) { return enc(lbool(a)); }
}
