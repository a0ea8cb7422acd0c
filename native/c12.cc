// opt: lib=none
#include "nv.h"
#include "candy/core/SolverTypes.h"
using namespace Candy; using namespace nv;
int main(int argc, char** argv) {
    init(argc, argv, "literals of boundary and random variables 0..2^30-1 with both signs, pairs of them, and all encodings of truth values; every case is non-trivial");
    std::vector<int> vs{0, 1, 2, 3, 63, 64, 65, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 24), (1 << 29), (1 << 30) - 2, (1 << 30) - 1};
    for (unsigned i = 0; i < scale(20000); i++) vs.push_back(rnd(1u << (1 + rnd(30))));
    std::vector<Lit> prev;
    for (int v : vs) for (int s = 0; s < 2; s++) {
        begin("variable " + std::to_string(v) + " sign " + std::to_string(s));
        Lit l(Var(v), s);
        check(l.var() == Var(v) && l.var().id == v, "variable of a literal"); check(l.sign() == (bool)s, "sign of a literal");
        check(~~l == l && (~l).var().id == v && (~l).sign() == !s && (~l) != l && !((~l) == l), "negation");
        check((l ^ false) == l && (l ^ true) == ~l, "exclusive or");
        if (!s) check(Lit(Var(v)) == l, "positive literal");
        check(l != lit_Undef && l != lit_Error && !(l == lit_Undef) && !(l == lit_Error) && lit_Undef != lit_Error, "sentinels");
        Lit p(Var(v), false), n(Var(v), true); check(p < n && !(n < p) && !(p < p), "a literal and its negation are adjacent");
        check((int)l == 2 * v + s, "index");
        for (Lit q : prev) { bool same = q.x == l.x; check((q == l) == same && (q != l) == !same, "equality"); bool lt = q.var().id < v || (q.var().id == v && !q.sign() && s); check((q < l) == lt, "order");
            if (q.var().id != v) check((q < l) == (~q < l) && (q < l) == (q < ~l), "order separates variables"); }
        prev.push_back(l); if (prev.size() > 6) prev.erase(prev.begin() + rnd(6));
    }
    auto tv = [](unsigned a) { return a == 0 ? 1 : a == 1 ? 0 : 2; };   // 1 true 0 false 2 undef
    auto is = [](lbool x, int t) { return (x == l_True) == (t == 1) && (x == l_False) == (t == 0) && (x == l_Undef) == (t == 2) && (x != l_True) == (t != 1) && (x != l_False) == (t != 0) && (x != l_Undef) == (t != 2); };
    for (unsigned a = 0; a < 4; a++) for (unsigned b = 0; b < 4; b++) {
        begin("truth values encoded " + std::to_string(a) + "," + std::to_string(b));
        lbool x((uint8_t)a), y((uint8_t)b); int p = tv(a), q = tv(b);
        check(is(x, p), "encoding"); check((x == y) == (p == q) && (x != y) == (p != q), "equality of truth values");
        check(is(x && y, p == 0 || q == 0 ? 0 : p == 1 && q == 1 ? 1 : 2), "conjunction"); check(is(x || y, p == 1 || q == 1 ? 1 : p == 0 && q == 0 ? 0 : 2), "disjunction");
        for (int s = 0; s < 2; s++) { check(is(x ^ (bool)s, p == 2 ? 2 : p ^ s), "exclusive or with a sign"); check(is((x ^ (bool)s) ^ (bool)s, p), "exclusive or twice"); }
    }
    check(is(lbool(true), 1) && is(lbool(false), 0), "from bool");
    return finish();
}
