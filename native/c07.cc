// opt: lib=all time=300
#include "nv.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/Trail.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/simplification/SubsumptionClauseDatabase.h"
#include "candy/simplification/VariableElimination.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::Cnf; using nv::nfail;
typedef nv::Cl C;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
template <class T> static C lits(const T& c) { C r; for (Lit l : c) r.push_back(ext(l)); return r; }

static void merges() {
    unsigned N = scale(40000);
    ClauseDatabase db; Trail tr; SubsumptionClauseDatabase sdb(db); VariableElimination ve(sdb, tr);
    db.variables = 40; db.binaryWatchers.resize(90);
    for (unsigned i = 0; i < N; i++) {
        int n = coin() ? 2 + rnd(5) : 5 + rnd(30); int v = 1 + rnd(n);
        auto side = [&](int l) { C c{l}; for (int k = rnd(5); k > 0; k--) { int w = 1 + rnd(n); bool d = false; for (int x : c) d = d || std::abs(x) == w; if (!d) c.push_back(coin() ? w : -w); }
            for (size_t k = c.size() - 1; k > 0; k--) std::swap(c[k], c[rnd(k + 1)]); return c; };
        C a = side(v), b = side(-v);
        if (coin(1, 4)) { b = a; for (int& x : b) if (x == v) x = -v; if (coin(1, 3)) { int k = rnd(b.size()); if (std::abs(b[k]) != v) b[k] = -b[k]; } if (coin()) std::rotate(b.begin(), b.begin() + rnd(b.size()), b.end()); }
        nv::begin("resolve on " + std::to_string(v) + ": " + show(a) + " " + show(b));
        std::vector<Lit> la, lb; for (int x : a) la.push_back(mk(x)); for (int x : b) lb.push_back(mk(x));
        Clause* ca = db.createClause(la.begin(), la.end()); Clause* cb = db.createClause(lb.begin(), lb.end());
        std::set<int> want; bool taut = false;
        for (int x : a) if (x != v) want.insert(x); for (int x : b) if (x != -v) want.insert(x);
        for (int x : want) taut = taut || want.count(-x);
        std::vector<Lit> out(3, mk(1)); size_t size = 77;
        bool r1 = ve.merge(*ca, *cb, v - 1, out), r2 = ve.merge(*ca, *cb, v - 1, size);
        check(r1 == !taut, "tautology test of the resolvent"); check(r2 == !taut, "tautology test of the size computation");
        if (!taut) { std::set<int> got; for (Lit l : out) got.insert(ext(l)); check(got == want && out.size() == want.size(), "resolvent " + show(lits(out))); check(size == want.size(), "resolvent size " + std::to_string(size)); }
        if (i % 500 == 0) { db.clear(); db.variables = 40; db.binaryWatchers.resize(90); }
    }
}
static bool satby(const Cnf& f, unsigned m) { for (auto& c : f) { bool s = false; for (int l : c) s = s || (((m >> (std::abs(l) - 1)) & 1) == (l > 0)); if (!s) return false; } return true; }
// set of assignments to the variables outside E that extend to a model
static std::vector<char> proj(const Cnf& f, int n, unsigned E) { std::vector<char> r(1u << n, 0); for (unsigned m = 0; m < (1u << n); m++) if (satby(f, m)) r[m & ~E] = 1; return r; }

static void eliminations() {
    unsigned N = scale(9000); uint64_t elim = 0, undone = 0, models = 0;
    for (unsigned i = 0; i < N; i++) {
        int n = 3 + rnd(5);
        VariableEliminationOptions::opt_use_elim = true; VariableEliminationOptions::opt_clause_lim = coin(2, 3) ? 20 : rnd(4);
        Cnf P = nv::randcnf(n, 2 + rnd(2 * n + 2), coin(1, 5) ? 1 : 2, 3);
        Cnf L; for (int k = rnd(4); k > 0; k--) { C c = nv::randclause(n, 3 + rnd(2)); if (nv::implied(P, n, c)) L.push_back(c); }
        C assum; for (int k = rnd(3); k > 0; k--) { int v = 1 + rnd(n); assum.push_back(coin() ? v : -v); }
        nv::begin("clauses " + show(P) + " learnt " + show(L) + " assumptions " + show(assum), P.size() > 2);
        ClauseDatabase db; db.variables = n; db.binaryWatchers.resize(2 * n + 2); Trail tr; tr.init(n);
        for (auto& c : P) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); db.createClause(l.begin(), l.end(), 0, true); }
        for (auto& c : L) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); db.createClause(l.begin(), l.end(), 1 + rnd(3)); }
        std::vector<Lit> as; for (int x : assum) as.push_back(mk(x)); tr.setAssumptions(as);
        SubsumptionClauseDatabase sdb(db); VariableElimination ve(sdb, tr);
        ve.reset(); 
        bool ok = true; std::vector<C> restored;
        for (int round = 1 + rnd(2); round > 0 && ok; round--) { sdb.init(); ok = ve.eliminate(); sdb.finalize(); }
        if (!ok) { check(nv::sat(P, n) == 0, "elimination reports unsatisfiable for a satisfiable formula"); continue; }
        auto state = [&](const char* when) {
            unsigned E = 0; std::string es; for (Var v = 0; v < n; v++) if (ve.is_eliminated(v)) { E |= 1u << v; es += " " + std::to_string(v + 1); }
            Cnf live, pers; for (Clause* c : db) if (!c->isDeleted()) { live.push_back(lits(*c)); if (c->isPersistent()) pers.push_back(lits(*c)); }
            for (auto& c : restored) { live.push_back(c); pers.push_back(c); }
            for (auto& c : live) for (int l : c) if (E >> (std::abs(l) - 1) & 1) { fail(std::string(when) + ": eliminated variable " + std::to_string(std::abs(l)) + " still occurs in " + show(c)); return E; }
            for (Var v = 0; v < n; v++) check((bool)tr.isDecisionVar(v) == !(E >> v & 1), std::string(when) + ": decision mark of variable " + std::to_string(v + 1));
            auto a = proj(P, n, E), b = proj(live, n, E), c = proj(pers, n, E);
            if (a != b) fail(std::string(when) + ": with" + es + " eliminated, the clauses " + show(live) + " are not the projection of the formula");
            else if (a != c) fail(std::string(when) + ": with" + es + " eliminated, the permanent clauses " + show(pers) + " are not the projection of the formula");
            // every model of the remaining clauses extends to a model of the formula
            for (unsigned m = 0; m < (1u << n) && nfail < 3; m++) if (!(m & E) && satby(live, m) && coin(1, 1 + n)) { models++;
                Trail save; std::swap(save.assumptions, tr.assumptions); std::vector<Lit> as2; 
                tr.newDecisionLevel(); for (Var v = 0; v < n; v++) if (!(E >> v & 1)) tr.decide(Lit(v, !(m >> v & 1)));
                ve.propagate_eliminated_variables();
                unsigned full = 0; for (Var v = 0; v < n; v++) { if (tr.value(v) == l_Undef) { fail(std::string(when) + ": variable " + std::to_string(v + 1) + " has no value after model extension"); break; } if (tr.value(v) == l_True) full |= 1u << v; }
                if ((full & ~E) != m) fail(std::string(when) + ": model extension changed a value");
                else if (!satby(P, full)) fail(std::string(when) + ": the extended model " + std::to_string(full) + " violates the formula; eliminated" + es);
                tr.backtrack(0); std::swap(save.assumptions, tr.assumptions); }
            return E; };
        unsigned E = state("after elimination");
        for (int x : assum) check(!(E >> (std::abs(x) - 1) & 1), "assumption variable " + std::to_string(std::abs(x)) + " was eliminated");
        elim += E != 0;
        // give some variables back
        for (int k = rnd(3); k > 0 && nfail < 3; k--) {
            std::vector<Lit> back; for (Var v = 0; v < n; v++) if (coin(1, 3)) back.push_back(Lit(v, coin()));
            tr.setAssumptions(back);
            auto cor = ve.reset(); 
            for (auto& c : cor) restored.push_back(lits(c));
            undone += cor.size() > 0;
            unsigned E2 = state("after restoring");
            for (Lit l : back) check(!(E2 >> l.var() & 1), "assumed variable " + std::to_string(l.var() + 1) + " is still eliminated");
        }
        if (nfail > 3) break;
    }
    part("eliminations", elim); part("restorations", undone); part("extended models", models);
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "pairs of clauses resolved on a variable; random clause databases with permanent and learnt clauses, elimination with frozen assumptions, restoration by new assumptions and extension of sampled models; distinct by text");
    merges(); eliminations();
    return nv::finish();
}
