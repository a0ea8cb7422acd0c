#pragma once
// end-to-end runs of the solver on small formulas against an independent DPLL oracle
#include "nv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/Trail.h"
#include "candy/frontend/CandyBuilder.h"
#include "candy/frontend/CLIOptions.h"

namespace nv {
using namespace Candy;
static inline Lit mk(int l) { return Lit(std::abs(l) - 1, l < 0); }
static inline int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }

struct Cfg { bool sp, lrb, vc, rsil; int mode, adv; bool pre, elim; int inproc, firstred, incred; bool median, recalc; int persist, clim; bool extra;
    std::string str() const { char b[240]; snprintf(b, 240, "[%s%s%s pre=%d elim=%d inproc=%d reduce=%d+%d median=%d recalc=%d persist=%d cl-lim=%d extra=%d]", sp ? "static+" : "", lrb ? "lrb" : vc ? "vsidsc" : rsil ? "rsil" : "vsids",
        rsil ? (std::to_string(mode) + "/" + std::to_string(adv)).c_str() : "", pre, elim, inproc, firstred, incred, median, recalc, persist, clim, extra); return b; } };
static Cfg randcfg(bool plain_only = false) {
    Cfg c; unsigned k = rnd(8); if (!plain_only) k = rnd(8) ? 9 : 8;
    c.sp = coin(1, 3); c.lrb = k >= 5 && k < 8; c.vc = k == 8; c.rsil = k == 9; c.mode = rnd(3); c.adv = 2 + rnd(2);
    c.pre = coin(2, 3); c.elim = coin(3, 4); c.inproc = coin() ? 0 : 1 + rnd(2); c.firstred = coin(1, 3) ? 3000 : 2 + rnd(12); c.incred = coin() ? 1300 : rnd(6);
    c.median = coin(1, 3); c.recalc = coin(2, 3); c.persist = coin() ? 3 : rnd(5); c.clim = coin(2, 3) ? 20 : rnd(4); c.extra = coin(1, 3);
    return c;
}
static CandySolverInterface* make(const Cfg& c) {
    SolverOptions::opt_preprocessing = c.pre; SolverOptions::opt_inprocessing = c.inproc; VariableEliminationOptions::opt_use_elim = c.elim; VariableEliminationOptions::opt_clause_lim = c.clim;
    ClauseDatabaseOptions::opt_first_reduce_db = c.firstred; ClauseDatabaseOptions::opt_inc_reduce_db = c.incred; ClauseDatabaseOptions::opt_keep_median_lbd = c.median;
    ClauseDatabaseOptions::opt_recalculate_lbd = c.recalc; ClauseDatabaseOptions::opt_persistent_lbd = c.persist; SolverOptions::opt_vsids_extra_bump = c.extra;
    SolverOptions::opt_size_lbd_queue = 10; RandomSimulationOptions::opt_rs_nrounds = 2048;
    const char* m[] = {"unrestricted", "vanishing", "implicationbudgeted"};
    RSILOptions::opt_rsil_mode = m[c.mode];
    return createSolver(c.sp, c.lrb, c.vc, c.rsil, c.adv);
}

// a formula with interesting structure
static Cnf genformula(int& n) {
    unsigned k = rnd(12);
    if (k < 6) { n = 3 + rnd(10); int m = (int)(n * (1.0 + rnd(40) / 10.0)); return randcnf(n, m, 1 + (k > 0), 2 + rnd(3)); }
    if (k < 8) { n = 12 + rnd(25); int m = (int)(n * (3.6 + rnd(12) / 10.0)); return randcnf(n, m, 3, 3); }
    if (k == 8) { // parity chains with tseitin gates
        n = 6 + rnd(8); Cnf f; int top = n;
        std::vector<int> w; for (int i = 1; i <= n; i++) w.push_back(coin() ? i : -i);
        int g = n; 
        while (w.size() > 1 && g < 40) { int a = w[rnd(w.size())], b = w[rnd(w.size())]; ++g; unsigned t = rnd(3);
            if (t == 0) { f.push_back({-g, a, b}); f.push_back({-g, -a, -b}); f.push_back({g, -a, b}); f.push_back({g, a, -b}); }
            else if (t == 1) { f.push_back({-g, a}); f.push_back({-g, b}); f.push_back({g, -a, -b}); }
            else { f.push_back({-g, a, b}); f.push_back({g, -a}); f.push_back({g, -b}); }
            w.push_back(coin() ? g : -g); if (coin(1, 3)) w.erase(w.begin() + rnd(w.size())); if (coin(1, 12)) break; }
        for (auto& c : f) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); }
        f.push_back({coin() ? g : -g}); if (coin()) f.push_back({coin() ? g - 1 : 1 - g}); n = std::max(top, g); return f; }
    if (k == 9) { // pigeonhole
        int h = 2 + rnd(3), p = h + rnd(2); n = h * p; Cnf f; for (int i = 0; i < p; i++) { Cl c; for (int j = 0; j < h; j++) c.push_back(i * h + j + 1); f.push_back(c); }
        for (int j = 0; j < h; j++) for (int a = 0; a < p; a++) for (int b = 0; b < a; b++) f.push_back({-(a * h + j + 1), -(b * h + j + 1)}); return f; }
    if (k == 10) { // mixed widths, some wide
        n = 8 + rnd(14); Cnf f = randcnf(n, n * 3, 2, 3); for (int i = rnd(8); i > 0; i--) f.push_back(randclause(n, 4 + rnd(n - 4))); for (int i = rnd(n); i > 0; i--) f.push_back(randclause(n, 2)); return f; }
    // duplicated / repeated / tautological literals, unit and empty clauses
    n = 1 + rnd(6); Cnf f = randcnf(n, rnd(10), 1, 4, false); if (coin(1, 15)) f.push_back({}); return f;
}
struct Run { int res; std::vector<int> model; Cl conflict; };
static Run call(CandySolverInterface* s, const Cnf& add, const Cl& assum) {
    CNFProblem p;
    for (auto& c : add) { std::vector<Lit> ls; for (int l : c) ls.push_back(mk(l)); p.readClause(ls); }
    s->init(p);
    std::vector<Lit> as; for (int l : assum) as.push_back(mk(l));
    s->getAssignment().setAssumptions(as);
    lbool r = s->solve();
    Run o; o.res = r == l_True ? 1 : r == l_False ? 0 : -1;
    auto& R = s->getCandySolverResult();
    if (o.res == 1) for (Lit l : R.getModelLiterals()) o.model.push_back(ext(l));
    for (Lit l : R.getConflict()) o.conflict.push_back(ext(l));
    return o;
}
// checks: model side (sat = true) and/or refutation side
static void verify(const Run& o, const Cnf& all, int n, const Cl& assum, bool satside, bool unsatside) {
    int truth = sat(all, n, assum);
    if (o.res == -1) { fail("no answer without interruption"); return; }
    if (o.res == 1 && satside) {
        std::map<int, int> v; for (int l : o.model) { if (v.count(std::abs(l)) && v[std::abs(l)] != l) fail("two values for a variable"); v[std::abs(l)] = l; }
        for (int x = 1; x <= n; x++) if (!v.count(x)) { fail("variable " + std::to_string(x) + " of the problem has no value in the model"); return; }
        for (auto& c : all) { bool s = false; for (int l : c) s = s || v[std::abs(l)] == l; if (!s) { fail("the model does not satisfy the clause " + show(c) + " model " + show(o.model)); return; } }
        for (int a : assum) if (v[std::abs(a)] != a) { fail("the model does not satisfy the assumption " + std::to_string(a)); return; }
    }
    if (o.res == 0 && unsatside) {
        if (truth == 1) { fail("answered unsatisfiable, but there is a model"); return; }
        Cl failed; for (int l : o.conflict) failed.push_back(-l);
        for (int l : o.conflict) { bool in = false; for (int a : assum) in = in || std::abs(a) == std::abs(l); if (!in) { fail("failed literal " + std::to_string(l) + " is not an assumption of the call"); return; } }
        // the conflict is expressed in assumptions: the assumptions over these variables must be contradictory with the clauses
        Cl sub; for (int a : assum) for (int l : o.conflict) if (std::abs(a) == std::abs(l)) { sub.push_back(a); break; }
        if (sat(all, n, sub) == 1) { fail("the failed assumptions " + show(sub) + " are not contradictory with the clauses"); return; }
    }
    if (o.res == 1 && truth == 0 && unsatside && !satside) fail("answered satisfiable, but there is no model");
}
static void session(bool satside, bool unsatside, bool plain_only, unsigned it) {
    Cfg c = randcfg(plain_only);
    int n = 0; Cnf f = genformula(n); n = nvars(f);
    unsigned rounds = coin() ? 1 : 1 + rnd(4);
    std::vector<Cnf> adds(rounds); 
    std::vector<Cl> as(rounds);
    // split the formula over the calls
    for (auto& cl : f) adds[coin(2, 3) ? 0 : rnd(rounds)].push_back(cl);
    for (unsigned r = 1; r < rounds; r++) if (coin()) for (int i = rnd(4); i > 0; i--) adds[r].push_back(randclause(n + (int)rnd(3), 1 + rnd(3)));
    std::string log = c.str();
    int known = 0;
    for (unsigned r = 0; r < rounds; r++) { known = std::max(known, nvars(adds[r])); 
        if (known > 0 && coin(2, 3)) for (int i = rnd(5); i > 0; i--) as[r].push_back(coin() ? 1 + rnd(known) : -(1 + (int)rnd(known)));
        log += " add" + show(adds[r]) + " assume" + show(as[r]) + " solve;"; }
    begin(log, f.size() > 2);
    std::unique_ptr<CandySolverInterface> s(make(c));
    Cnf all; int nn = 0;
    for (unsigned r = 0; r < rounds; r++) {
        current = log + " -- call " + std::to_string(r + 1);
        for (auto& cl : adds[r]) all.push_back(cl);
        nn = std::max(nn, nvars(adds[r]));
        int before = nfail;
        Run o = call(s.get(), adds[r], as[r]);
        verify(o, all, nn, as[r], satside, unsatside);
        if (nfail != before) break;
    }
}
}
