// opt: lib=all time=300
#include "nv.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/Trail.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/systems/propagate/Propagate.h"
#include "candy/systems/learning/ConflictAnalysis.h"
#include "candy/systems/ReduceDB.h"
#include "candy/systems/branching/VSIDS.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/VSIDSC.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::Cnf; using nv::nfail;
typedef nv::Cl C;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static uint64_t npick = 0, nnone = 0, nconf = 0;
template <class B> static void inject(B&, int) { }
template <class B> static void advise(B& b, int n) { 
    auto c = std::unique_ptr<Conjectures>(new Conjectures()); std::vector<int> vs; for (int v = 0; v < n; v++) vs.push_back(v); for (size_t k = vs.size() - 1; k > 0; k--) std::swap(vs[k], vs[rnd(k + 1)]);
    size_t p = 0; while (p + 3 < vs.size() && coin(3, 4)) { if (coin(1, 3)) c->addBackbone(BackboneConjecture(Lit(vs[p++], coin()))); else { EquivalenceConjecture e; for (int k = 2 + rnd(2); k > 0 && p < vs.size(); k--) e.addLit(Lit(vs[p++], coin())); c->addEquivalence(e); } }
    b.m_advice = decltype(b.m_advice)(); b.init(std::move(c), coin()); }

template <class B> static void run(const char* name, unsigned N, void (*inj)(B&, int)) {
    for (unsigned i = 0; i < N && nfail < 4; i++) {
        int n = 3 + rnd(20); Cnf f = nv::randcnf(n, (int)(n * (1 + rnd(35) / 10.0)), 2, 4);
        SolverOptions::opt_sort_variables = coin(); SolverOptions::opt_vsids_extra_bump = coin(1, 3); ClauseDatabaseOptions::opt_persistent_lbd = rnd(3);
        std::string log = std::string(name) + " " + show(f) + " :"; nv::begin(log);
        CNFProblem p; for (auto& c : f) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); p.readClause(l); } while ((int)p.nVars() < n) p.newVar();
        ClauseDatabase db; Trail tr; Propagate pr(db, tr); ConflictAnalysis an(db, tr); ReduceDB rd(db, tr);
        db.init(p); tr.init(n); pr.init(); an.init(n);
        B b(db, tr); b.init(p); if (inj) inj(b, n);
        int steps = 60 + rnd(60);
        std::vector<char> dec(n, 1);
        for (int s = 0; s < steps && nfail < 4; s++) {
            nv::current = log;
            Clause* c = pr.propagate();
            if (c) {
                if (tr.decisionLevel() == 0) break; nconf++;
                an.handle_conflict(c); b.process_conflict(); auto& R = db.result;
                Clause* q = db.createClause(R.learnt_clause.begin(), R.learnt_clause.end(), R.lbd); if (q->size() > 2) pr.attachClause(q);
                tr.backtrack(R.backtrack_level); tr.propagate(q->first(), q); log += " C"; continue; }
            if (coin(1, 12)) { // restart, sometimes with elimination marks, new variables or reduction
                tr.backtrack(0); log += " R";
                if (coin(1, 3)) { int v = rnd(n); bool d = coin(); tr.setDecisionVar(v, d); dec[v] = d; log += d ? "+" : "-"; log += std::to_string(v + 1); }
                if (coin(1, 4)) { rd.reduce(); db.reorganize(); b.process_reduce(); pr.reset(); tr.qhead = 0; log += " reduce"; }
                if (coin(1, 6)) { int m = n + 1 + rnd(3); CNFProblem p2; std::vector<Lit> l{Lit(m - 1, coin()), Lit(rnd(n), coin()), Lit(n, coin())}; if (m - 1 == n) l.pop_back(); p2.readClause(l.begin(), l.end()); while ((int)p2.nVars() < m) p2.newVar();
                    tr.reset(); db.init(p2); tr.init(m); an.init(m); pr.reset(); b.init(p2); n = m; dec.resize(n, 1); for (int v = 0; v < n; v++) if (tr.isDecisionVar(v) != (bool)dec[v]) dec[v] = tr.isDecisionVar(v); log += " grow" + std::to_string(n); }
                tr.reset(); b.reset(); continue; }
            std::set<int> open; for (int v = 0; v < n; v++) if (tr.value(v) == l_Undef && tr.isDecisionVar(v)) open.insert(v);
            Lit l = b.pickBranchLit();
            if (l == lit_Undef) { nnone++; if (!open.empty()) fail("no decision although variable " + std::to_string(*open.begin() + 1) + " is open"); tr.backtrack(0); tr.reset(); b.reset(); log += " done"; continue; }
            npick++;
            if (l.var() < 0 || l.var() >= n) { fail("decision on a variable that does not exist"); break; }
            if (!open.count(l.var())) { fail("decision on variable " + std::to_string(l.var() + 1) + ", which is " + (tr.value(l.var()) != l_Undef ? "assigned" : "not a decision variable")); break; }
            tr.newDecisionLevel(); tr.decide(l); log += " " + std::to_string(ext(l));
        }
    }
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "each branching strategy in a conflict-driven loop over random clause sets with restarts, reductions, changes of the decision marks and new variables; every decision checked; distinct by clause set");
    RandomSimulationOptions::opt_rs_nrounds = 2048;
    run<VSIDS>("vsids", scale(4000), nullptr); run<LRB>("lrb", scale(4000), nullptr); run<VSIDSC>("vsidsc", scale(6), nullptr);
    run<RSILBranchingHeuristic<AdviceEntry<3>>>("rsil", scale(120), advise<RSILBranchingHeuristic<AdviceEntry<3>>>);
    run<RSILBudgetBranchingHeuristic<3>>("rsil-budget", scale(120), advise<RSILBudgetBranchingHeuristic<3>>);
    run<RSILVanishingBranchingHeuristic<AdviceEntry<3>>>("rsil-vanishing", scale(120), advise<RSILVanishingBranchingHeuristic<AdviceEntry<3>>>);
    part("decisions", npick); part("no decision", nnone); part("conflicts", nconf);
    return nv::finish();
}
