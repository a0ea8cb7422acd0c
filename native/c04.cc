// opt: lib=all time=300
#include "nv.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/Trail.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/systems/propagate/Propagate.h"
#include "candy/systems/propagate/StaticPropagate.h"
#include "candy/systems/learning/ConflictAnalysis.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::Cnf; using nv::nfail;
typedef nv::Cl C;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
template <class T> static C lits(const T& c) { C r; for (Lit l : c) r.push_back(ext(l)); return r; }
static uint64_t nconf = 0, nfinal = 0, nunit = 0, nshort = 0;

template <class P> static void run(const char* name) {
    unsigned N = scale(9000);
    for (unsigned i = 0; i < N && nfail < 4; i++) {
        int n; Cnf f;
        if (coin(1, 10)) { n = 150 + rnd(100); f = nv::randcnf(n, (int)(n * 0.1), 2, 2); Cnf g = nv::randcnf(n, (int)(n * 2.6), 3, 4); f.insert(f.end(), g.begin(), g.end()); }   // many levels
        else { n = 5 + rnd(25); f = nv::randcnf(n, (int)(n * (2 + rnd(25) / 10.0)), 2 + coin(), 4); }
        bool big = n > 40;
        ClauseDatabaseOptions::opt_recalculate_lbd = coin(2, 3);
        std::string log = std::string(name) + " " + show(f) + " :";
        ClauseDatabase db; Trail tr; P pr(db, tr); ConflictAnalysis an(db, tr);
        { CNFProblem p; for (auto& c : f) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); p.readClause(l); } while ((int)p.nVars() < n) p.newVar(); db.init(p); }
        tr.init(n); pr.init(); an.init(n);
        nv::begin(log, f.size() > 3);
        int steps = big ? 260 : 60, confl = 0;
        for (int s = 0; s < steps && nfail < 4 && confl < 12; s++) {
            Clause* c = (Clause*)pr.propagate();
            if (c) {
                if (tr.decisionLevel() == 0) break;
                nconf++; confl++;
                an.handle_conflict(c);
                auto& R = db.result; C L = lits(R.learnt_clause); unsigned D = tr.decisionLevel(); if (D > 64) nshort++;
                nv::current = log + " conflict " + show(lits(*c)) + " learnt " + show(L);
                if (L.empty()) { fail("empty learned clause above level 0"); break; }
                std::set<int> vs; for (int l : L) vs.insert(std::abs(l)); check(vs.size() == L.size(), "a variable occurs twice in the learned clause");
                for (Lit l : R.learnt_clause) if (tr.value(l) != l_False) { fail("the learned clause is not falsified"); break; }
                int cur = 0; std::set<unsigned> levs; unsigned best = 0; for (size_t k = 0; k < R.learnt_clause.size(); k++) { unsigned v = tr.level(R.learnt_clause[k].var()); levs.insert(v); cur += v == D; if (k > 0) best = std::max(best, v); check(v > 0, "a level-0 literal in the learned clause"); }
                check(cur == 1 && tr.level(R.learnt_clause[0].var()) == D, "the learned clause does not have exactly one literal of the current level, in first place");
                check(R.backtrack_level == (L.size() > 1 ? best : 0), "level to return to is " + std::to_string(R.backtrack_level) + " instead of " + std::to_string(best));
                if (L.size() > 1) check(tr.level(R.learnt_clause[1].var()) == best, "second literal is not of the level to return to"); else nunit++;
                check(R.lbd == levs.size(), "recorded quality " + std::to_string(R.lbd) + " instead of " + std::to_string(levs.size()));
                { C neg; for (int l : L) neg.push_back(-l); nv::Dpll d(f, n); d.budget = big ? 300 : 20000; int r = d.solve(neg); if (r == 1) fail("the learned clause does not follow from the problem"); }
                for (Clause* x : R.involved_clauses) if (x->isDeleted()) fail("a deleted clause is involved");
                std::vector<Lit> ls(R.learnt_clause.begin(), R.learnt_clause.end()); unsigned bt = R.backtrack_level, lbd = R.lbd;
                tr.backtrack(bt);
                if (ls.size() == 1) { if (!tr.fact(ls[0])) break; Clause* q = db.createClause(ls.begin(), ls.end(), lbd); (void)q; }
                else { Clause* q = db.createClause(ls.begin(), ls.end(), lbd); if (q->size() > 2) pr.attachClause(q); tr.propagate(ls[0], q); }
            } else {
                if (coin(1, big ? 60 : 8) && tr.decisionLevel() > 0) { // why is some implied literal true?
                    Lit p = tr.trail[tr.trail_lim[0] + rnd(tr.size() - tr.trail_lim[0])]; C A = lits(an.analyzeFinal(p)); nfinal++;
                    nv::current = log + " final analysis of " + std::to_string(ext(p)) + " gives " + show(A);
                    bool has = false; for (int l : A) { has = has || l == ext(p); if (l != ext(p)) { Lit q = mk(-l); if (tr.value(q) != l_True || tr.reason(q.var()) != nullptr || tr.level(q.var()) == 0) { fail("a literal of the final analysis is not the negation of a decision"); break; } } }
                    check(has, "the final analysis lacks the literal itself");
                    bool dec = tr.reason(p.var()) == nullptr;
                    if (!dec) { C neg; for (int l : A) neg.push_back(-l); nv::Dpll d(f, n); d.budget = big ? 300 : 20000; if (d.solve(neg) == 1) fail("the final analysis does not explain the literal"); } }
                std::vector<int> un; for (int v = 1; v <= n; v++) if (tr.value(v - 1) == l_Undef) un.push_back(v);
                if (un.empty()) { if (tr.decisionLevel() == 0) break; tr.backtrack(rnd(tr.decisionLevel())); continue; }
                int l = un[rnd(un.size())]; if (coin()) l = -l;
                if (coin(1, 15)) tr.newDecisionLevel(); // a level without a decision, as for an assumption that already holds
                tr.newDecisionLevel(); tr.decide(mk(l)); log += " " + std::to_string(l);
            }
        }
    }
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "random clause sets driven through decisions and propagation; each conflict analysed, every part of the result checked (implied by an independent DPLL, asserting, levels), the learned clause added and the search continued; distinct by clause set");
    run<Propagate>("two-watched"); run<StaticPropagate>("static");
    part("conflicts", nconf); part("learned unit clauses", nunit); part("final analyses", nfinal); part("conflicts above level 64", nshort);
    return nv::finish();
}
