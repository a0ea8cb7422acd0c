// opt: lib=all time=300
#include "nv.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/Trail.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/systems/propagate/Propagate.h"
#include "candy/systems/propagate/StaticPropagate.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::Cnf; using nv::nfail;
typedef nv::Cl C;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static C lits(const Clause& c) { C r; for (Lit l : c) r.push_back(ext(l)); return r; }
static uint64_t nconf = 0, nimp = 0, nprop = 0;

template <class P> static void run(const char* name) {
    unsigned N = scale(9000);
    for (unsigned i = 0; i < N && nfail < 4; i++) {
        int n = 3 + rnd(coin(1, 4) ? 30 : 9); Cnf f = nv::randcnf(n, 2 + rnd(3 * n), 2, std::min(n, 2 + (int)rnd(5)));
        std::string log = std::string(name) + " " + show(f) + " :";
        ClauseDatabase db; Trail tr; P pr(db, tr);
        { CNFProblem p; for (auto& c : f) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); p.readClause(l); } while ((int)p.nVars() < n) p.newVar(); db.init(p); }
        tr.init(n); pr.init();
        nv::begin(log, f.size() > 3);
        std::vector<Clause*> detached;
        bool conflict = false; int steps = 3 + rnd(14);
        for (int s = 0; s < steps && nfail < 4; s++) {
            unsigned k = rnd(10);
            if (conflict && k < 8) k = 8;
            if (k < 6) { // decide
                std::vector<int> un; for (int v = 1; v <= n; v++) if (tr.value(v - 1) == l_Undef) un.push_back(v);
                if (un.empty()) k = 8; else { int l = un[rnd(un.size())]; if (coin()) l = -l; tr.newDecisionLevel(); tr.decide(mk(l)); log += " decide " + std::to_string(l); } }
            else if (k == 6 && tr.decisionLevel() == 0) { int l = 1 + rnd(n); if (coin()) l = -l; if (!tr.fact(mk(l))) continue; log += " fact " + std::to_string(l); }
            else if (k == 7) { // new clause, or a clause is taken out, at level 0
                tr.backtrack(0); conflict = false;
                if (coin() && db.size() > 2) { Clause* c = db.clauses[rnd(db.size())]; if (!c->isDeleted()) { log += " remove " + show(lits(*c)); if (c->size() > 2) pr.detachClause(c); db.removeClause(c); } }
                else { C c = nv::randclause(n, 2 + rnd(std::min(n, 4) - 1)); log += " add " + show(c); std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); Clause* cl = db.createClause(l.begin(), l.end(), rnd(3)); if (cl->size() > 2) pr.attachClause(cl); }
                tr.qhead = 0; }
            else { k = 8; if (tr.decisionLevel() == 0) { if (conflict) break; continue; } unsigned lev = rnd(tr.decisionLevel()); tr.backtrack(lev); log += " back " + std::to_string(lev); conflict = false;
                if (coin(1, 10)) { std::vector<Clause*> keep; for (Clause* c : db.clauses) if (!c->isDeleted()) keep.push_back(c); db.clauses = keep; tr.backtrack(0); pr.reset(); tr.qhead = 0; log += " reset"; } }
            nv::current = log;
            std::map<int, int> before; for (Lit l : tr) before[l.var() + 1] = ext(l);
            unsigned nb = tr.size();
            const Clause* c = pr.propagate(); nprop++;
            // independent closure
            std::map<int, int> m = before; bool ch = true, conf = false;
            while (ch && !conf) { ch = false; for (Clause* cl : db) if (!cl->isDeleted()) { int un = 0, u = 0; bool sat = false; for (int l : lits(*cl)) { auto it = m.find(std::abs(l)); if (it == m.end()) { un++; u = l; } else if (it->second == l) { sat = true; break; } }
                if (sat || un > 1) continue; if (un == 0) { conf = true; break; } m[std::abs(u)] = u; ch = true; } }
            if (c == nullptr) {
                check(!conf, "propagation misses a conflict");
                std::map<int, int> got; for (Lit l : tr) got[l.var() + 1] = ext(l);
                if (!conf && got != m) { std::string d; for (auto& x : m) if (!got.count(x.first)) d += " " + std::to_string(x.second); for (auto& x : got) if (!m.count(x.first)) d += " +" + std::to_string(x.second); fail("propagation result differs from the closure: missing/extra" + d); }
                check(tr.qhead == tr.size(), "queue not empty after propagation without conflict");
            } else { nconf++;
                bool in = false; for (Clause* cl : db) in = in || cl == c; check(in && !c->isDeleted(), "the conflict is not a live clause of the database");
                for (Lit l : *c) if (tr.value(l) != l_False) { fail("the conflict clause " + show(lits(*c)) + " is not falsified"); break; }
                check(conf, "conflict reported where there is none"); conflict = true;
                if (tr.decisionLevel() == 0) break; }
            // reasons of everything implied
            std::map<int, unsigned> pos; unsigned q = 0; for (Lit l : tr) { if (pos.count(l.var())) fail("a variable is twice on the trail"); pos[l.var()] = q++; }
            q = 0;
            for (Lit l : tr) { if (q++ < nb) continue; nimp++;
                Clause* r = tr.reason(l.var()); if (!r) { fail("implied literal " + std::to_string(ext(l)) + " has no reason"); break; }
                bool in = false; for (Clause* cl : db) in = in || cl == r; if (!in || r->isDeleted()) { fail("the reason of " + std::to_string(ext(l)) + " is not a live clause"); break; }
                bool has = false, okk = true; for (Lit x : *r) { if (x == l) has = true; else okk = okk && tr.value(x) == l_False && pos[x.var()] < pos[l.var()]; }
                if (!has || !okk) { fail("the reason " + show(lits(*r)) + " does not imply " + std::to_string(ext(l))); break; }
                check(tr.level(l.var()) == tr.decisionLevel(), "level of an implied literal"); }
            // the clauses still have their literals
            if (coin(1, 6)) { std::multiset<std::set<int>> a, b; (void)a; for (Clause* cl : db) { C x = lits(*cl); std::set<int> S(x.begin(), x.end()); check(S.size() == x.size(), "propagation damaged a clause"); } }
        }
    }
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "random clause sets with random sequences of decisions, facts, backtracks, added and removed clauses; every propagation compared with the unit closure, each reason and conflict checked; distinct by clause set");
    run<Propagate>("two-watched"); run<StaticPropagate>("static");
    part("propagations", nprop); part("conflicts", nconf); part("implied literals", nimp);
    return nv::finish();
}
