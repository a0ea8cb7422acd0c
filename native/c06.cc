// opt: lib=all time=300
#include "nv.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/CNFProblem.h"
#include "candy/simplification/SubsumptionClauseDatabase.h"
#include "candy/simplification/Subsumption.h"
using namespace Candy;
using namespace nv;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static nv::Cl lits(const Clause& c) { nv::Cl r; for (Lit l : c) r.push_back(ext(l)); return r; }

// subsumes / equals / contains on single clauses against set operations
static void pairs() {
    unsigned N = scale(60000);
    for (unsigned i = 0; i < N; i++) {
        ClauseDatabase db; CNFProblem empty; 
        int n = coin() ? 1 + rnd(6) : 60 + rnd(140); db.variables = n; db.binaryWatchers.resize(2 * n + 2);
        nv::Cl a = randclause(n, 1 + rnd(std::min(n, 5))), b;
        switch (rnd(4)) {
        case 0: b = randclause(n, 1 + rnd(std::min(n, 6))); break;
        case 1: b = a; if (coin()) b[rnd(b.size())] *= -1; break;
        default: b = a; if (coin()) b[rnd(b.size())] *= -1; if (coin(1, 5)) b[rnd(b.size())] *= -1; if (coin(1, 6)) b.erase(b.begin() + rnd(b.size()));
            for (int k = rnd(4); k > 0; k--) { int v = 1 + rnd(n); bool d = false; for (int x : b) d = d || std::abs(x) == v; if (!d) b.push_back(coin() ? v : -v); }
        }
        if (b.empty()) continue;
        for (size_t k = b.size() - 1; k > 0; k--) std::swap(b[k], b[rnd(k + 1)]);
        if (coin(1, 8)) std::swap(a, b);
        begin("subsumes " + show(a) + " " + show(b));
        std::vector<Lit> la, lb; for (int x : a) la.push_back(mk(x)); for (int x : b) lb.push_back(mk(x));
        SubsumptionClause sa(db.createClause(la.begin(), la.end())), sb(db.createClause(lb.begin(), lb.end()));
        if (coin()) { SubsumptionClause t(sa.get_clause()); t.reset(sb.get_clause()); sb = t; }
        std::set<int> S(b.begin(), b.end());
        int miss = 0, neg = 0, nl = 0; for (int x : a) { if (S.count(x)) continue; if (S.count(-x)) { neg++; nl = x; } else miss++; }
        Lit r = sa.subsumes(&sb);
        Lit want = miss || neg > 1 ? lit_Error : neg == 1 ? mk(nl) : lit_Undef;
        check(r == want, "subsumes returns " + std::to_string((int)r) + " instead of " + std::to_string((int)want));
        check(sa.equals(&sb) == (std::set<int>(a.begin(), a.end()) == S), "equals");
        for (int x : b) { check(sb.contains(mk(x)), "contains a literal of the clause"); check(!sb.contains(mk(-x)), "contains the negation"); }
        for (int x : a) check(sb.contains(mk(x)) == (S.count(x) > 0), "contains");
    }
}

static void database() {
    unsigned N = scale(25000);
    uint64_t removed = 0, unsat = 0, rec = 0;
    for (unsigned i = 0; i < N; i++) {
        int n = 3 + rnd(6);
        Cnf P = randcnf(n, 2 + rnd(3 * n), coin(1, 3) ? 1 : 2, 4);
        // learnt clauses: implied by P
        Cnf L;
        for (int k = rnd(6); k > 0; k--) { nv::Cl c = coin() ? P[rnd(P.size())] : randclause(n, 1 + rnd(4));
            if (coin()) { int v = 1 + rnd(n); bool d = false; for (int x : c) d = d || std::abs(x) == v; if (!d) c.push_back(coin() ? v : -v); }
            if (coin() && c.size() > 1) c.erase(c.begin() + rnd(c.size()));
            if (implied(P, n, c)) L.push_back(c); }
        std::string t = "problem " + show(P) + " learnt " + show(L);
        ClauseDatabase db; db.variables = n; db.binaryWatchers.resize(2 * n + 2);
        for (auto& c : L) if (coin()) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); db.createClause(l.begin(), l.end(), 1 + rnd(4)); }
        for (auto& c : P) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); db.createClause(l.begin(), l.end(), 0, true); }
        for (auto& c : L) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); db.createClause(l.begin(), l.end(), 1 + rnd(4)); }
        nv::begin(t);
        SubsumptionClauseDatabase sdb(db); Subsumption sub(sdb);
        int rounds = 1 + rnd(3); bool ok = true;
        for (int r = 0; r < rounds && ok; r++) {
            sdb.init(); 
            for (int q = 1 + rnd(2); q > 0 && ok; q--) { ok = sub.subsume(); if (coin()) sdb.cleanup(); }
            sdb.finalize();
            if (coin() && ok) db.reorganize();
            Cnf live, pers;
            for (Clause* c : db) if (!c->isDeleted()) { live.push_back(lits(*c)); if (c->isPersistent()) pers.push_back(lits(*c)); }
            removed += P.size() + L.size() > live.size();
            if (!ok) { unsat++; check(sat(P, n) == 0, "subsumption reports unsatisfiable for a satisfiable formula"); break; }
            for (auto& c : live) if (!implied(P, n, c)) { fail("round " + std::to_string(r) + ": clause " + show(c) + " in the database is not implied"); break; }
            for (auto& c : P) if (!implied(pers, n, c)) { fail("round " + std::to_string(r) + ": clause " + show(c) + " is lost from the permanent clauses " + show(pers)); break; }
            // binary watchers correspond to the live binary clauses
            std::multiset<std::pair<int, int>> want, got;
            for (auto& c : live) if (c.size() == 2) { want.insert({c[0], c[1]}); want.insert({c[1], c[0]}); }
            for (int v = 1; v <= n; v++) for (int l : {v, -v}) for (auto& w : db.getBinaryWatchers(mk(l))) got.insert({-l, ext(w.other)});
            check(want == got, "binary watchers do not correspond to the live binary clauses");
            if (nfail > 2) break;
        }
    }
    part("databases in which something was removed", removed); part("unsatisfiable found by subsumption", unsat);
}
int main(int argc, char** argv) {
    init(argc, argv, "pairs of clauses over small and large (>64) variable numbers, and random clause databases with permanent and implied learnt clauses in one to three simplification rounds; distinct by text");
    pairs(); database();
    return finish();
}
