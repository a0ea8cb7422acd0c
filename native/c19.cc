// opt: lib=all time=300
#include "nv.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/Trail.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/systems/ReduceDB.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::Cnf; using nv::nfail;
typedef nv::Cl C;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static C lits(const Clause& c) { C r; for (Lit l : c) r.push_back(ext(l)); return r; }
int main(int argc, char** argv) {
    nv::init(argc, argv, "random clause databases of permanent and learned clauses of all sizes and quality values, reduced one to four times with and without compaction in between; distinct by text");
    unsigned N = scale(4000); uint64_t gone = 0;
    for (unsigned i = 0; i < N && nfail < 4; i++) {
        int n = 6 + rnd(20); ClauseDatabaseOptions::opt_persistent_lbd = coin(1, 4) ? 0 : rnd(6); ClauseDatabaseOptions::opt_keep_median_lbd = coin(); unsigned P = ClauseDatabaseOptions::opt_persistent_lbd; bool median = ClauseDatabaseOptions::opt_keep_median_lbd;
        ClauseDatabase db; db.variables = n; db.binaryWatchers.resize(2 * n + 2); Trail tr; tr.init(n); ReduceDB rd(db, tr);
        std::string log = "persistent quality " + std::to_string(P) + " median " + std::to_string(median); int rounds = 1 + rnd(4); int spread = 1 + rnd(8);
        nv::begin(log + " #" + std::to_string(i));
        for (int r = 0; r < rounds && nfail < 4; r++) {
            for (int k = rnd(coin(1, 5) ? 3 : 40); k > 0; k--) { C c = nv::randclause(n, 1 + rnd(6)); unsigned w = coin(1, 3) ? 0 : std::min<unsigned>(c.size(), 1 + rnd(spread)); std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); db.createClause(l.begin(), l.end(), w); log += " " + show(c) + "/" + std::to_string(w); }
            log += " reduce"; nv::current = log;
            std::vector<std::pair<Clause*, std::pair<C, unsigned>>> before; for (Clause* c : db) if (!c->isDeleted()) before.push_back({c, {lits(*c), c->getLBD()}});
            rd.reduce();
            size_t cand = 0, del = 0; unsigned worstkept = 0, bestdel = 1u << 30; std::multiset<std::pair<C, unsigned>> kept;
            for (auto& b : before) { unsigned w = b.second.second; bool c = w > P; cand += c;
                if (b.first->isDeleted()) { del++; if (w == 0) fail("a permanent clause was discarded: " + show(b.second.first)); else if (!c) fail("a learned clause of quality " + std::to_string(w) + " was discarded although " + std::to_string(P) + " is protected"); else if (b.second.first.size() <= 2) fail("a clause of at most two literals was discarded"); bestdel = std::min(bestdel, w); }
                else { kept.insert(b.second); if (c) worstkept = std::max(worstkept, w); check(lits(*b.first) == b.second.first && b.first->getLBD() == w, "a kept clause changed"); } }
            gone += del;
            check(del <= cand - cand / 2, "more than half of the candidates discarded: " + std::to_string(del) + " of " + std::to_string(cand));
            if (del && worstkept > bestdel) fail("a clause of quality " + std::to_string(bestdel) + " was discarded while one of quality " + std::to_string(worstkept) + " was kept");
            if (coin()) { db.reorganize(); log += " compact"; std::multiset<std::pair<C, unsigned>> got; for (Clause* c : db) got.insert({lits(*c), c->getLBD()}); check(got == kept, "after compaction the clauses are not exactly the kept ones"); }
            std::multiset<std::pair<int, int>> want, got; for (auto& k : kept) if (k.first.size() == 2) { want.insert({k.first[0], k.first[1]}); want.insert({k.first[1], k.first[0]}); }
            for (int v = 1; v <= n; v++) for (int l : {v, -v}) for (auto& w : db.getBinaryWatchers(mk(l))) got.insert({-l, ext(w.other)});
            check(want == got, "binary lists do not correspond to the kept binary clauses");
        }
    }
    part("discarded clauses", gone);
    return nv::finish();
}
