// opt: lib=all time=300 asan=1
#include "nv.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/CNFProblem.h"
#include "candy/frontend/CLIOptions.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::Cnf; using nv::nfail;
typedef nv::Cl C;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static C lits(const Clause& c) { C r; for (Lit l : c) r.push_back(ext(l)); return r; }
static std::vector<Lit> L(const C& c) { std::vector<Lit> r; for (int x : c) r.push_back(mk(x)); return r; }

static bool same(Clause* c, const C& w, unsigned weight) {
    if (c->size() != w.size() || lits(*c) != w) { fail("stored clause " + show(lits(*c)) + " instead of " + show(w)); return false; }
    if (c->getLBD() != weight) { fail("stored weight " + std::to_string(c->getLBD()) + " instead of " + std::to_string(weight) + " of " + show(w)); return false; }
    check(c->isDeleted() == (weight == 65535) && c->isPersistent() == (weight == 0) && c->isLearnt() == (weight > 0), "classification of the clause");
    if (w.size() > 0) check(ext(c->first()) == w[0] && ext(c->back()) == w.back() && ext((*c)[w.size() - 1]) == w.back(), "first/back");
    if (w.size() > 1) check(ext(c->second()) == w[1], "second"); if (w.size() > 2) check(ext(c->third()) == w[2], "third");
    for (int x : w) check(c->contains(mk(x)), "contains"); 
    return true;
}
// the database against a reference
static void database() {
    unsigned N = scale(250); uint64_t ops = 0;
    for (unsigned i = 0; i < N && nfail < 4; i++) {
        int n = 3 + rnd(20); std::string log = "database " + std::to_string(n) + ":";
        ClauseDatabase db; db.variables = n; db.binaryWatchers.resize(2 * n + 2);
        struct E { C c; unsigned w; Clause* p; bool live; }; std::vector<E> ref; bool empty = false;
        int len = 5 + rnd(200); nv::begin(log + std::to_string(i), len > 8);
        for (int s = 0; s < len && nfail < 4; s++) { ops++;
            unsigned k = rnd(12); std::vector<int> live; for (size_t j = 0; j < ref.size(); j++) if (ref[j].live) live.push_back(j);
            if (k < 6 || live.empty()) { C c = nv::randclause(n, coin(1, 40) ? 0 : 1 + rnd(std::min(n, coin(1, 5) ? n : 5))); unsigned w = c.size() ? rnd(c.size()) : 0; log += " new" + show(c) + "/" + std::to_string(w); nv::current = log;
                auto l = L(c); Clause* p = db.createClause(l.begin(), l.end(), w, coin()); ref.push_back({c, c.size() < 3 ? 0 : w, p, true}); empty = empty || c.empty(); }
            else if (k < 8) { E& e = ref[live[rnd(live.size())]]; if (e.c.empty()) continue; log += " remove" + show(e.c); nv::current = log; db.removeClause(e.p); e.live = false; }
            else if (k < 10) { E e = ref[live[rnd(live.size())]]; if (e.c.size() < 2) continue; int x = e.c[rnd(e.c.size())]; log += " strengthen" + show(e.c) + "-" + std::to_string(x); nv::current = log;
                Clause* q = db.strengthenClause(e.p, mk(x)); for (auto& z : ref) if (z.p == e.p && z.live) z.live = false; C c; for (int y : e.c) if (y != x) c.push_back(y);
                ref.push_back({c, c.size() < 3 ? 0u : std::min<unsigned>(e.w, c.size()), q, true}); }
            else if (k == 10) { log += " reorganize"; nv::current = log; db.reorganize();
                // addresses change: match by content, in any order
                std::multiset<std::pair<C, unsigned>> want, got; for (auto& e : ref) if (e.live) want.insert({e.c, e.w}); for (Clause* c : db) got.insert({lits(*c), c->getLBD()});
                if (want != got) { fail("after compaction the clauses are not the live clauses"); break; }
                std::vector<E> nr; for (Clause* c : db) nr.push_back({lits(*c), c->getLBD(), c, true}); ref = nr; }
            for (auto& e : ref) if (e.live && !same(e.p, e.c, e.w)) break;
            // memory of live clauses does not overlap
            std::vector<std::pair<uintptr_t, uintptr_t>> iv; for (auto& e : ref) if (e.live) iv.push_back({(uintptr_t)e.p, (uintptr_t)e.p + 4 + 4 * e.c.size()}); std::sort(iv.begin(), iv.end());
            for (size_t j = 1; j < iv.size(); j++) if (iv[j].first < iv[j - 1].second) { fail("clauses overlap in memory"); break; }
            std::multiset<std::pair<int, int>> want, got; for (auto& e : ref) if (e.live && e.c.size() == 2) { want.insert({e.c[0], e.c[1]}); want.insert({e.c[1], e.c[0]}); }
            for (int v = 1; v <= n; v++) for (int l : {v, -v}) for (auto& w : db.getBinaryWatchers(mk(l))) { got.insert({-l, ext(w.other)}); C c = lits(*w.clause); check(c.size() == 2 && std::count(c.begin(), c.end(), -l) == 1 && std::count(c.begin(), c.end(), ext(w.other)) == 1, "binary list entry does not name its clause"); }
            check(want == got, "binary lists do not correspond to the live binary clauses");
            std::multiset<int> wu, gu; for (auto& e : ref) if (e.live && e.c.size() == 1) wu.insert(e.c[0]); for (Clause* c : db.getUnitClauses()) gu.insert(ext(c->first())); check(wu == gu, "unit clauses");
            check(db.hasEmptyClause() == empty, "empty clause flag");
            std::multiset<C> lw, lg; for (auto& e : ref) if (e.live) lw.insert(e.c); for (Clause* c : db) if (!c->isDeleted()) lg.insert(lits(*c)); check(lw == lg, "iteration over the database"); }
    }
    part("operations", ops);
}
// pages: more than one page, reallocation, import, absorb
static void pages() {
    unsigned N = scale(6); uint64_t total = 0;
    for (unsigned i = 0; i < N && nfail < 4; i++) {
        ClauseAllocatorMemory m(1), o(1); std::vector<std::pair<C, unsigned>> ref; std::vector<Clause*> ptr;
        nv::begin("pages " + std::to_string(i));
        size_t bytes = 0, lim = (2 + rnd(3)) << 20;
        auto fill = [&](ClauseAllocatorMemory& M, size_t lim2) { for (size_t b = 0; b < lim2; ) { int len = coin(1, 20) ? 2000 + rnd(20000) : 2 + rnd(300); if (coin(1, 300)) len = 65535; C c; for (int k = 0; k < len; k++) c.push_back((coin() ? 1 : -1) * (1 + k)); unsigned w = rnd(20); auto l = L(c);
            Clause* p = new (M.allocate(len)) Clause(l.begin(), l.end(), w); ref.push_back({c, w}); ptr.push_back(p); b += 4 + 4 * len; bytes += 4 + 4 * len; total++; } };
        auto cmp = [&](std::vector<Clause*> got, const char* when) { std::map<std::pair<unsigned, size_t>, int> d; if (got.size() != std::count_if(ref.begin(), ref.end(), [](std::pair<C, unsigned>& x) { return x.second != 65535; })) { fail(std::string(when) + ": number of clauses " + std::to_string(got.size())); return; }
            std::vector<C> a, b; std::vector<unsigned> wa, wb; for (auto& r : ref) if (r.second != 65535) { a.push_back(r.first); a.back().push_back(r.second); } for (Clause* c : got) { b.push_back(lits(*c)); b.back().push_back(c->getLBD()); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail(std::string(when) + ": clauses differ"); };
        fill(m, lim); cmp(m.collect(), "after allocation");
        for (size_t k = 0; k < ptr.size(); k++) { check(m.contains(ptr[k]), "page does not contain its clause"); if (coin(1, 4)) { ptr[k]->setDeleted(); ref[k].second = 65535; } }
        cmp(m.collect(), "after deletion"); m.reallocate(); cmp(m.collect(), "after reallocation"); m.free_phase_out_pages(); cmp(m.collect(), "after freeing the old pages");
        size_t k0 = ref.size(); fill(o, 1 << 20); { auto g = m.collect(); auto h = o.collect(); g.insert(g.end(), h.begin(), h.end()); cmp(g, "second memory"); }
        if (coin()) { m.absorb(o); cmp(m.collect(), "after absorbing"); check(o.collect().empty(), "absorbed memory is not empty"); }
        else { unsigned lim2 = coin() ? 0 : 100; m.import(o, lim2); auto g = m.collect(), h = o.collect(); for (Clause* c : h) check(c->isLearnt() && lim2 && c->size() >= lim2, "import leaves a clause that should move"); g.insert(g.end(), h.begin(), h.end()); cmp(g, "after import"); }
        m.reallocate(); m.free_phase_out_pages(); o.clear();
    }
    part("clauses in pages", total);
}
// allocators shared between databases (one thread at a time)
static void shared() {
    unsigned N = scale(150);
    for (unsigned i = 0; i < N && nfail < 4; i++) {
        int n = 3 + rnd(10); Cnf f = nv::randcnf(n, 1 + rnd(20), 1, 4); CNFProblem p; for (auto& c : f) { auto l = L(c); p.readClause(l); } while ((int)p.nVars() < n) p.newVar();
        ParallelOptions::opt_static_database_size_bound = rnd(4);
        nv::begin("shared " + show(f));
        std::multiset<C> want; for (auto& c : f) { C d = c; std::sort(d.begin(), d.end()); want.insert(d); }
        ClauseDatabase a; a.init(p); std::unique_ptr<ClauseAllocator> g(a.createGlobalClauseAllocator());
        CNFProblem none; while ((int)none.nVars() < n) none.newVar();
        ClauseDatabase b; b.init(none, g.get());
        auto get = [](ClauseDatabase& d) { std::multiset<C> r; for (Clause* c : d) if (!c->isDeleted()) { C x = lits(*c); std::sort(x.begin(), x.end()); r.insert(x); } return r; };
        check(get(b) == want, "second database does not see the shared clauses");
        for (int s = 0; s < 6 && nfail < 4; s++) { ClauseDatabase& d = coin() ? a : b;
            if (coin()) { C c = nv::randclause(n, 1 + rnd(4)); std::sort(c.begin(), c.end()); unsigned w = rnd(c.size()); auto l = L(c); d.createClause(l.begin(), l.end(), w); want.insert(c); }
            else d.reorganize(); }
        a.reorganize(); b.reorganize(); a.reorganize(); b.reorganize();
        auto ga = get(a), gb = get(b); for (auto& c : want) check(ga.count(c) || gb.count(c), "a shared clause is lost: " + show(c)); for (auto& c : ga) check(want.count(c), "a clause appears that nobody added: " + show(c)); for (auto& c : gb) check(want.count(c), "a clause appears that nobody added: " + show(c));
        for (auto& c : f) { C d = c; std::sort(d.begin(), d.end()); check(ga.count(d) && gb.count(d), "a problem clause is missing in a database: " + show(d)); }
        a.allocator.global_allocator = nullptr; b.allocator.global_allocator = nullptr;
    }
    ParallelOptions::opt_static_database_size_bound = 0;
}
static void longclause() {
    nv::begin("clause with 70000 literals");
    ClauseDatabase db; int n = 70000; db.variables = n; db.binaryWatchers.resize(2 * n + 2); std::vector<Lit> l; for (int v = 0; v < n; v++) l.push_back(Lit(v, false));
    Clause* c = db.createClause(l.begin(), l.end());
    if (c->size() != (unsigned)n) nv::out("KNOWN", "[longclause] a clause with 70000 literals is stored with " + std::to_string(c->size()) + " literals");
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "random histories of creating, removing, shortening clauses and compaction against a reference; pages filled beyond one page; databases sharing an allocator; distinct by text");
    database(); pages(); shared(); longclause();
    return nv::finish();
}
