// opt: lib=all time=400 opt=-O1
#include "nv.h"
#include "gen.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverResult.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/BlockList.h"
#include "candy/frontend/CLIOptions.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::Cnf; using nv::nfail;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static C ex(const Cl& c) { C d; for (Lit l : c) d.push_back(ext(l)); return d; }
static uint64_t ngates = 0, nfull = 0, nprune = 0, nblk = 0;
static void load(CNFProblem& p, const Cnf& f) { for (auto& c : f) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); p.readClause(l); } }
static bool refblocked(const std::set<Cl*>& live, Lit o) {
    for (Cl* c : live) if (std::find(c->begin(), c->end(), o) != c->end()) for (Cl* d : live) if (std::find(d->begin(), d->end(), ~o) != d->end()) {
        bool t = false; for (Lit l : *c) if (l != o) for (Lit k : *d) if (k != ~o && l == ~k) t = true; if (!t) return false; }
    return true;
}
static void blocklist() {
    int n; Cnf f = circuit(n); std::string log = "blocked sets " + show(f) + " :"; nv::begin(log);
    CNFProblem p; load(p, f); BlockList b(p); std::set<Cl*> live; for (Cl* c : p) live.insert(c); int N = p.nVars(); if (!N) return;
    for (int s = 3 + rnd(10); s > 0 && nfail < 4; s--) {
        for (int q = 1 + rnd(2 * N); q > 0; q--) { Lit o(rnd(N), coin()); nblk++; bool want = refblocked(live, o), g = b.isBlockedSet(o); nv::current = log; if (g != want) { fail(std::string(g ? "reported" : "not reported") + " as blocked set: " + std::to_string(ext(o))); return; } 
            size_t k = 0; for (Cl* c : live) k += std::find(c->begin(), c->end(), o) != c->end(); if (b[o].size() != k) { fail("clauses listed for " + std::to_string(ext(o)) + " are not those containing it"); return; } for (Cl* c : b[o]) if (!live.count(c)) { fail("removed clause still listed"); return; } }
        if (coin()) { For r; for (Cl* c : live) if (coin(1, 6)) r.push_back(c); for (Cl* c : r) { live.erase(c); log += " remove" + show(ex(*c)); } b.remove(r); }
        else { Lit m = b.getMinimallyUnblockedLiteral(); if (coin(1, 4)) m = Lit(rnd(N), coin()); if (m == lit_Undef) { for (int v = 0; v < N; v++) for (int s2 = 0; s2 < 2; s2++) if (!refblocked(live, Lit(v, s2))) { fail("no unblocked literal reported but " + std::to_string(ext(Lit(v, s2))) + " is"); return; } break; } 
            log += " strip(" + std::to_string(ext(m)) + ")"; nv::current = log; For r = b.stripUnblockedClauses(m); for (Cl* c : r) { if (!live.count(c) || std::find(c->begin(), c->end(), m) == c->end()) { fail("stripped a clause that does not contain the literal"); return; } } for (Cl* c : r) live.erase(c);
            if (!refblocked(live, m)) { fail("after stripping, the literal is still unblocked"); return; } }
    }
}
static void analyse() {
    int n; Cnf f = circuit(n); static const GateRecognitionMethod M[] = {GateRecognitionMethod::Patterns, GateRecognitionMethod::Semantic, GateRecognitionMethod::Holistic, GateRecognitionMethod::PatSem, GateRecognitionMethod::PatSemHol};
    int mi = rnd(5); bool hol = mi == 2 || mi == 4; int tries = coin() ? 0 : 1 + rnd(5);
    std::string log = "method " + std::to_string((int)M[mi]) + " tries " + std::to_string(tries) + " " + show(f); nv::begin(log);
    CNFProblem p; load(p, f); if (!p.nVars()) return; int N = p.nVars(); Cnf all; std::map<Cl*, int> owner; for (Cl* c : p) { all.push_back(ex(*c)); owner[c] = 0; }
    GateAnalyzer ga(p, M[mi], tries, 1000); ga.analyze(); GateProblem& gp = ga.getResult();
    for (Cl* c : gp.roots) { if (!owner.count(c)) { fail("root is not a clause of the problem"); return; } owner[c]++; }
    for (Cl* c : gp.remainder) { if (!owner.count(c)) { fail("remainder is not a clause of the problem"); return; } owner[c]++; }
    size_t cnt = 0; std::vector<char> isout(N + 1, 0);
    for (int v = 0; v < N; v++) {
        const Gate& g = gp[v]; if (!g.isDefined()) continue; cnt++; ngates++; int o = ext(g.out); isout[std::abs(o)] = 1;
        if (g.out.var() != v) { fail("gate stored at the wrong variable"); return; }
        std::set<int> in; Cnf res; std::string gs = "gate " + std::to_string(o) + " := fwd"; for (Cl* c : g.fwd) gs += " " + show(ex(*c)); gs += " bwd"; for (Cl* c : g.bwd) gs += " " + show(ex(*c));
        for (int side = 0; side < 2; side++) for (Cl* c : side ? g.bwd : g.fwd) { if (!owner.count(c)) { fail("gate clause is not a clause of the problem: " + gs); return; } owner[c]++; C d = ex(*c); bool has = false; C r; for (int x : d) { if (x == (side ? o : -o)) has = true; else { r.push_back(x); if (!side) in.insert(x); } if (x == (side ? -o : o)) has = false; } if (!has) { fail("clause without the output: " + gs); return; } res.push_back(r); }
        std::set<int> gi; for (Lit l : g.inp) gi.insert(ext(l)); if (gi != in) { fail("inputs are not the other literals of the forward clauses: " + gs); return; }
        // some value of the output satisfies the gate, whatever the other variables
        for (size_t a = 0; a < g.fwd.size(); a++) for (size_t b = 0; b < g.bwd.size(); b++) { bool t = false; for (int x : res[a]) for (int y : res[g.fwd.size() + b]) t = t || x == -y; if (!t) { fail("inputs can contradict both values of the output: " + gs); return; } }
        if (g.hasNonMonotonicParent()) { nfull++; Cnf u = res; if (hol) for (auto& c : all) { bool m = false; for (int x : c) m = m || std::abs(x) == std::abs(o); if (!m) u.push_back(c); }
            bool empty = false; for (auto& c : u) empty = empty || c.empty(); if (!empty && nv::sat(u, N) == 1) { fail("reported as full definition, but both values of the output fit some inputs: " + gs); return; } }
    }
    if (cnt != gp.nGates()) { fail("number of gates"); return; }
    for (auto& kv : owner) if (kv.second != 1 && kv.first->size()) { fail("clause " + show(ex(*kv.first)) + " belongs to " + std::to_string(kv.second) + " of roots, gates and remainder"); return; }
    // pruning
    bool emptyc = false; for (auto& c : all) emptyc = emptyc || c.empty(); if (emptyc || nv::sat(all, N) != 1) return;
    std::vector<int> m(N + 1, 0); C as; for (int v = 1; v <= N; v++) { int x = coin() ? v : -v; as.push_back(x); if (nv::sat(all, N, as) != 1) { as.back() = x = -x; } m[v] = x; }
    CandySolverResult R; for (int v = 1; v <= N; v++) R.setModelValue(mk(m[v]));
    For pr = gp.getPrunedProblem(R); nprune++; Cnf pc; for (Cl* c : pr) { if (!owner.count(c)) { fail("pruned problem contains a clause that is none of the problem"); return; } pc.push_back(ex(*c)); }
    for (int rep = 0; rep < 3; rep++) { // a part of the model that satisfies the pruned clauses extends to a model for every value of the remaining inputs
        std::vector<char> keep(N + 1, 1); std::vector<int> ord; for (int v = 1; v <= N; v++) ord.push_back(v); for (int k = N - 1; k > 0; k--) std::swap(ord[k], ord[rnd(k + 1)]);
        for (int v : ord) { keep[v] = 0; bool ok = true; for (auto& c : pc) { bool h = false; for (int x : c) h = h || (keep[std::abs(x)] && m[std::abs(x)] == x); ok = ok && h; } if (!ok) keep[v] = 1; }
        C a; for (int v = 1; v <= N; v++) if (keep[v]) a.push_back(m[v]); C part_ = a; for (int v = 1; v <= N; v++) if (!keep[v] && !isout[v]) a.push_back(coin() ? v : -v);
        if (nv::sat(all, N, a) == 0) { fail("the part " + show(part_) + " of a model satisfies the pruned problem " + show(pc) + " but with " + show(a) + " it does not extend to a model of the problem"); return; }
    }
    if (coin(1, 4)) { // one artificial root
        gp.normalizeRoots(); Cnf g2; g2.push_back(ex(*gp.getArtificialRoot())); for (const Gate& g : gp) { for (Cl* c : g.fwd) g2.push_back(ex(*c)); for (Cl* c : g.bwd) g2.push_back(ex(*c)); } 
        for (int rep = 0; rep < 4; rep++) { C a; for (int v = 1; v <= N; v++) if (coin()) a.push_back(coin() ? v : -v); if (nv::sat(g2, N + 1, a) != nv::sat(all, N, a)) { fail("the gates with one root are not equivalent to the problem under " + show(a)); return; } } }
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "random circuits of and, or, xor, table, multiplexer and loosely or redundantly encoded gates, damaged, duplicated and shuffled, with random extra clauses; all recognition methods and numbers of tries; distinct by clause list and method");
    for (unsigned i = 0; i < scale(6000) && nfail < 4; i++) blocklist();
    for (unsigned i = 0; i < scale(5000) && nfail < 4; i++) analyse();
    part("gates", ngates); part("full definitions", nfull); part("pruned problems", nprune); part("blocked-set queries", nblk);
    return nv::finish();
}
