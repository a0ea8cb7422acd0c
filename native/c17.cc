// opt: lib=all time=400 opt=-O1
#include "nv.h"
#include "gen.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverResult.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
#include "candy/frontend/CLIOptions.h"
using namespace Candy;
using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::nfail;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static Cnf cnf(CNFProblem& p) { Cnf f; for (Cl* c : p) { C d; for (Lit l : *c) d.push_back(ext(l)); f.push_back(d); } return f; }
static uint64_t nadd = 0, ncount = 0, nmin[4] = {0, 0, 0, 0};
static bool holds(const Cnf& f, unsigned m) { for (auto& c : f) { bool s = false; for (int x : c) s = s || ((m >> (std::abs(x) - 1) & 1) == (x > 0)); if (!s) return false; } return true; }
static int satx(const Cnf& f, int n, const C& a) { for (auto& c : f) if (c.empty()) return 0; return nv::sat(f, n, a); }
static void circuits(Minimizer& M) {
    for (unsigned perm = 0; perm < 32; perm++) { // every choice of signs of the five literals
        nv::begin("adder with signs " + std::to_string(perm));
        Lit l[5]; for (int i = 0; i < 5; i++) l[i] = Lit(i, perm >> i & 1);
        CNFProblem h, f; M.genHalfAdder(h, l[0], l[1], l[3], l[4]); M.genFullAdder(f, l[0], l[1], l[2], l[3], l[4]); Cnf H = cnf(h), F = cnf(f);
        for (unsigned m = 0; m < 32; m++) { auto v = [&](int i) { return (int)((m ^ perm) >> i & 1); }; nadd += 2; int s2 = v(0) + v(1), s3 = s2 + v(2);
            check(holds(H, m) == ((s2 % 2 == 0 || v(3)) && (s2 < 2 || v(4))), "half adder does not force exactly sum and carry for " + std::to_string(m));
            check(holds(F, m) == ((s3 % 2 == 0 || v(3)) && (s3 < 2 || v(4))), "full adder does not force exactly sum and carry for " + std::to_string(m)); }
    }
    for (int n = 0; n <= (nv::tier == "thorough" ? 13 : 10); n++) {
        CNFProblem out; Cl in; for (int i = 0; i < n; i++) in.push_back(Lit(out.newVar(), false)); nv::begin("counter of " + std::to_string(n) + " inputs");
        Cl o = M.genParCounter(out, in); Cnf base = cnf(out);
        for (unsigned m = 0; m < (1u << n); m++) { if (n > 7 && !coin(1, 1 << (n - 7))) continue;
            for (int k = 0; k <= n; k++) { CNFProblem lt; M.genLessThanConstraint(lt, o, k); Cnf all = base; for (auto& c : cnf(lt)) all.push_back(c); C a; for (int i = 0; i < n; i++) a.push_back(m >> i & 1 ? i + 1 : -i - 1); ncount++;
                int N = n; for (auto& c : all) for (int x : c) N = std::max(N, std::abs(x)); bool want = __builtin_popcount(m) < k; if (n == 0) continue;
                if ((satx(all, N, a) == 1) != want) { fail("counter of " + std::to_string(n) + " inputs with value " + std::to_string(__builtin_popcount(m)) + " and bound < " + std::to_string(k) + (want ? " is refused" : " is accepted")); return; } } }
    }
}
static void minimise() {
    int n; Cnf f; if (coin()) { n = 2 + rnd(9); f = nv::randcnf(n, (int)(n * (1 + rnd(25) / 10.0)), 1, 4); } else { f = circuit(n); n = nv::nvars(f); if (n > 13) return; }
    CNFProblem p; for (auto& c : f) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); p.readClause(l); } Cnf all = cnf(p); int N = p.nVars(); if (!N || N > 13) return; for (auto& c : all) if (c.empty()) return;
    C as; std::vector<int> m(N + 1, 0); for (int v = 1; v <= N; v++) { int x = coin() ? v : -v; as.push_back(x); if (nv::sat(all, N, as) != 1) { as.back() = x = -x; if (v == 1 || nv::sat(all, N, as) != 1) { if (nv::sat(all, N, as) != 1) return; } } m[v] = x; }
    int mode = rnd(8); bool prune = mode & 1, minimal = mode & 2, proj = mode & 4;
    std::string log = std::string("minimise") + (prune ? " pruned" : "") + (minimal ? " minimal" : "") + (proj ? " projected" : "") + " model " + show(as) + " of " + show(all); nv::begin(log);
    CandySolverResult R; for (int v = 1; v <= N; v++) R.setModelValue(mk(m[v]));
    Minimizer M(p, R); M.mimimizeModel(prune, minimal, proj);
    unsigned got = 0; for (Lit l : R.getMinimizedModelLiterals()) { int x = ext(l); if (std::abs(x) > N || m[std::abs(x)] != x) { fail("minimised model contains " + std::to_string(x) + ", which is not of the original model"); return; } got |= 1u << (std::abs(x) - 1); }
    for (int v = 1; v <= N; v++) if (!R.satisfies(mk(m[v]))) { fail("the model itself was changed"); return; }
    auto hits = [&](const Cnf& g, unsigned s) { for (auto& c : g) { bool h = false; for (int x : c) h = h || (m[std::abs(x)] == x && (s >> (std::abs(x) - 1) & 1)); if (!h) return false; } return true; };
    nmin[(prune ? 1 : 0) + (minimal ? 2 : 0)]++;
    Cnf target = all; unsigned outs = 0;
    if (prune || proj) { GateAnalyzer ga(p); ga.analyze(); if (prune) { target.clear(); for (Cl* c : ga.getGateProblem().getPrunedProblem(R)) { C d; for (Lit l : *c) d.push_back(ext(l)); target.push_back(d); } } for (int v = 0; v < N; v++) if (ga.getGateProblem().isGateOutput(Lit(v, false))) outs |= 1u << v; }
    if (proj) { // projection: some covering part of the model, without the gate outputs
        if (got & outs) { fail("projected model contains a gate output"); return; } bool ok = false; for (unsigned s = outs; ; s = (s - 1) & outs) { if (hits(target, got | s)) { ok = true; break; } if (!s) break; } if (!ok) { fail("the projected model does not cover the clauses with any gate outputs"); return; } return; }
    if (!hits(target, got)) { fail("minimised model " + std::to_string(got) + " leaves a clause unsatisfied"); return; }
    for (int v = 0; v < N; v++) if ((got >> v & 1) && hits(target, got & ~(1u << v))) { fail("literal of variable " + std::to_string(v + 1) + " is superfluous in the minimised model"); return; }
    if (minimal) for (unsigned s = 0; s < (1u << N); s++) if (__builtin_popcount(s) < __builtin_popcount(got) && hits(target, s)) { fail("minimised model has " + std::to_string(__builtin_popcount(got)) + " literals, but " + std::to_string(__builtin_popcount(s)) + " suffice"); return; }
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "adders for all values and signs, counters of up to 10 inputs (13 in the thorough tier) against every bound; random and circuit formulas of up to 13 variables with a random model minimised in every mode, compared with exhaustive search; distinct by formula, model and mode");
    { CNFProblem p; p.readClause({Lit(0, false)}); CandySolverResult R; R.setModelValue(Lit(0, false)); Minimizer M(p, R); circuits(M); }
    for (unsigned i = 0; i < scale(8000) && nfail < 4; i++) minimise();
    part("adder cases", nadd); part("counter cases", ncount); part("plain", nmin[0]); part("pruned", nmin[1]); part("minimal", nmin[2]); part("pruned and minimal", nmin[3]);
    return nv::finish();
}
