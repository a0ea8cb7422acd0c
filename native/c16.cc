// opt: lib=all time=400 opt=-O1 asan=1
#include "nv.h"
#include "gen.h"
#include "candy/core/CNFProblem.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/randomsimulation/SimulationVector.h"
#include "candy/randomsimulation/ClauseOrder.h"
#include "candy/randomsimulation/Partition.h"
#include "candy/randomsimulation/Propagation.h"
#include "candy/randomsimulation/Randomization.h"
#include "candy/randomsimulation/Conjectures.h"
using namespace Candy;
using nv::check; using nv::fail; using nv::show; using nv::part; using nv::scale; using nv::nfail;
static Lit mk(int x) { return Lit(std::abs(x) - 1, x < 0); }
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static C ex(const Cl& c) { C d; for (Lit l : c) d.push_back(ext(l)); return d; }
static const int W = SimulationVector::VARSIMVECSIZE;
static uint64_t ngates = 0, npos = 0, neq = 0, nbb = 0, nops = 0, nsteps = 0;
typedef std::vector<uint64_t> Vec;
static Vec vec(const SimulationVectors& s, int v) { Vec r; for (int i = 0; i < W; i++) r.push_back(s.getConst(v).vars[i]); return r; }
struct Shared { GateAnalyzer* ga; int N; std::set<int> inputs; std::map<int, Vec> hist; std::vector<int> outs; bool enough; };
// in the simulator a set bit stands for the value false of the variable
struct CheckedPropagation : public Propagation { std::unique_ptr<Propagation> p; Shared* S; 
    void propagate(SimulationVectors& a, ClauseOrder& o) override {
        std::map<int, Vec> before; std::set<int> outs; for (Lit l : o.getGateOutputsOrdered()) outs.insert(l.var()); int amount = o.getAmountOfVars();
        for (int v = 0; v < amount; v++) if (!outs.count(v)) before[v] = vec(a, v);
        p->propagate(a, o); nsteps++;
        for (auto& kv : before) if (vec(a, kv.first) != kv.second) { fail("simulation changed the values of variable " + std::to_string(kv.first + 1) + " that is no gate output"); return; }
        for (Lit l : o.getGateOutputsOrdered()) { 
            Gate& g = S->ga->getResult().getGate(l); if (!g.isDefined()) { fail("simulated output is no gate"); return; } ngates++;
            for (int side = 0; side < 2; side++) for (Cl* c : side ? g.bwd : g.fwd) { bool inr = true; for (Lit x : *c) inr = inr && x.var() < amount; if (!inr) { continue; }
                for (int w = 0; w < W; w++) { uint64_t sat = 0; for (Lit x : *c) sat |= x.sign() ? a.getConst(x.var()).vars[w] : ~a.getConst(x.var()).vars[w]; npos += 64; if (~sat) { fail("gate clause " + show(ex(*c)) + " of output " + std::to_string(ext(g.out)) + " violated in bit " + std::to_string(__builtin_ctzll(~sat)) + " of word " + std::to_string(w)); return; } } } 
            // full definitions leave no choice; a monotone gate takes the value its forward (or backward) clauses give
        }
        for (int v = 0; v < amount; v++) { Vec x = vec(a, v); Vec& h = S->hist[v]; h.insert(h.end(), x.begin(), x.end()); }
    } };
struct CheckedRandomization : public Randomization { std::unique_ptr<Randomization> r; int mode; Shared* S; int amount;
    void randomize(SimulationVectors& a, const std::vector<Var>& in) override { 
        std::set<int> i(in.begin(), in.end()); std::map<int, Vec> before; for (int v = 0; v < amount; v++) if (!i.count(v)) before[v] = vec(a, v);
        if (mode == 0) { for (Var v : in) for (int w = 0; w < W; w++) a.get(v).vars[w] = coin(1, 10) ? 0 : coin(1, 9) ? ~0ull : nv::rnd(); }
        else if (mode == 1) { bool c = coin(); for (Var v : in) for (int w = 0; w < W; w++) { a.get(v).vars[w] = c ? ~0ull : 0; } if (in.size() && coin()) a.get(in[rnd(in.size())]).vars[rnd(W)] ^= 1ull << rnd(64); }
        else { r->randomize(a, in); for (auto& kv : before) if (vec(a, kv.first) != kv.second) { fail("randomisation changed a variable that is no input"); return; } }
    } };
static std::unique_ptr<Randomization> realrand() { switch (rnd(5)) { case 0: return createSimpleRandomization(); case 1: return createRandomizationBiasedToTrue(1 + rnd(4)); case 2: return createRandomizationBiasedToFalse(1 + rnd(4)); case 3: return createRandomizationCyclicallyBiasedToTrue(1, 5, 1); default: return createRandomizationCyclicallyBiasedToFalse(1, 5, 1); } }
static void simulate() {
    int n; Cnf f = circuit(n); bool rec = coin(), filt = coin(1, 4); int tries = coin() ? 0 : 1 + rnd(4); static const GateRecognitionMethod M[] = {GateRecognitionMethod::Patterns, GateRecognitionMethod::Semantic, GateRecognitionMethod::PatSem};
    int mi = rnd(3), mode = rnd(4), steps = 1 + rnd(4), comp = rnd(3);
    std::string log = std::string(rec ? "recursive" : "nonrecursive") + (filt ? " filtered" : "") + " method " + std::to_string((int)M[mi]) + " tries " + std::to_string(tries) + " input mode " + std::to_string(mode) + " steps " + std::to_string(steps) + " compression " + std::to_string(comp) + " " + show(f); nv::begin(log);
    CNFProblem p; for (auto& c : f) { std::vector<Lit> l; for (int x : c) l.push_back(mk(x)); p.readClause(l); } if (!p.nVars()) return;
    GateAnalyzer ga(p, M[mi], tries, 1000); ga.analyze(); if (ga.getResult().nGates() == 0) return;
    Shared S; S.ga = &ga; S.N = p.nVars();
    auto order = rec ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder(); 
    auto cp = new CheckedPropagation; cp->p = createInputToOutputPropagation(); cp->S = &S; auto cr = new CheckedRandomization; cr->r = realrand(); cr->S = &S; cr->mode = mode; 
    { auto o2 = rec ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder(); o2->readGates(ga); cr->amount = o2->getAmountOfVars(); for (Lit l : o2->getGateOutputsOrdered()) S.outs.push_back(l.var()); std::set<int> d(S.outs.begin(), S.outs.end()); for (Var v : o2->getInputVariables()) if (d.count(v)) { fail("variable " + std::to_string(v + 1) + " is input and output"); return; } }
    BitparallelRandomSimulatorBuilder b(ga); b.withClauseOrderStrategy(std::move(order)).withPropagationStrategy(std::unique_ptr<Propagation>(cp)).withRandomizationStrategy(std::unique_ptr<Randomization>(cr));
    b.withPartitionStrategy(comp == 0 ? createDefaultPartition(createNullCompressionScheduleStrategy()) : comp == 1 ? createDefaultPartition(createLinearCompressionScheduleStrategy(1 + rnd(2))) : createDefaultPartition());
    if (filt) b.withGateFilter(createNonmonotonousGateFilter(ga));
    auto sim = b.build(); int before = nfail;
    int rounds = 1 + rnd(2); 
    for (int r = 0; r < rounds && nfail == before; r++) {
        Conjectures cj = sim->run((unsigned)steps * SimulationVector::VARSIMVECVARS - rnd(SimulationVector::VARSIMVECVARS)); if (nfail != before) return;
        auto lit = [&](Lit l) { Vec x = S.hist[l.var()]; if (!l.sign()) for (auto& w : x) w = ~w; return x; }; // values of the literal
        for (auto& e : cj.getEquivalences()) { neq++; Vec x; std::string s; for (Lit l : e) s += std::to_string(ext(l)) + " "; for (Lit l : e) { Vec y = lit(l); if (y.empty()) { fail("conjecture " + s + "over a variable that was not simulated"); return; } if (x.empty()) x = y; else if (x != y) { fail("literals conjectured as equivalent disagreed in a simulated position: " + s); return; } } }
        for (auto& bb : cj.getBackbones()) { nbb++; Vec y = lit(bb.getLit()); for (auto w : y) if (~w) { fail("literal conjectured as constant was false in a simulated position: " + std::to_string(ext(bb.getLit()))); return; } }
        auto fl = createSizeConjectureFilter(3); Conjectures c2 = fl->apply(cj); for (auto& e : c2.getEquivalences()) if (e.size() > 3) { fail("size filter"); return; } 
    }
}
static SimulationVector rv() { SimulationVector v; for (int i = 0; i < W; i++) v.vars[i] = coin(1, 8) ? 0 : coin(1, 7) ? ~0ull : nv::rnd(); return v; }
int main(int argc, char** argv) {
    nv::init(argc, argv, "vector operations on random vectors; random circuits (as for gate recognition) simulated by both gate orders, with and without filter, with random, extreme and the built-in input patterns, several runs and all compression schedules: every gate clause in every bit position, every conjecture against the recorded values; distinct by circuit and setting");
    for (unsigned i = 0; i < scale(4000) && nfail < 4; i++) { 
        SimulationVector a = rv(), b = coin(1, 4) ? a : rv(); if (coin(1, 4)) { b = a; b.vars[rnd(W)] ^= 1ull << rnd(64); } nops++; nv::begin("vectors " + std::to_string(a.vars[0]) + " " + std::to_string(b.vars[0]) + " #" + std::to_string(i));
        SimulationVector n = ~a, m = !a, o = a | b, x = a ^ b, oe = a, ae = a; oe |= b; ae &= b; bool eq = true; 
        for (int k = 0; k < W; k++) { eq = eq && a.vars[k] == b.vars[k]; check(n.vars[k] == ~a.vars[k] && m.vars[k] == ~a.vars[k] && o.vars[k] == (a.vars[k] | b.vars[k]) && oe.vars[k] == o.vars[k] && ae.vars[k] == (a.vars[k] & b.vars[k]) && x.vars[k] == (a.vars[k] ^ b.vars[k]), "vector operation wrong in word " + std::to_string(k)); }
        check((a == b) == eq, "vector comparison"); SimulationVector z; uint64_t pat = nv::rnd(); z.initialize(pat); for (int k = 0; k < W; k++) check(z.vars[k] == pat, "vector initialisation");
    }
    for (int n : {1, 2, 7, 100}) { SimulationVectors s; s.initialize(n); for (int i = 0; i < n; i++) { check(((uintptr_t)&s.get(i)) % RANDSIM_ALIGNMENT == 0, "vector not aligned"); for (int k = 0; k < W; k++) check(s.get(i).vars[k] == 0, "vector " + std::to_string(i) + " not initialised"); s.get(i).initialize(i); } for (int i = 0; i < n; i++) for (int k = 0; k < W; k++) check(s.get(i).vars[k] == (uint64_t)i, "vectors overlap"); }
    for (unsigned i = 0; i < scale(1500) && nfail < 4; i++) simulate();
    part("vector operations", nops); part("simulated gates", ngates); part("bit positions of gate clauses", npos); part("equivalence conjectures", neq); part("constant conjectures", nbb); part("steps", nsteps);
    return nv::finish();
}
