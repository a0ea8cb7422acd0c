// opt: lib=all time=400 opt=-O1 asan=1
#include "e2e.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace nv;
static uint64_t nsat = 0, nunsat = 0, nint = 0, nlearn = 0, nfailedq = 0, nval = 0;
struct Term { int left, calls; bool fired; };
static int term(void* p) { Term* t = (Term*)p; t->calls++; if (t->left >= 0 && t->calls > t->left) { t->fired = true; return 1; } return 0; }
struct Learn { int max; const Cnf* all; std::vector<nv::Cl> got; bool bad; };
static void learn(void* p, int* c) { Learn* l = (Learn*)p; nv::Cl k; while (*c) { k.push_back(*c++); if (k.size() > 100000) { l->bad = true; return; } } if ((int)k.size() > l->max) l->bad = true; if (l->got.size() < 60 || coin(1, 40)) l->got.push_back(k); }
struct Inst { void* s; Cnf all; nv::Cl assum; nv::Cl open; int known; int state; Term t; Learn l; bool hasl; std::string log; };
static void setup(Inst& I, bool first) {
    I.s = ipasir_init(); I.known = 0; I.state = 0; I.t = {-1, 0, false}; I.hasl = false; I.l = Learn(); I.l.bad = false; I.l.max = 0; I.all.clear(); I.assum.clear(); I.open.clear();
    I.log = "init";
    if (coin(2, 3)) ipasir_set_terminate(I.s, &I.t, term);
    else I.t.left = -2;
    if (coin()) { I.hasl = true; I.l.max = coin(1, 4) ? 1 : coin() ? 2 + rnd(6) : 1000; ipasir_set_learn(I.s, &I.l, I.l.max, learn); }
}
static void add(Inst& I, int l) { I.log += " " + std::to_string(l); current = I.log; ipasir_add(I.s, l); I.state = 0; if (l) { I.open.push_back(l); I.known = std::max(I.known, std::abs(l)); } else { I.all.push_back(I.open); I.open.clear(); } }
static void assume(Inst& I, int l) { I.log += " assume(" + std::to_string(l) + ")"; current = I.log; ipasir_assume(I.s, l); I.state = 0; I.assum.push_back(l); I.known = std::max(I.known, std::abs(l)); }
static void solve(Inst& I) {
    I.log += " solve"; 
    if (I.t.left != -2) { I.t.left = coin(1, 5) ? (int)rnd(4) : -1; if (I.t.left >= 0) I.log += "[stop after " + std::to_string(I.t.left) + "]"; } I.t.calls = 0; I.t.fired = false; I.l.got.clear();
    current = I.log; alarm(100);
    int r = ipasir_solve(I.s);
    I.log += "=" + std::to_string(r); current = I.log; I.state = r;
    if (r != 0 && r != 10 && r != 20) { fail("answer is neither 0 nor 10 nor 20"); return; }
    if (r == 0 && !I.t.fired) { fail("answer 0 although no termination was requested"); return; }
    int truth = sat(I.all, I.known, I.assum); nv::Cl as = I.assum; I.assum.clear();
    if (r == 10) { nsat++;
        if (truth == 0) { fail("answer 10 but there is no model under the assumptions " + show(as)); return; }
        std::map<int, int> m; int top = I.known + (int)rnd(3);
        for (int x = 1; x <= top; x++) {
            int a = ipasir_val(I.s, x), b = ipasir_val(I.s, -x); nval++;
            if (!(a == x || a == -x || a == 0)) { fail("value of " + std::to_string(x) + " is " + std::to_string(a)); return; }
            if (a != b) { fail("val(" + std::to_string(x) + ")=" + std::to_string(a) + " but val(" + std::to_string(-x) + ")=" + std::to_string(b)); return; }
            m[x] = a;
        }
        for (auto& c : I.all) { bool s = false; for (int l : c) s = s || m[std::abs(l)] == l; if (!s) { bool taut = false; for (int l : c) for (int k : c) taut = taut || l == -k; if (!taut) { fail("the reported values do not satisfy the clause " + show(c)); return; } } }
        for (int a : as) if (m[std::abs(a)] != a) { fail("the reported values contradict the assumption " + std::to_string(a)); return; }
        for (int x = 1; x <= top; x++) if (ipasir_val(I.s, x) != m[x]) { fail("val changes when asked again"); return; }
    }
    if (r == 20) { nunsat++;
        if (truth == 1) { fail("answer 20 but there is a model under the assumptions " + show(as)); return; }
        nv::Cl sub; for (int a : as) { nfailedq++; int q = ipasir_failed(I.s, a); if (q) sub.push_back(a); if (ipasir_failed(I.s, a) != q) { fail("failed changes when asked again"); return; } }
        if (sat(I.all, I.known, sub) == 1) { fail("the assumptions reported as failed, " + show(sub) + ", are consistent with the clauses"); return; }
        // an assumption without effect on the clauses (a variable that occurs nowhere else) cannot contribute
        for (int a : sub) { bool occ = false; for (auto& c : I.all) for (int l : c) occ = occ || std::abs(l) == std::abs(a); for (int b : as) occ = occ || b == -a; if (!occ) { fail("assumption " + std::to_string(a) + " is reported as failed but occurs in no clause"); return; } }
        if (sub.size() && sat(I.all, I.known) == 0 && truth == 0) { /* the clauses alone may be contradictory: an answer in terms of assumptions is still right */ }
    }
    if (r == 0) nint++;
    if (I.hasl) { if (I.l.bad) { fail("learned clause longer than requested, or not ended by zero"); return; } 
        for (auto& c : I.l.got) { nlearn++; for (int l : c) if (std::abs(l) > I.known) { fail("learned clause " + show(c) + " over unknown variables"); return; } if (!implied(I.all, I.known, c)) { fail("reported learned clause " + show(c) + " is not implied by the clauses"); return; } } }
}
int main(int argc, char** argv) {
    init(argc, argv, "call histories through the C interface: one or two solver objects used alternately, up to 6 solve calls each, clauses and assumptions added in any order (also over variables never seen before), interruptions after a random number of polls, learned clauses reported; values and failed assumptions queried after each call, compared with an exhaustive solver; distinct by history");
    for (unsigned it = 0; it < scale(700) && nfail < 4; it++) {
        Cfg c = randcfg(coin(9, 10)); delete make(c); SolverOptions::opt_size_lbd_queue = 10;
        int k = coin(1, 5) ? 2 : 1; std::vector<std::unique_ptr<Inst>> I; std::vector<Cnf> pool(k); std::vector<size_t> pos(k, 0);
        for (int j = 0; j < k; j++) { I.emplace_back(new Inst); int n = 0; pool[j] = genformula(n); if (coin(1, 3)) { int big = rnd(2) ? 30 : 100; for (auto& cl : pool[j]) for (int& l : cl) if (coin(1, 12)) l = (l > 0 ? 1 : -1) * (1 + (int)rnd(coin(1, 4) ? big : 40)); for (auto& cl : pool[j]) {} } setup(*I[j], j == 0); I[j]->log = c.str() + " " + I[j]->log; nv::begin(I[j]->log + std::to_string(it), false); }
        int before = nfail, rounds = k * (1 + rnd(6));
        for (int r = 0; r < rounds && nfail == before; r++) {
            int j = rnd(k); Inst& S = *I[j];
            size_t stop = coin(1, 3) ? pool[j].size() : std::min(pool[j].size(), pos[j] + rnd(pool[j].size() + 1));
            int na = coin(1, 3) ? 0 : rnd(5);
            auto rndassume = [&]() { int top = S.known + (coin(1, 6) ? 1 + rnd(4) : 0); if (top == 0) top = 1 + rnd(3); int v = 1 + rnd(top); if (coin(1, 40)) v = 50 + rnd(60); assume(S, coin() ? v : -v); };
            for (; pos[j] < stop; pos[j]++) { for (int l : pool[j][pos[j]]) { add(S, l); if (na && coin(1, 30)) { na--; rndassume(); } } add(S, 0); }
            if (r && coin()) for (int q = rnd(3); q > 0; q--) { for (int l : randclause(S.known + 1 + rnd(2), 1 + rnd(3))) add(S, l); add(S, 0); }
            while (na-- > 0) rndassume();
            evaluations++; seen.insert(nv::hash(S.log)); solve(S);
        }
        for (int j = 0; j < k; j++) ipasir_release(I[j]->s);
    }
    part("answers 10", nsat); part("answers 20", nunsat); part("answers 0 (interrupted)", nint); part("learned clauses checked", nlearn); part("failed queries", nfailedq); part("value queries", nval);
    return finish();
}
