// opt: lib=none
#include "nv.h"
#include "candy/core/Trail.h"
using namespace Candy;
using namespace nv;

// reference: a list of (literal, level, reason)
struct Ref { struct E { int x; unsigned lev; Clause* r; }; std::vector<E> tr; std::vector<size_t> lim;
    int val(int v) { for (auto& e : tr) if (e.x / 2 == v) return e.x % 2; return 2; } 
    E* at(int v) { for (auto& e : tr) if (e.x / 2 == v) return &e; return nullptr; } };

static void compare(Trail& t, Ref& r, int n) {
    if (t.size() != r.tr.size()) { fail("number of assignments " + std::to_string(t.size()) + " instead of " + std::to_string(r.tr.size())); return; }
    size_t k = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++k) if ((int)(*it) != r.tr[k].x) { fail("trail position " + std::to_string(k)); return; }
    k = r.tr.size();
    for (auto it = t.rbegin(); it != t.rend(); ++it) { if (k == 0 || (int)(*it) != r.tr[--k].x) { fail("reverse iteration"); return; } }
    check(k == 0, "reverse iteration stops early");
    check(t.decisionLevel() == r.lim.size(), "decision level");
    for (int v = 0; v < n; v++) {
        int x = r.val(v);
        lbool e = x == 2 ? l_Undef : (x == 0 ? l_True : l_False);
        lbool ne = x == 2 ? l_Undef : (x == 0 ? l_False : l_True);
        check(t.value(v) == e, "value of variable " + std::to_string(v));
        check(t.value(Lit(v, false)) == e && t.value(Lit(v, true)) == ne, "value of literal of variable " + std::to_string(v));
        check(t.satisfies(Lit(v, false)) == (x == 0) && t.satisfies(Lit(v, true)) == (x == 1) && t.falsifies(Lit(v, false)) == (x == 1) && t.falsifies(Lit(v, true)) == (x == 0), "satisfies/falsifies");
        if (auto* q = r.at(v)) { check(t.level(v) == q->lev, "level of variable " + std::to_string(v)); check(t.reason(v) == q->r, "reason of variable " + std::to_string(v)); }
    }
    for (unsigned l = 0; l < r.lim.size(); l++) check(t.begin(l) - t.begin() == (long)r.lim[l], "start of level " + std::to_string(l + 1));
    check(t.qhead <= t.size(), "queue head beyond the trail");
}

int main(int argc, char** argv) {
    init(argc, argv, "random operation sequences (init, decide, propagate, fact, new level, backtrack, reset, satisfies, falsifies, computeLBD) on a trail of 1..9 variables against a list of assignments; a case is non-trivial if it has at least 5 operations");
    static char dummy[64][64];
    unsigned N = scale(40000);
    for (unsigned it = 0; it < N; it++) {
        int n = coin(1, 60) ? 30 + rnd(270) : 1 + rnd(9); 
        Trail t(n); Ref r; std::string log = "vars=" + std::to_string(n);
        unsigned ops = 3 + rnd(n > 9 ? 2 * n : 30);
        std::vector<std::string> steps;
        begin(log + " sequence " + std::to_string(it) + " (seeded)", ops >= 5);
        for (unsigned o = 0; o < ops && nfail == 0; o++) {
            unsigned what = rnd(16);
            int v = rnd(n); Lit p = Lit(v, coin());
            int x = r.val(v);
            char b[80];
            if (coin(1, 12)) { for (int k = 1 + rnd(coin(1, 8) ? n + 2 : 2); k > 0; k--) { r.lim.push_back(r.tr.size()); t.newDecisionLevel(); } log += " empty-levels"; current = log; compare(t, r, n); continue; }
            if (what < 3) { if (x != 2) continue; snprintf(b, 80, " level+decide(%d)", (int)p); log += b; current = log;
                r.lim.push_back(r.tr.size()); t.newDecisionLevel(); t.decide(p); r.tr.push_back({(int)p, (unsigned)r.lim.size(), nullptr}); }
            else if (what < 7) { if (x == (int)p.sign()) continue; Clause* c = coin(1, 8) ? nullptr : (Clause*)dummy[rnd(64)]; snprintf(b, 80, " propagate(%d)", (int)p); log += b; current = log;
                bool ok = t.propagate(p, c); check(ok == (x == 2), "propagate result"); if (x == 2) r.tr.push_back({(int)p, (unsigned)r.lim.size(), c}); }
            else if (what < 9) { if (!r.lim.empty()) continue; snprintf(b, 80, " fact(%d)", (int)p); log += b; current = log;
                bool ok = t.fact(p); check(ok == (x == 2 || x == (int)p.sign()), "fact result"); if (x == 2) r.tr.push_back({(int)p, 0, nullptr}); else if (ok) { r.at(v)->r = nullptr; r.at(v)->lev = 0; } }
            else if (what < 11) { unsigned l = rnd(r.lim.size() + 2); snprintf(b, 80, " backtrack(%u)", l); log += b; current = log;
                size_t q0 = t.qhead;
                t.backtrack(l); if (l < r.lim.size()) { size_t cut = r.lim[l]; r.tr.resize(cut); r.lim.resize(l); check(t.qhead <= cut, "queue head after backtrack"); } else check(t.qhead == q0, "queue head changed by a void backtrack"); }
            else if (what == 11 && coin(1, 4)) { log += " reset"; current = log; t.reset(); r.tr.clear(); r.lim.clear(); check(t.qhead == 0, "queue head after reset"); }
            else if (what == 12 && n < 12 && coin(1, 3)) { n += 1 + rnd(2); snprintf(b, 80, " init(%d)", n); log += b; current = log; t.init(n); t.init(rnd(n)); for (int i = 0; i < n; i++) check(t.isDecisionVar(i), "decision flag"); check(t.nVars() == (unsigned)n, "nVars"); }
            else if (what == 13) { t.qhead = t.size(); }
            else { std::vector<Lit> c; for (int i = rnd(7); i > 0; i--) c.push_back(Lit(rnd(n), coin())); bool any = false, all = true; std::set<unsigned> ls;
                log += " query"; current = log;
                for (Lit l : c) { int y = r.val(l.var()); any = any || y == (int)l.sign(); all = all && y == 1 - (int)l.sign(); ls.insert(t.level(l.var())); }
                check(t.satisfies(c.begin(), c.end()) == any, "satisfies(range)"); check(t.falsifies(c.begin(), c.end()) == all, "falsifies(range)");
                bool ok = true; for (unsigned l : ls) ok = ok && (l <= r.lim.size() || l < (unsigned)n); if (ok) check(t.computeLBD(c.begin(), c.end()) == ls.size(), "computeLBD"); }
            compare(t, r, n);
        }
    }
    return finish();
}
