// opt: lib=all time=400
#include "e2e.h"
#include "candy/core/DRATChecker.h"
using namespace nv;

// independent forward DRAT checking on clause sets (deletion of clauses that are unit under the top-level assignment is ignored, as usual)
struct Drat {
    std::vector<nv::Cl> db; std::vector<char> live; std::map<int, int> top; bool bottom = false;
    static nv::Cl norm(nv::Cl c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
    void add(const nv::Cl& c) { db.push_back(norm(c)); live.push_back(1); bottom = bottom || !up(top); }
    static int val(const std::map<int, int>& m, int l) { auto it = m.find(std::abs(l)); return it == m.end() ? 0 : it->second == l ? 1 : -1; }
    bool up(std::map<int, int>& m) { // false on conflict
        bool ch = true;
        while (ch) { ch = false;
            for (size_t i = 0; i < db.size(); i++) if (live[i]) {
                int un = 0, u = 0; bool s = false; for (int l : db[i]) { int v = val(m, l); if (v > 0) { s = true; break; } if (v == 0) { un++; u = l; } }
                if (s || un > 1) continue; if (un == 0) return false; m[std::abs(u)] = u; ch = true; } }
        return true;
    }
    bool rup(const nv::Cl& c, const std::map<int, int>* start = nullptr) {
        std::map<int, int> m = start ? *start : top;
        for (int l : c) { if (val(m, l) > 0) return true; m[std::abs(l)] = -l; }
        return !up(m);
    }
    bool rat(const nv::Cl& c, int p) { 
        for (size_t i = 0; i < db.size(); i++) if (live[i] && std::find(db[i].begin(), db[i].end(), -p) != db[i].end()) {
            nv::Cl r = c; for (int l : db[i]) if (l != -p) r.push_back(l);
            bool taut = false; for (int a : r) for (int b : r) taut = taut || a == -b;
            if (!taut && !rup(r)) return false; }
        return true;
    }
    bool strict(const nv::Cl& c) { return bottom || rup(c) || (!c.empty() && rat(c, c[0])); } // pivot is the first literal written
    bool lemma(const nv::Cl& c) { if (bottom || rup(c)) return true; for (int p : c) if (rat(c, p)) return true; return false; }
    bool remove(const nv::Cl& c0) { nv::Cl c = norm(c0);
        for (size_t i = db.size(); i-- > 0; ) if (live[i] && db[i] == c) {
            int un = 0, tr = 0; for (int l : c) { int v = val(top, l); if (v > 0) tr++; else if (v == 0) un++; }
            if (tr == 1 && un == 0) return true;
            live[i] = 0; return true; }
        return false; }
};
static bool readproof(const std::string& fn, std::vector<std::pair<bool, nv::Cl>>& P, std::string& bad) {
    std::ifstream in(fn); std::string ln;
    while (std::getline(in, ln)) {
        std::istringstream s(ln); bool del = false; std::string w; nv::Cl c; bool zero = false;
        if (ln.size() > 1 && ln[0] == 'd' && ln[1] == ' ') { del = true; s >> w; }
        while (s >> w) { if (zero) { bad = ln; return false; } char* e; long x = strtol(w.c_str(), &e, 10); if (*e) { bad = ln; return false; } if (x == 0) zero = true; else c.push_back((int)x); }
        if (!zero) { bad = ln; return false; }
        P.push_back({del, c});
    }
    return true;
}
static void proofs() {
    unsigned N = scale(6000); uint64_t refut = 0, lines = 0, own = 0;
    std::string fn = "proof.drat";
    for (unsigned it = 0; it < N; it++) {
        Cfg c = randcfg(true); int n = 0; Cnf f = genformula(n); n = nvars(f);
        if (coin(1, 3)) { n = 6 + rnd(6); f = randcnf(n, 5 * n, 2, 3); }
        if (n > 30) continue;
        std::string log = c.str() + show(f);
        nv::begin(log, f.size() > 2);
        SolverOptions::opt_certified_file = fn.c_str();
        Run o; { std::unique_ptr<CandySolverInterface> s(make(c)); o = call(s.get(), f, {}); }
        SolverOptions::opt_certified_file = "";
        std::vector<std::pair<bool, nv::Cl>> P; std::string bad;
        if (!readproof(fn, P, bad)) { fail("malformed proof line '" + bad + "'"); continue; }
        Drat d; Cnf norm;
        for (auto c2 : f) { c2 = Drat::norm(c2); bool t = false; for (int a : c2) for (int b : c2) t = t || a == -b; if (!t) d.add(c2); }
        bool empty = d.bottom; size_t k = 0;
        for (auto& st : P) { k++; lines++;
            if (st.first) { if (!d.remove(st.second) ) { fail("proof line " + std::to_string(k) + " deletes the clause " + show(st.second) + " which is not there"); break; } }
            else { if (st.second.empty()) { if (d.bottom) empty = true; else { fail("proof line " + std::to_string(k) + " claims the empty clause, which does not follow"); break; } }
                else if (!d.strict(st.second)) { fail("proof line " + std::to_string(k) + ": clause " + show(st.second) + " does not follow from the clauses before it"); break; }
                d.add(st.second); } }
        if (o.res == 0) { refut++; if (!empty) fail("answered unsatisfiable, but the proof does not contain the empty clause"); }
        if (o.res == 1 && empty) fail("answered satisfiable, but the proof claims the empty clause");
    }
    part("refutations checked", refut); part("proof lines", lines);
}
// the repository's checker: accepted lemmas must be RUP or RAT, accepted proofs only for unsatisfiable input
static void checker() {
    unsigned N = scale(12000); uint64_t acc = 0, steps = 0, full = 0;
    for (unsigned it = 0; it < N; it++) {
        int n = 2 + rnd(4); Cnf f = randcnf(n, 1 + rnd(4 * n), 1, 3);
        if (coin(1, 6)) f.push_back({(int)(1 + rnd(n))});
        std::ostringstream pf; std::vector<std::pair<bool, nv::Cl>> P; std::vector<nv::Cl> known(f.begin(), f.end());
        for (int k = 1 + rnd(9); k > 0; k--) {
            if (coin(1, 3)) { nv::Cl c = known[rnd(known.size())]; if (coin(1, 6)) c = randclause(n, 1 + rnd(3)); for (size_t i = c.size() - 1; i > 0; i--) std::swap(c[i], c[rnd(i + 1)]); P.push_back({true, c}); }
            else { nv::Cl c = randclause(n, 1 + rnd(std::min(n, 3))); P.push_back({false, c}); known.push_back(c); } }
        if (coin(2, 3)) P.push_back({false, {}});
        for (auto& s : P) { if (s.first) pf << "d "; for (int l : s.second) pf << l << " "; pf << "0\n"; if (coin(1, 20)) pf << "c comment\n"; }
        nv::begin("checker " + show(f) + " proof " + pf.str());
        CNFProblem p; for (auto& c : f) { std::vector<Lit> ls; for (int l : c) ls.push_back(mk(l)); p.readClause(ls); }
        { std::ofstream o("p.drat"); o << pf.str(); }
        bool ok; { DRATChecker ch(p); ok = ch.check_proof("p.drat"); }
        acc += ok;
        if (ok) check(sat(f, n) == 0, "the checker accepts a refutation of a satisfiable formula");
        if (ok) { bool e = false; for (auto& s : P) e = e || (!s.first); bool triv = false; for (auto& c : f) triv = triv || c.empty(); check(e || triv || sat(f, n) == 0, "accepted without a refutation"); }
        // step by step: each accepted lemma is RUP or RAT over the checker's own clauses and top-level assignments
        DRATChecker ch(p);
        for (auto& s : P) { steps++;
            std::vector<Lit> ls; for (int l : s.second) ls.push_back(mk(l));
            Drat d; d.bottom = ch.clause_db.hasEmptyClause();
            for (Clause* c : ch.clause_db) if (!c->isDeleted()) { nv::Cl x; for (Lit l : *c) x.push_back(ext(l)); d.db.push_back(Drat::norm(x)); d.live.push_back(1); }
            std::map<int,int> top; for (Lit l : ch.trail) top[l.var() + 1] = ext(l);
            bool ok2 = true; (void)ok2;
            // assignments kept on the trail must be consequences of the live clauses by unit propagation
            { std::map<int,int> m; bool c = d.up(m); if (c) for (auto& t : top) if (!m.count(t.first) || m[t.first] != t.second) { fail("top-level literal " + std::to_string(t.second) + " is kept although its clause was deleted"); break; } d.bottom = d.bottom || !c; d.top = m; }
            if (s.first) { ch.check_clause_remove(ls.begin(), ls.end()); }
            else { bool a = ch.check_clause_add(ls.begin(), ls.end()); full += a;
                if (a && !d.lemma(s.second)) { fail("the checker accepts the clause " + show(s.second) + ", which is neither RUP nor RAT"); break; }
                if (!a) break; }
        }
    }
    part("accepted random refutations", acc); part("checker steps", steps); part("accepted lemmas", full);
}
int main(int argc, char** argv) {
    init(argc, argv, "proofs written by the solver for random formulas and configurations, checked line by line by an independent RUP/RAT checker; random clause sequences given to the repository's checker; distinct by text");
    proofs(); checker();
    return finish();
}
