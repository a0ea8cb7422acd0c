#pragma once
// shared by the native drivers: the bounded stand-ins and replays run on the compiled code of the repository
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <fstream>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>

namespace nv {
static uint64_t rng_s = 88172645463325252ull;
static inline uint64_t rnd() { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return rng_s * 2685821657736338717ull; }
static inline unsigned rnd(unsigned n) { return n ? (unsigned)((rnd() >> 33) % n) : 0; }
static inline bool coin(unsigned a = 1, unsigned b = 2) { return rnd(b) < a; }
static uint64_t evaluations = 0;
static std::unordered_set<uint64_t> seen;
static int nfail = 0, nsample = 0;
static std::string tier = "quick";
static std::string current;
static FILE* real_out = nullptr;
static double t_start;
static inline double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
static inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static void out(const char* k, const std::string& s) {
    std::string t = s; for (char& c : t) if (c == '\n') c = ';';
    fprintf(real_out, "%s %s\n", k, t.c_str()); fflush(real_out);
}
static void wd(int) { 
    const char m[] = "FAIL [hang] a case did not finish within the watchdog time: ";
    (void)!write(fileno(real_out), m, sizeof m - 1);
    std::string c = current; for (char& x : c) if (x == '\n') x = ';';
    (void)!write(fileno(real_out), c.c_str(), c.size()); (void)!write(fileno(real_out), "\n", 1);
    _exit(3);
}
static void crash(int sig) {
    char m[64]; int n = snprintf(m, sizeof m, "FAIL crash (signal %d) on: ", sig);
    (void)!write(fileno(real_out), m, n);
    std::string c = current; for (char& x : c) if (x == '\n') x = ';';
    (void)!write(fileno(real_out), c.c_str(), c.size()); (void)!write(fileno(real_out), "\n", 1);
    _exit(4);
}
#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void death() { std::string c = "FAIL memory error reported by the address sanitizer on: " + current; for (char& x : c) if (x == '\n') x = ';'; c += "\n"; (void)!write(fileno(real_out), c.c_str(), c.size()); }
#endif
static void init(int argc, char** argv, const char* rule) {
    unsigned seed = argc > 1 ? atoi(argv[1]) : 1;
    if (argc > 2) tier = argv[2];
    rng_s += 0x9E3779B97F4A7C15ull * (seed + 1); for (int i = 0; i < 20; i++) rnd();
    real_out = fdopen(dup(1), "w");
    // the code under test may chat on stdout
    (void)!freopen("/dev/null", "w", stdout);
    std::cout.setstate(std::ios::failbit);
    signal(SIGALRM, wd);
#ifdef __SANITIZE_ADDRESS__
    __sanitizer_set_death_callback(death);
#endif
#ifndef __SANITIZE_ADDRESS__
    signal(SIGSEGV, crash); signal(SIGBUS, crash); signal(SIGFPE, crash);
#endif
    signal(SIGABRT, crash);
    out("RULE", rule);
    t_start = now();
}
static inline unsigned scale(unsigned q) { return tier == "thorough" ? q * 8 : q; }
// begin a case: text identifies it
static inline void begin(const std::string& text, bool nontrivial = true) {
    evaluations++; current = text; alarm(100);
    if (nontrivial) { if (seen.size() < 4000000) seen.insert(hash(text)); }
    if (nsample < 6 && nontrivial && (evaluations & (evaluations - 1)) == 0 && evaluations >= 8) { nsample++; out("SAMPLE", text.substr(0, 600)); }
}
static inline void fail(const std::string& what) {
    nfail++;
    out("FAIL", what + " :: " + current.substr(0, 3000));
    if (nfail >= 5) { out("END", ""); _exit(1); }
}
static inline void check(bool ok, const std::string& what) { if (!ok) fail(what); }
static inline void part(const std::string& p, uint64_t n) { out("PART", p + " " + std::to_string(n)); }
static int finish() {
    alarm(0);
    out("COUNT", std::to_string(evaluations) + " " + std::to_string(seen.size()));
    out("END", "");
    fflush(real_out);
    _exit(nfail ? 1 : 0);
}

// ------------------------------------------------------------------ formulas in signed numbering, and an independent oracle
typedef std::vector<int> Cl;
typedef std::vector<Cl> Cnf;
static inline std::string show(const Cl& c) { std::string s = "("; for (size_t i = 0; i < c.size(); i++) s += (i ? " " : "") + std::to_string(c[i]); return s + ")"; }
static inline std::string show(const Cnf& f) { std::string s; for (auto& c : f) s += show(c); return s; }
static inline int nvars(const Cnf& f) { int n = 0; for (auto& c : f) for (int l : c) n = std::max(n, std::abs(l)); return n; }

// plain DPLL with counters; independent of the code under test
struct Dpll {
    int n; const Cnf& f; std::vector<signed char> val; std::vector<std::vector<int>> occ;
    uint64_t budget = 4000000;
    Dpll(const Cnf& f_, int n_) : n(std::max(n_, nvars(f_))), f(f_), val(n + 1, 0), occ(2 * n + 2) {
        for (size_t i = 0; i < f.size(); i++) for (int l : f[i]) occ[l > 0 ? 2 * l : -2 * l + 1].push_back(i);
    }
    int v(int l) { int x = val[std::abs(l)]; return l > 0 ? x : -x; }
    bool prop(std::vector<int>& tr, size_t q) {
        for (; q < tr.size(); q++) {
            int l = -tr[q];
            for (int ci : occ[l > 0 ? 2 * l : -2 * l + 1]) {
                int un = 0, u = 0; bool sat = false;
                for (int x : f[ci]) { int y = v(x); if (y > 0) { sat = true; break; } if (y == 0 && x != u) { un++; u = x; if (un > 1) break; } }
                if (sat || un > 1) continue;
                if (un == 0) return false;
                val[std::abs(u)] = u > 0 ? 1 : -1; tr.push_back(u);
            }
        }
        return true;
    }
    bool rec() {
        if (budget == 0) return false; budget--;
        int best = 0, bl = 1 << 30;
        for (auto& c : f) {
            int un = 0, u = 0; bool sat = false;
            for (int x : c) { int y = v(x); if (y > 0) { sat = true; break; } if (y == 0) { un++; u = x; } }
            if (!sat && un == 0) return false;
            if (!sat && un < bl) { bl = un; best = u; }
        }
        if (!best) return true;
        for (int s : {1, -1}) {
            std::vector<int> tr{best * s}; val[std::abs(best)] = best * s > 0 ? 1 : -1;
            if (prop(tr, 0) && rec()) return true;
            for (int l : tr) val[std::abs(l)] = 0;
        }
        return false;
    }
    // 1 sat, 0 unsat, -1 gave up
    int solve(const Cl& assum = Cl()) {
        std::fill(val.begin(), val.end(), 0);
        std::vector<int> tr;
        for (int a : assum) { if (v(a) < 0) return 0; if (v(a) == 0) { val[std::abs(a)] = a > 0 ? 1 : -1; tr.push_back(a); } }
        for (auto& c : f) {
            if (c.empty()) return 0;
            bool same = true; for (int l : c) same = same && l == c[0];
            if (same) { if (v(c[0]) < 0) return 0; if (v(c[0]) == 0) { val[std::abs(c[0])] = c[0] > 0 ? 1 : -1; tr.push_back(c[0]); } }
        }
        if (!prop(tr, 0)) return 0;
        bool r = rec();
        if (!r && budget == 0) return -1;
        return r;
    }
};
static inline int sat(const Cnf& f, int n, const Cl& assum = Cl()) { 
    for (int a : assum) n = std::max(n, std::abs(a));
    Dpll d(f, n); return d.solve(assum); }
static inline bool implied(const Cnf& f, int n, const Cl& c) { Cl a; for (int l : c) { a.push_back(-l); n = std::max(n, std::abs(l)); } return sat(f, n, a) == 0; }

static inline Cl randclause(int n, int k, bool distinct = true) {
    Cl c; 
    while ((int)c.size() < k) { int v = 1 + rnd(n); int l = coin() ? v : -v; 
        if (distinct) { bool dup = false; for (int x : c) dup = dup || std::abs(x) == v; if (dup) { if ((int)c.size() >= n) break; continue; } }
        c.push_back(l); }
    return c;
}
static inline Cnf randcnf(int n, int m, int kmin = 1, int kmax = 3, bool distinct = true) { Cnf f; for (int i = 0; i < m; i++) f.push_back(randclause(n, std::min(n, kmin + (int)rnd(kmax - kmin + 1)), distinct)); return f; }
}
