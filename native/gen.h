#pragma once
// shared by the drivers on gates
#include "nv.h"
using nv::rnd; using nv::coin; using nv::Cnf;
typedef nv::Cl C;
// random circuit (with roots), some of it damaged
static Cnf circuit(int& n) {
    Cnf f; int ni = 2 + rnd(5); n = ni; std::vector<int> w; for (int i = 1; i <= ni; i++) w.push_back(i);
    int ng = 1 + rnd(7); auto pick = [&]() { int x = w[coin(1, 3) ? w.size() - 1 : rnd(w.size())]; return coin() ? x : -x; };
    for (int i = 0; i < ng; i++) {
        int o = ++n, k = 1 + rnd(4); C in; for (int j = 0; j < k; j++) { int x = pick(); bool dup = false; for (int y : in) dup = dup || std::abs(y) == std::abs(x); if (!dup) in.push_back(x); }
        Cnf g; int kind = rnd(7);
        if (kind == 0) { C c{-o}; for (int x : in) { c.push_back(x); g.push_back({o, -x}); } g.push_back(c); }
        else if (kind == 1) { C c{o}; for (int x : in) { c.push_back(-x); g.push_back({-o, x}); } g.push_back(c); }
        else if (kind == 2) { for (unsigned m = 0; m < (1u << in.size()); m++) { C c; bool par = false; for (size_t j = 0; j < in.size(); j++) { bool b = m >> j & 1; par ^= b; c.push_back(b ? -in[j] : in[j]); } c.push_back(par ? o : -o); g.push_back(c); } }
        else if (kind == 3) { unsigned tt = rnd(1u << (1u << std::min<size_t>(3, in.size()))); if (in.size() > 3) in.resize(3); for (unsigned m = 0; m < (1u << in.size()); m++) { C c; for (size_t j = 0; j < in.size(); j++) c.push_back(m >> j & 1 ? -in[j] : in[j]); c.push_back(tt >> m & 1 ? o : -o); g.push_back(c); } }
        else if (kind == 4 && in.size() >= 3) { int s = in[0], a = in[1], b = in[2]; g = {{-s, -a, o}, {-s, a, -o}, {s, -b, o}, {s, b, -o}}; }
        else if (kind == 5) { // blocked but often loose definitions
            for (int q = 1 + rnd(3); q > 0; q--) { C c{-o}; for (int x : in) if (coin(2, 3)) c.push_back(coin() ? x : -x); g.push_back(c); } for (int q = rnd(3); q > 0; q--) { C c{o}; for (int x : in) if (coin(2, 3)) c.push_back(coin() ? x : -x); g.push_back(c); } }
        else { // pairs of mutually blocked clause groups, repeated clauses
            int m = 2 + rnd(2); C v; for (int j = 0; j < m && j < (int)in.size(); j++) v.push_back(in[j]); C a, b; for (int x : v) { bool s = coin(); a.push_back(s ? x : -x); b.push_back(coin() ? x : -x); }
            for (int q = 0; q < (1 << (int)v.size()) / 4 + (int)rnd(2); q++) for (int h = 0; h < 2; h++) { C c{-o}, d{o}; for (int x : a) c.push_back(h ? -x : x); for (int x : b) d.push_back(h ? -x : x); g.push_back(c); g.push_back(d); } }
        if (coin(1, 6) && g.size() > 1) g.erase(g.begin() + rnd(g.size()));
        if (g.size() && coin(1, 10)) g.push_back(g[rnd(g.size())]);
        if (g.size() && coin(1, 8)) { size_t k = rnd(g.size()); g[k].push_back(coin() ? ++n : coin() ? pick() : -(++n)); } // a literal foreign to the gate
        for (auto& c : g) f.push_back(c);
        if (coin(5, 6)) w.push_back(o);
    }
    for (int r = 1 + rnd(2); r > 0; r--) { C c; for (int k = coin(2, 3) ? 1 : 1 + rnd(3); k > 0; k--) c.push_back(pick()); f.push_back(c); }
    if (coin(1, 4)) for (int r = rnd(3); r > 0; r--) f.push_back(nv::randclause(n, 1 + rnd(3)));
    for (size_t i = f.size(); i > 1; i--) if (coin(1, 3)) std::swap(f[i - 1], f[rnd(i)]);
    return f;
}
