// opt: lib=all time=400 opt=-O1
#include "e2e.h"
using namespace nv;
int main(int argc, char** argv) {
    init(argc, argv, "solver sessions of 1..4 incremental calls with assumptions on formulas of up to 40 variables (random k-SAT, gate circuits, parity, pigeonhole, wide and degenerate clauses) under random solver variants and options; a case is non-trivial if the formula has more than two clauses");
    unsigned N = scale(20000);
    for (unsigned it = 0; it < N; it++) session(false, true, it % 40 != 7, it);
    return finish();
}
