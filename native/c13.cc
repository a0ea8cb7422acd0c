// opt: lib=none
#include "nv.h"
#include "candy/mtl/Heap.h"
using namespace nv;
static std::vector<int> key;
struct Lt { bool operator()(int a, int b) const { return key[a] < key[b]; } };
int main(int argc, char** argv) {
    init(argc, argv, "random sequences of grow, insert, removeMin, decrease, increase, update, build and clear over 1..14 elements with many equal keys, against a set; non-trivial: at least 6 operations");
    for (unsigned it = 0; it < scale(60000); it++) {
        int n = 1 + rnd(14); key.assign(n, 0); int range = 1 + rnd(12);
        for (int& k : key) k = rnd(range);
        Glucose::Heap<Lt> h{Lt()}; h.grow(n); std::set<int> ref;
        unsigned ops = 3 + rnd(40); std::string log = "keys";
        for (int k : key) log += " " + std::to_string(k);
        begin(log + " #" + std::to_string(it), ops >= 6);
        for (unsigned o = 0; o < ops && !nfail; o++) {
            int v = rnd(n); unsigned w = rnd(20); bool in = ref.count(v); char b[64];
            auto L = [&](const char* s, int x, int y) { snprintf(b, 64, "; %s(%d,%d)", s, x, y); log += b; current = log; };
            if (w < 6) { if (in) continue; L("insert", v, 0); h.insert(v); ref.insert(v); }
            else if (w < 10) { if (ref.empty()) continue; L("removeMin", 0, 0); int x = h.removeMin(); check(ref.count(x), "removeMin returned an element not contained"); for (int y : ref) check(key[y] >= key[x], "removeMin did not return a minimum"); ref.erase(x); }
            else if (w < 12) { if (!in) continue; int k = key[v] - (int)rnd(4); L("decrease", v, k); key[v] = k; h.decrease(v); }
            else if (w < 14) { if (!in) continue; int k = key[v] + (int)rnd(4); L("increase", v, k); key[v] = k; h.increase(v); }
            else if (w < 17) { int k = rnd(range); L("update", v, k); key[v] = k; h.update(v); ref.insert(v); }
            else if (w == 17) { std::vector<int> ns; for (int i = 0; i < n; i++) if (coin()) ns.push_back(i); for (size_t i = ns.size(); i > 1; i--) std::swap(ns[i - 1], ns[rnd(i)]); L("build", ns.size(), 0); for (int x : ns) { snprintf(b, 64, " %d", x); log += b; } current = log; h.build(ns); ref = std::set<int>(ns.begin(), ns.end()); }
            else if (w == 18 && coin(1, 3)) { L("clear", 0, 0); h.clear(); ref.clear(); }
            else if (w == 19 && n < 20) { n++; key.push_back(rnd(range)); L("grow", n, key.back()); h.grow(n); h.grow(rnd(n)); }
            check(h.size() == (int)ref.size() && h.empty() == ref.empty(), "size");
            for (int i = 0; i < n; i++) check(h.inHeap(i) == (ref.count(i) > 0), "membership of " + std::to_string(i));
            check(!h.inHeap(n), "an element out of range is contained");
            std::set<int> got; for (int i = 0; i < h.size(); i++) got.insert(h[i]); check(got == ref, "content");
        }
        int last = -1000000; unsigned cnt = 0; size_t total = ref.size();
        while (!h.empty() && !nfail && cnt <= total) { int x = h.removeMin(); check(ref.erase(x), "draining returned an element not contained"); check(key[x] >= last, "draining out of order"); last = key[x]; cnt++; }
        check(cnt == total, "draining lost elements");
    }
    return finish();
}
