// opt: lib=none
#include "nv.h"
#include <cassert>
#include <deque>
#include "candy/mtl/Stamp.h"
#include "candy/mtl/BoundedQueue.h"
using namespace nv;
template<class T> static void stamps(unsigned iters, const char* tn) {
    for (unsigned it = 0; it < iters; it++) {
        int n = 1 + rnd(6); Stamp<T> s(n); std::set<int> ref; unsigned ops = 5 + rnd(30);
        std::string log = std::string("Stamp<") + tn + ">(" + std::to_string(n) + ")";
        begin(log + " #" + std::to_string(it), ops >= 8);
        uint64_t near = rnd(4);   // start close to the wrap-around
        if (std::is_same<T, uint8_t>::value) for (uint64_t i = 0, m = rnd(600); i < m; i++) s.clear();
        else if (near == 0) { s.stamp = std::numeric_limits<T>::max() - rnd(3); log += " counter near maximum"; }
        for (unsigned o = 0; o < ops && !nfail; o++) {
            int v = rnd(n); unsigned w = rnd(8); char b[40];
            if (w < 3) { snprintf(b, 40, " set(%d)", v); log += b; current = log; s.set(v); ref.insert(v); }
            else if (w < 4) { snprintf(b, 40, " unset(%d)", v); log += b; current = log; s.unset(v); ref.erase(v); }
            else if (w < 6) { log += " clear"; current = log; s.clear(); ref.clear(); }
            else if (w == 6) { log += " grow"; current = log; s.grow(); n++; }
            else { int m = rnd(n + 3); snprintf(b, 40, " grow(%d)", m); log += b; current = log; s.grow(m); n = std::max(n, m); }
            check((int)s.size() == n, "size");
            for (int i = 0; i < n; i++) { check(s[i] == (ref.count(i) > 0), "mark of " + std::to_string(i)); check(s.isStamped(i) == (ref.count(i) > 0), "isStamped " + std::to_string(i)); }
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv, "random sequences of set/unset/clear/grow on mark sets with 8, 32 and 1 bit counters (many clears, counters near the maximum), and push/pop/fastclear on bounded queues of capacity 1..7, against a set and a deque; non-trivial: at least 8 operations");
    stamps<uint8_t>(scale(8000), "uint8_t"); stamps<uint32_t>(scale(12000), "uint32_t"); stamps<uint16_t>(scale(2000), "uint16_t");
    for (unsigned it = 0; it < scale(30000); it++) {
        unsigned cap = 1 + rnd(7); Candy::bqueue<uint32_t> q(cap); std::deque<uint32_t> ref; unsigned ops = 4 + rnd(40);
        std::string log = "bqueue(" + std::to_string(cap) + ")"; begin(log + " #" + std::to_string(it), ops >= 8); bool pops = coin();
        for (unsigned o = 0; o < ops && !nfail; o++) {
            unsigned w = rnd(12); char b[40];
            if (w < 8 || (w < 11 && !pops)) { uint32_t x = rnd(1u << (1 + rnd(16))); snprintf(b, 40, " push(%u)", x); log += b; current = log; q.push(x); ref.push_back(x); if (ref.size() > cap) ref.pop_front(); }
            else if (w < 11) { if (ref.empty()) continue; log += " pop"; current = log; q.pop(); ref.pop_front(); }
            else { log += " fastclear"; current = log; q.fastclear(); ref.clear(); }
            uint32_t sum = 0; for (uint32_t x : ref) sum += x;
            check(q.size() == ref.size() && q.isvalid() == (ref.size() == cap) && q.maxSize() == cap, "size"); check(q.getsum() == sum, "sum");
            if (!ref.empty()) { check(q.peek() == ref.front(), "oldest element"); check(q.getavg() == sum / ref.size(), "average"); }
        }
    }
    return finish();
}
