// opt: lib=gbd/hash.cpp,gbd/md5/md5.cpp,core/CNFProblem.cc,utils/StreamBuffer.cc time=300 opt=-O2
#include "nv.h"
#include <cmath>
#include "candy/core/CNFProblem.h"
#include "candy/gbd/hash.h"
#include "candy/gbd/md5/md5.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::fail; using nv::part; using nv::scale; using nv::nfail;
// MD5 as RFC 1321 states it
struct Ref { uint32_t s[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; uint64_t len = 0; std::string buf; uint32_t K[64];
    Ref() { for (int i = 0; i < 64; i++) K[i] = (uint32_t)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0); }
    void block(const unsigned char* p) { static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; uint32_t M[16]; for (int i = 0; i < 16; i++) M[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
        uint32_t a = s[0], b = s[1], c = s[2], d = s[3]; for (int i = 0; i < 64; i++) { uint32_t f; int g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; } f += a + K[i] + M[g]; a = d; d = c; c = b; int r = R[i / 16][i % 4]; b += f << r | f >> (32 - r); } s[0] += a; s[1] += b; s[2] += c; s[3] += d; }
    void add(const char* p, size_t n) { len += n; size_t k = 0; if (buf.size()) { k = std::min(n, 64 - buf.size()); buf.append(p, k); if (buf.size() == 64) { block((const unsigned char*)buf.data()); buf.clear(); } } for (; k + 64 <= n; k += 64) block((const unsigned char*)p + k); if (k < n) buf.append(p + k, n - k); }
    std::string fin() { uint64_t l = len * 8; std::string pad("\x80"); while ((buf.size() + pad.size()) % 64 != 56) pad += '\0'; for (int i = 0; i < 8; i++) pad += (char)(l >> (8 * i)); add(pad.data(), pad.size()); std::string o; static const char* h = "0123456789abcdef"; for (int i = 0; i < 16; i++) { unsigned c = s[i / 4] >> (8 * (i % 4)) & 255; o += h[c >> 4]; o += h[c & 15]; } return o; } };
static std::string md5ref(const std::string& s) { Ref r; r.add(s.data(), s.size()); return r.fin(); }
static std::string hexs(const unsigned char* g) { char b[64]; md5::sig_to_string(g, b, MD5_STRING_SIZE); return b; }
static uint64_t ndig = 0, npieces = 0, nhash = 0;
int main(int argc, char** argv) {
    nv::init(argc, argv, "byte strings of every length to 300 and random lengths to 4 MB, at once and in random pieces (empty ones included), one beyond 2^29 bytes; random problems in differing layouts; distinct by content and pieces");
    check(md5ref("") == "d41d8cd98f00b204e9800998ecf8427e" && md5ref("message digest") == "f96b697d7cb7938d525a2f31aaf161d0", "[oracle] reference digest");
    for (unsigned i = 0; i < scale(6000) && nfail < 4; i++) {
        size_t n = i < 301 ? i : coin(1, 60) ? rnd(1 << (1 + rnd(22))) : rnd(700); std::string s(n, 0); bool text = coin(1, 3); for (auto& c : s) c = text ? "0123456789 -"[rnd(12)] : (char)nv::rnd();
        std::string want = md5ref(s); unsigned char sig[MD5_SIZE]; char str[MD5_STRING_SIZE]; std::string log = "length " + std::to_string(n) + " digest " + want; nv::begin(log + " at once"); 
        md5::md5_t m(s.data(), (unsigned)n, sig); check(hexs(sig) == want, "digest " + hexs(sig) + " instead of " + want); m.get_string(str); check(std::string(str) == want, "digest text"); unsigned char s2[MD5_SIZE]; m.get_sig(s2); check(!memcmp(s2, sig, MD5_SIZE), "get_sig differs from finish"); unsigned char s3[MD5_SIZE]; md5::sig_from_string(s3, str); check(!memcmp(s3, sig, MD5_SIZE), "reading back the digest text"); ndig++;
        for (int rep = 0; rep < 3; rep++) { md5::md5_t p; size_t k = 0; std::string cut; int style = rnd(4); while (k < n || coin(1, 3)) { size_t c = style == 0 ? rnd(4) : style == 1 ? 60 + rnd(9) : style == 2 ? rnd(200) : rnd((unsigned)n + 1); if (n > 20000) c = c * 500; c = std::min(c, n - k); std::string piece = s.substr(k, c); p.process(piece.data(), (unsigned)c); if (cut.size() < 300) cut += std::to_string(c) + ","; k += c; npieces++; } 
            nv::begin(log + " pieces " + cut); p.finish(sig); check(hexs(sig) == want, "fed in pieces: digest " + hexs(sig) + " instead of " + want); p.process("x", 1); p.finish(s2); p.get_sig(s2); check(!memcmp(s2, sig, MD5_SIZE), "a finished digest changed"); }
    }
    { std::string big(1 << 20, 'q'); for (auto& c : big) c = (char)nv::rnd(); Ref r; md5::md5_t m; int rounds = nv::tier == "thorough" ? 4097 : 513; nv::begin(std::to_string(rounds) + " MB"); alarm(200); for (int i = 0; i < rounds; i++) { r.add(big.data(), big.size()); m.process(big.data(), (unsigned)big.size()); } r.add("tail", 4); m.process("tail", 4); unsigned char sig[MD5_SIZE]; m.finish(sig); std::string w = r.fin(); check(hexs(sig) == w, "digest of " + std::to_string(rounds) + " MB wrong"); }
    for (unsigned i = 0; i < scale(3000) && nfail < 4; i++) { // the hash of a problem: its clause list in order, blank separated, each clause ended by 0
        CNFProblem p, q; std::string t, log; Cl l; int k = rnd(30);
        for (int j = 0; j < k; j++) { l.clear(); std::set<int> d; bool huge = coin(1, 400); for (int z = huge ? 1 + rnd(5000) : coin(1, 15) ? 0 : 1 + rnd(6); z > 0; z--) { int v = huge ? rnd(1 << 16) : coin(1, 20) ? rnd(1 << 29) : rnd(20); if (d.insert(v).second) l.push_back(Lit(v, coin())); } Cl o = l; std::sort(o.begin(), o.end()); if (t.size()) t += " "; for (Lit x : o) { t += std::to_string(2 * (int)x.var() + (x.sign() ? 1 : 0)) + " "; } t += "0"; p.readClause(l); 
            Cl l2 = l; for (size_t z = l2.size(); z > 1; z--) std::swap(l2[z - 1], l2[rnd(z)]); if (l2.size() && coin(1, 3)) l2.push_back(l2[rnd(l2.size())]); q.readClause(l2); if (coin(1, 10)) { Cl ta{Lit(3, false), Lit(5, true), Lit(3, true)}; q.readClause(ta); } }
        nv::begin("problem " + t); nhash++; std::string h = Hash(p).gbd_hash(); check(h == md5ref(t), "hash of the problem is " + h + " instead of " + md5ref(t)); check(Hash(q).gbd_hash() == h, "a problem written with literals in another order, repeated literals and tautologies has another hash"); 
        if (k) { CNFProblem r; bool first = true; for (Cl* c : p) { Cl x = *c; if (first && x.size()) { x.back() = ~x.back(); first = false; } r.readClause(x); } if (!first) check(Hash(r).gbd_hash() != h, "another problem has the same hash"); } }
    part("digests", ndig); part("pieces", npieces); part("problem hashes", nhash);
    return nv::finish();
}
