// opt: lib=core/CNFProblem.cc,utils/StreamBuffer.cc
#include "nv.h"
#include <fcntl.h>
#include <zlib.h>
#include "candy/core/CNFProblem.h"
#include "candy/utils/Exceptions.h"
using namespace Candy;
using nv::rnd; using nv::coin; using nv::check; using nv::part; using nv::scale; using nv::nfail;
typedef std::vector<int> C;
struct Exp { std::vector<C> cls; unsigned nvars = 0; };
static void take(Exp& e, C c) {
    for (int x : c) e.nvars = std::max(e.nvars, (unsigned)std::abs(x));
    std::sort(c.begin(), c.end(), [](int a, int b) { return std::make_pair(std::abs(a), a < 0) < std::make_pair(std::abs(b), b < 0); });
    c.erase(std::unique(c.begin(), c.end()), c.end());
    for (size_t i = 0; i + 1 < c.size(); i++) if (c[i] == -c[i + 1]) return;
    e.cls.push_back(c);
}
static int ext(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
static Exp got(CNFProblem& p) { Exp e; for (Cl* c : p) { C d; for (Lit l : *c) d.push_back(ext(l)); e.cls.push_back(d); } e.nvars = p.nVars(); return e; }
static std::string ws(bool line) { static const char* w = " \t\n\r\v\f"; std::string s; int k = coin(3, 4) ? 1 : 1 + rnd(5); for (int i = 0; i < k; i++) s += coin(2, 3) ? ' ' : w[rnd(6)]; if (line && coin()) s += "\n"; return s; }
static std::string junk() { static const char* a = "abcxyzXp %#-0123456789()\t;:~\xc3\xa4\xff"; std::string s; for (int k = rnd(30); k > 0; k--) s += a[rnd(strlen(a))]; return s; }
static std::string comment() { return "c" + std::string(coin(4, 5) ? " " : "") + junk() + "\n"; }
static int var() { switch (rnd(12)) { case 0: return 1 + rnd((1u << 30) - 1); case 1: return (1 << 30) - 1 - rnd(3); case 2: return 1 + rnd(100000); default: return 1 + rnd(12); } }
static C clause() { C c; if (coin(1, 12)) return c; int k = 1 + rnd(coin(1, 20) ? 60 : 6); for (; k > 0; k--) { c.push_back(coin() ? var() : -var()); if (coin(1, 8)) c.push_back(c[rnd(c.size())]); if (coin(1, 25)) c.push_back(-c[rnd(c.size())]); } return c; }
static std::string num(int x) { std::string s = std::to_string(std::abs(x)); if (coin(1, 30)) s = std::string(1 + rnd(3), '0') + s; return (x < 0 ? "-" : "") + s; }
static std::string text(const C& c, int style) { 
    std::string s; for (int x : c) s += num(x) + (style == 0 ? std::string(" ") : style == 1 ? std::string("\n") : ws(false));
    s += coin(1, 30) ? "00" : "0"; return s; }
static std::string header(int v, size_t n) { std::string s = "p cnf"; s += coin(4, 5) ? " " : "   "; s += std::to_string(v) + (coin(4, 5) ? " " : "\t ") + std::to_string(n); return s + "\n"; }
static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (o.size() > 1500) { o += "..."; break; } if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o; }
static void put(const char* f, const std::string& s, bool gz) { 
    if (gz) { gzFile o = gzopen(f, "wb1"); if (s.size()) gzwrite(o, s.data(), s.size()); gzclose(o); }
    else { FILE* o = fopen(f, "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); } }
static std::string diff(const Exp& a, const Exp& b) { 
    if (a.nvars != b.nvars) return "number of variables " + std::to_string(b.nvars) + " instead of " + std::to_string(a.nvars);
    for (size_t i = 0; i < a.cls.size() && i < b.cls.size(); i++) if (a.cls[i] != b.cls[i]) return "clause " + std::to_string(i) + " is " + nv::show(b.cls[i]) + " instead of " + nv::show(a.cls[i]);
    if (a.cls.size() != b.cls.size()) return std::to_string(b.cls.size()) + " clauses instead of " + std::to_string(a.cls.size());
    return ""; }
static const char* F = "in.cnf"; static const char* G = "out.cnf";
static bool parse(const char* f, CNFProblem& p, std::string& err) { try { p.readDimacsFromFile(f); return true; } catch (std::exception& e) { err = e.what(); return false; } }
static uint64_t nbig = 0, nbad = 0, nrt = 0, nok = 0;
static void good(const std::string& t, const Exp& e, const std::string& what) {
    CNFProblem p; std::string err;
    bool r = parse(F, p, err);
    check(r, "well-formed input rejected (" + esc(err) + "): " + what); if (!r) return;
    Exp g = got(p); std::string d = diff(e, g);
    check(d.empty(), "[read] " + d + ": " + what); nok++;
    if (d.empty() && (t.size() < 4000 || coin(1, 8))) { // write and read back
        fflush(stdout); int sv = dup(1); int fd = open(G, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); close(fd);
        std::cout.clear(); p.printDIMACS(); std::cout.flush(); std::cout.setstate(std::ios::failbit); fflush(stdout); dup2(sv, 1); close(sv);
        CNFProblem q; bool rr = parse(G, q, err); check(rr, "[round trip] text written for a problem rejected: " + what); if (!rr) return;
        Exp h = got(q); Exp e2 = g; e2.nvars = 0; for (auto& c : e2.cls) for (int x : c) e2.nvars = std::max(e2.nvars, (unsigned)std::abs(x));
        std::string dd = diff(e2, h); check(dd.empty(), "[round trip] " + dd + ": " + what); nrt++;
    }
}
int main(int argc, char** argv) {
    nv::init(argc, argv, "random DIMACS texts with every kind of white space, layout, comments, header, repeated and opposite literals, empty clauses and boundary variables, plain and compressed, up to 3 MB with clauses laid over the buffer ends; malformed variants of them; distinct by text");
    for (unsigned i = 0; i < scale(6000) && nfail < 4; i++) {
        std::string t; Exp e; bool hd = coin(9, 10); std::string body; int n = rnd(14); size_t k = 0;
        for (int j = 0; j < n; j++) {
            if (coin(1, 6)) body += comment();
            C c = clause(); body += text(c, rnd(3)) + (coin(1, 3) ? " " : "\n"); take(e, c); k++;
            if (coin(1, 8)) body += ws(true);
        }
        if (coin(1, 4)) while (body.size() && isspace(body.back())) body.pop_back();
        while (coin(1, 4)) t += comment(); if (coin(1, 10)) t += ws(true);
        if (hd) t += header(e.nvars, k); t += body;
        nv::begin(esc(t)); put(F, t, coin(1, 3)); good(t, e, esc(t));
        if (i % 3 == 0) { // programmatic interface
            CNFProblem p; Exp e2; for (int j = rnd(5); j > 0; j--) { C c = clause(); Cl l; for (int x : c) l.push_back(Lit(std::abs(x) - 1, x < 0)); p.readClause(l); take(e2, c); }
            std::string d = diff(e2, got(p)); check(d.empty(), "[readClause] " + d); 
            if (n) { For f; std::vector<Cl> keep; for (Cl* c : p) keep.push_back(*c); for (Cl& c : keep) f.push_back(&c); CNFProblem q; q.readClauses(f); Exp e3; for (Cl& c : keep) { C d2; for (Lit l : c) d2.push_back(ext(l)); take(e3, d2); } d = diff(e3, got(q)); check(d.empty(), "[readClauses] " + d); }
        }
        // malformed: a junk token, a missing end, a number out of range, a bad header
        if (k) {
            std::string m = t, what; C last;
            switch (rnd(5)) {
            case 0: { static const char* J[] = {"x", "1x", "%", "a1", "-", "+", "--3", "0x", ".5", "1.5", "d", "#", "1,2", "\x01"}; std::string s = J[rnd(14)]; m = t + "\n1 " + s + " 0\n"; what = "junk token"; break; }
            case 1: m = t + "\n1 2" + (coin() ? "\n" : coin() ? "" : " \n \n"); what = "last clause without its zero"; break;
            case 2: { static const char* J[] = {"1073741824", "-1073741824", "1073741825", "2147483647", "-2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "-4294967297", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551617", "99999999999999999999999", "-99999999999999999999999"}; m = t + "\n1 " + J[rnd(17)] + " 0\n"; what = "number out of range"; break; }
            case 3: { static const char* J[] = {"p cnf\n", "p cnf 3\nx", "p dnf 3 4\n", "p cnf -3 4\n", "p cnf 3 -4\n", "p cnf x y\n", "pcnf 3 4\n", "p cnf a\n", "p  cn", "p c f 3 4\n", "p cn  3 4\n", "p  nf 3 4\n", "p c\nf 3 4\n"}; m = std::string(J[rnd(13)]) + "c\n"; what = "bad header"; break; }
            case 4: m = t + "\n1 2\nc comment\n 3 0\n"; what = "comment inside a clause"; break;
            }
            nv::begin(esc(m)); put(F, m, coin(1, 4)); CNFProblem p; std::string err; bool r = parse(F, p, err); nbad++;
            check(!r, "[malformed] " + what + " accepted: " + esc(m));
        }
    }
    // texts longer than the reading buffer, clauses laid over its ends
    const size_t B = 1024 * 1024;
    for (unsigned i = 0; i < scale(70) && nfail < 4; i++) {
        std::string t; Exp e; size_t goal = B * (1 + rnd(coin(1, 3) ? 3 : 1)); int style = rnd(4); int at = (int)rnd(40) - 20;
        std::string what = "text of " + std::to_string(goal) + " bytes and more, style " + std::to_string(style) + ", offset " + std::to_string(at); nv::begin(what + " #" + std::to_string(i));
        t += header(0, 1000);
        size_t next = B;
        while (t.size() < goal + 300) {
            size_t room = next + at > t.size() ? next + at - t.size() : 0;
            if (room > 700) {
                if (style == 3 && coin(1, 4)) { t += "c " + std::string(std::min<size_t>(room - 600, 1 + rnd(200000)), coin() ? 'x' : ' ') + "\n"; continue; }
                C c; for (int k = 1 + rnd(40); k > 0; k--) c.push_back(coin() ? 1 + rnd(99999) : -1 - (int)rnd(99999)); 
                if (style == 2) { std::string s; for (int x : c) s += std::to_string(x) + " "; t += s + "0 "; } else t += text(c, style == 3 ? 2 : style) + "\n";
                take(e, c); continue; }
            if (room) { // fill up exactly to the wanted offset from the buffer end
                if (room == 1) t += coin() ? " " : "\n"; else { char s = coin() ? ' ' : '\n'; t += std::string(room - 1, s) + "\n"; } }
            C c; for (int k = 3 + rnd(20); k > 0; k--) c.push_back(coin() ? 1 + rnd(1000000000) : -1 - (int)rnd(1000000000)); if (coin(1, 6)) c.clear();
            t += text(c, style == 2 ? 0 : rnd(3)) + (style == 2 ? " " : "\n"); take(e, c); if (coin(1, 4) && style != 2) t += comment(); next += B;
        }
        put(F, t, coin(1, 3)); good(t, e, what); nbig++;
        if (coin(1, 6)) { std::string m = t + "7 "; put(F, m, false); CNFProblem p; std::string err; check(!parse(F, p, err), "[malformed] last clause without its zero accepted, " + what); nbad++; }
    }
    { std::string t = "p cnf 3 2\nc " + std::string(3 * B, 'y') + "\n1 -2 0\nc" + std::string(B + 17, 'z') + "\n-3 0\n"; Exp e; take(e, {1, -2}); take(e, {-3}); nv::begin("comment lines longer than the buffer"); put(F, t, false); good(t, e, "comment lines longer than the buffer"); }
    { CNFProblem p; std::string err; nv::begin("missing file"); check(!parse("no/such/file", p, err), "reading a file that does not exist reports no error"); }
    part("texts accepted and compared", nok); part("round trips", nrt); part("malformed texts", nbad); part("texts longer than the buffer", nbig);
    unlink(F); unlink(G);
    return nv::finish();
}
