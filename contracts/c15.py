"""Contracts of gate recognition (C15)."""
from lib import *
from contract import Contract, contract, method
from sym import Undecided


class BL(Contract):
    prop = 'C15'
    tu = 'gates'

    def two(self, st, b):
        self.co, self.do = b.obj('c1'), b.obj('c2')
        self.c = b.vec(self.co, 0, 'C1', maxlen=1 << 30)
        self.d = b.vec(self.do, 0, 'C2', maxlen=1 << 30)


@contract
class Pair(BL):
    name = 'blocklist.isBlocked.pair'
    root = 'w_bl_pair'
    says = 'isBlocked(o, c1, c2) exactly if some literal of c1 other than o is the negation of a literal of c2: resolving the two on o gives a tautology; nothing changes'

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.o = b.obj('B')
        self.two(st, b)
        self.p = p = Int('o')
        st.assume(p >= 0)
        for v in (self.c, self.d):
            st.assume(E.forall(ZERO, v.len(st), lambda k: And(v.get(st, k) >= 0, v.get(st, k) < (1 << 31) - 2)))
        return [Ptr(self.o), p, Ptr(self.co), Ptr(self.do)]

    def clash(self, i, lo, hi):
        o = self.E.old
        return self.E.forall(lo, hi, lambda j: self.c.get(o, i) != neg(self.d.get(o, j)))

    def inv(self, c):
        E, o = self.E, self.E.old
        n, m = self.c.len(o), self.d.len(o)
        at = [(l, E.pidx(x)) for l, x in c.vals() if isinstance(x, Ptr) and x.r is self.c.r]
        for l, x in at:
            yield 'first ' + l, And(x >= 0, x <= n)
            yield 'none so far ' + l, E.forall(ZERO, x, lambda i: Implies(self.c.get(o, i) != self.p, self.clash(i, ZERO, m)))
        for l, y in [(l, E.pidx(y)) for l, y in c.vals() if isinstance(y, Ptr) and y.r is self.d.r]:
            yield 'second ' + l, And(y >= 0, y <= m)
            for l2, x in at:
                yield 'not this one so far %s %s' % (l, l2), self.clash(x, ZERO, y)

    def post(self, c):
        E, o = self.E, self.E.old
        n, m = self.c.len(o), self.d.len(o)
        yield 'answer', c.ret == E.exists(ZERO, n, lambda i: And(self.c.get(o, i) != self.p, E.exists(ZERO, m, lambda j: self.c.get(o, i) == neg(self.d.get(o, j)))))


@contract
class One(BL):
    name = 'blocklist.isBlocked.clause'
    root = 'w_bl_clause'
    says = 'isBlocked(o, c) exactly if c is blocked on o by every clause of the index of the negation of o'
    noinline = [r'BlockList::isBlocked\(Candy::Lit, std::vector<Candy::Lit, std::allocator<Candy::Lit> ?>&, ']

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.o = b.obj('B')
        self.p = p = Int('o')
        self.cid = Int('c')
        self.cl = E.region('Cl', fixed={0: (8, 'i64')}, fam=True)
        self.idx = b.nested(self.o, 'OFF_BL_index', 'index', 8, {0: (8, PK(self.cl))}, n=None)
        self.q = neg(p)
        st.assume(And(p >= 0, self.cid > 0, self.q < self.idx.len(st), p < (1 << 31) - 2, self.idx.count(st, self.q) >= 0))
        st.assume(E.forall(ZERO, self.idx.count(st, self.q), lambda k: self.idx.item(st, self.q, k, 0) > 0))
        self.blk = z3.Function('blocked', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        return [Ptr(self.o), p, Ptr(self.cl, self.cid, 0)]

    @method
    def h_pair(self, E, st, args, I):
        a, l, c, d = args[:4]
        if c.r is not self.cl or d.r is not self.cl:
            raise Undecided('clause')
        return self.blk(l, c.id, d.id)

    def all(self, hi):
        o = self.E.old
        return self.E.forall(ZERO, hi, lambda k: self.blk(self.p, self.cid, self.idx.item(o, self.q, k, 0)))

    def inv(self, c):
        E, o = self.E, self.E.old
        for l, x in [(l, E.pidx(x)) for l, x in c.vals() if isinstance(x, Ptr) and x.r is self.idx.data]:
            yield 'position ' + l, And(x >= 0, x <= self.idx.count(o, self.q))
            yield 'blocked so far ' + l, self.all(x)

    def post(self, c):
        yield 'answer', c.ret == self.all(self.idx.count(self.E.old, self.q))


One.handlers = [(r'BlockList::isBlocked\(Candy::Lit, std::vector<Candy::Lit, std::allocator<Candy::Lit> ?>&, ', One.h_pair, 'by contract blocklist.isBlocked.pair')]
