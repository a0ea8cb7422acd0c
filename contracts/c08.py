from lib import *
from contract import Contract, contract


class ClC(Contract):
    prop = 'C08'
    tu = 'clause'

    def setup(self, st):
        b = B(self.E, st)
        self.c = b.clause('C')
        return [Ptr(self.c.r)] + self.args(st)

    def args(self, st):
        return []

    def w(self, st):
        return self.E.rd(st, self.c.r, None, ('f', 2))

    def lits(self, st):
        o = self.E.old
        return 'literals unchanged', And(self.c.len(st) == self.c.len(o), self.E.forall(ZERO, self.c.len(o), lambda k: self.c.get(st, k) == self.c.get(o, k)))

    def same(self, st):
        yield self.lits(st)
        yield 'weight unchanged', self.w(st) == self.w(self.E.old)


def reg(nm, words, argsf, pf, invf=None, also_=()):
    @contract
    class K(ClC):
        name = 'clause.' + nm
        root = 'w_clause_' + nm
        says = words
        also = also_

        def args(self, st):
            return argsf(self, st)

        def inv(self, c):
            return invf(self, c) if invf else ()

        def post(self, c):
            return pf(self, c, c.st, self.E.old)


def none(s, st):
    return []


def lit(s, st):
    s.p = Int('p')
    st.assume(And(s.p >= 0, s.p < (1 << 31)))
    return [s.p]


def idx(s, st):
    s.i, s.j = Int('i'), Int('j')
    st.assume(And(s.i >= 0, s.i < s.c.len(st), s.j >= 0, s.j < s.c.len(st)))
    return [s.i, s.j]


def i1(s, st):
    return idx(s, st)[:1]


def atleast(n):
    def f(s, st):
        st.assume(s.c.len(st) >= n)
        return []
    return f


def lbd(s, st):
    s.l = Int('lbd')
    st.assume(And(s.l >= 0, s.l < 65536))
    return [s.l]


def u16(x):
    return If(x < 0, x + 65536, x)


reg('swap', 'swap(i, j) exchanges two literals and changes nothing else', idx, lambda s, c, st, o: [
    ('exchanged, others in place', s.E.forall(ZERO, s.c.len(o), lambda k: s.c.get(st, k) == If(k == s.i, s.c.get(o, s.j), If(k == s.j, s.c.get(o, s.i), s.c.get(o, k))))),
    ('length and weight unchanged', And(s.c.len(st) == s.c.len(o), s.w(st) == s.w(o)))], also_=('C03', 'C06'))
reg('contains', 'contains(p) exactly if p is a literal of the clause', lit, lambda s, c, st, o: [('answer', c.ret == s.c.has(o, s.p))] + list(s.same(st)),
    lambda s, c: [('not before ' + l, s.E.forall(ZERO, v, lambda j: s.c.get(c.st, j) != s.p)) for l, v, _ in c.scalars()], also_=('C06',))
reg('kind', 'persistent, learnt and deleted are told from the weight: 0 persistent, positive learnt, 65535 deleted', none, lambda s, c, st, o: [
    ('answers', c.ret == If(u16(s.w(o)) == 0, 1, If(u16(s.w(o)) == 65535, 6, 2)))] + list(s.same(st)), also_=('C19',))
reg('lbd', 'getLBD is the stored weight', none, lambda s, c, st, o: [('answer', c.ret == u16(s.w(o)))] + list(s.same(st)), also_=('C19',))
reg('size', 'size is the number of literals', none, lambda s, c, st, o: [('answer', c.ret == s.c.len(o))] + list(s.same(st)))
reg('at', 'c[i] is the i-th literal', i1, lambda s, c, st, o: [('answer', c.ret == s.c.get(o, s.i))] + list(s.same(st)))
reg('first', 'first is literal 0', atleast(1), lambda s, c, st, o: [('answer', c.ret == s.c.get(o, ZERO))] + list(s.same(st)))
reg('second', 'second is literal 1', atleast(2), lambda s, c, st, o: [('answer', c.ret == s.c.get(o, IntVal(1)))] + list(s.same(st)))
reg('third', 'third is literal 2', atleast(3), lambda s, c, st, o: [('answer', c.ret == s.c.get(o, IntVal(2)))] + list(s.same(st)))
reg('back', 'back is the last literal', atleast(1), lambda s, c, st, o: [('answer', c.ret == s.c.get(o, s.c.len(o) - 1))] + list(s.same(st)))
reg('setDeleted', 'setDeleted gives the weight that marks a clause as deleted and touches nothing else', none, lambda s, c, st, o: [('weight', u16(s.w(st)) == 65535), s.lits(st)], also_=('C19',))
reg('setPersistent', 'setPersistent gives the weight of an original clause and touches nothing else', none, lambda s, c, st, o: [('weight', s.w(st) == 0), s.lits(st)], also_=('C19', 'C06'))
reg('setLBD', 'setLBD stores the weight and touches nothing else', lbd, lambda s, c, st, o: [('weight', u16(s.w(st)) == s.l), s.lits(st)], also_=('C19',))


@contract
class Make(Contract):
    prop = 'C08'
    tu = 'clause'
    name = 'clause.construct'
    root = 'w_clause_make'
    says = 'a clause built from a range of up to 65535 literals holds exactly these literals in this order, their number as length, and the given weight; the range is unchanged'

    def setup(self, st):
        E = self.E
        b = B(E, st)
        r = E.region('C', fixed={0: I16, 2: I16}, start=4, stride=4, fields={0: I32})
        self.o = b.obj('V')
        self.v = b.vec(self.o, 0, 'V.data', maxlen=65536)
        n = self.v.len(st)
        r.length = lambda s, id: If(n > 0, n, IntVal(1))   # memory for as many literals as the range has (a page keeps at least one spare)
        self.c = Clause(E, r)
        self.l = Int('lbd')
        st.assume(And(self.l >= 0, self.l < 65536))
        return [Ptr(r), Ptr(self.o), self.l]

    def inv(self, c):
        s, E = c.st, self.E
        for l, x, x0 in c.scalars():
            yield 'copied up to ' + l, E.forall(ZERO, x, lambda k: Implies(k < self.v.len(s), self.c.get(s, k) == self.v.get(s, k)))

    def post(self, c):
        E, st, o = self.E, c.st, self.E.old
        n = self.v.len(o)
        yield 'length', u16(self.c.len(st)) == n
        yield 'weight', u16(E.rd(st, self.c.r, None, ('f', 2))) == self.l
        yield 'same literals in order', E.forall(ZERO, n, lambda k: self.c.get(st, k) == self.v.get(o, k))
        yield 'range unchanged', And(self.v.len(st) == n, E.forall(ZERO, n, lambda k: self.v.get(st, k) == self.v.get(o, k)))


class Pg(Contract):
    prop = 'C08'
    tu = 'clause'

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.o = b.obj('page', OFF_Pg_size='i64', OFF_Pg_cursor='i64')
        self.m = E.region('memory', start=0, stride=1, fields={0: I8})
        self.cap, self.cur = fld(E, st, self.o, 'OFF_Pg_size'), fld(E, st, self.o, 'OFF_Pg_cursor')
        st.assume(And(self.cap >= 0, self.cap < (1 << 40), self.cur >= 0, self.cur <= self.cap))
        self.o.fixed[E.offs['OFF_Pg_memory']] = (8, 'ptr')
        st.mem[('page', ('f', E.offs['OFF_Pg_memory']))] = Ptr(self.m)
        self.n = Int('n')
        st.assume(And(self.n >= 0, self.n < (1 << 32)))
        return [Ptr(self.o), self.n] + self.more(st)

    def more(self, st):
        return []

    def need(self):
        return 4 + 4 * self.n


@contract
class Has(Pg):
    name = 'page.hasMemory'
    root = 'w_pg_has'
    says = 'hasMemory(n) is true only if a clause of n literals (4 + 4n bytes) fits between cursor and the end of the page, and changes nothing'

    def post(self, c):
        E, st = self.E, c.st
        yield 'fits', Implies(c.ret, self.cur + self.need() <= self.cap)
        yield 'unchanged', And(fld(E, st, self.o, 'OFF_Pg_cursor') == self.cur, fld(E, st, self.o, 'OFF_Pg_size') == self.cap)


@contract
class Alloc(Pg):
    name = 'page.allocate'
    root = 'w_pg_alloc'
    says = 'allocate(n) returns the memory at the old cursor and moves the cursor past the whole clause of n literals, so allocations never overlap and stay in the page'

    def more(self, st):
        st.assume(self.cur + self.need() <= self.cap)
        return []

    def post(self, c):
        E, st = self.E, c.st
        yield 'address', And(BoolVal(c.ret.r is self.m), c.ret.off == self.cur)
        yield 'cursor past the clause', fld(E, st, self.o, 'OFF_Pg_cursor') >= self.cur + self.need()
        yield 'exactly', fld(E, st, self.o, 'OFF_Pg_cursor') == self.cur + self.need()
        yield 'within the page', fld(E, st, self.o, 'OFF_Pg_cursor') <= self.cap
        yield 'page size unchanged', fld(E, st, self.o, 'OFF_Pg_size') == self.cap


@contract
class Bytes(Pg):
    name = 'page.clauseBytes'
    root = 'w_pg_bytes'
    says = 'clauseBytes(n) is the number of bytes of a clause with n literals'

    def post(self, c):
        yield 'bytes', c.ret == self.need()
