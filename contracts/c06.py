from lib import *
from contract import Contract, contract


class SubC(Contract):
    prop = 'C06'
    tu = 'clause'
    two = False

    def one(self, b, st, n, absf=True):
        E = self.E
        c = b.clause('clause' + n)
        o = E.region('S' + n, fixed={E.offs['OFF_SC_abs']: I64, E.offs['OFF_SC_clause']: (8, 'ptr')})
        st.mem[(o.name, ('f', E.offs['OFF_SC_clause']))] = Ptr(c.r)
        return o, c

    def setup(self, st):
        b = B(self.E, st)
        self.o, self.a = self.one(b, st, 'A')
        if self.two:
            self.o2, self.b = self.one(b, st, 'B')
            return [Ptr(self.o), Ptr(self.o2)]
        return [Ptr(self.o)] + self.args(st)

    def args(self, st):
        return []

    def frame(self, st):
        E, o = self.E, self.E.old
        for n, c in [('this', self.a)] + ([('other', self.b)] if self.two else []):
            yield n + ' clause unchanged', And(c.len(st) == c.len(o), E.forall(ZERO, c.len(o), lambda k: c.get(st, k) == c.get(o, k)))


@contract
class Subsumes(SubC):
    name = 'subsumptionclause.subsumes'
    root = 'w_sc_subsumes'
    two = True
    says = '''subsumes(other) answers lit_Undef only if every literal of this clause is in other, and p only if ~p is in other, p is in this clause and every other literal of
    this clause is in other (so deleting ~p from other is a resolution step); it changes neither clause'''

    def inv(self, c):
        E, s, a, b = self.E, c.st, self.a, self.b
        sc = c.scalars()
        for l, v, _ in sc:
            for l2, r, _ in sc:
                if l2 == l:
                    continue
                yield 'literals seen are found, one of them negated: %s %s' % (l, l2), E.forall(ZERO, v, lambda k: Or(b.has(s, a.get(s, k)), And(a.get(s, k) == r, b.has(s, neg(r)))))
                yield 'the negated one: %s %s' % (l, l2), Or(r == -2, And(r >= 0, b.has(s, neg(r)), E.exists(ZERO, v, lambda k: a.get(s, k) == r)))
            for l2 in [x for x in s.regs if z3.is_expr(s.regs[x]) and z3.is_int(s.regs[x])]:
                x = s.regs[l2]
                yield 'not found yet: %s %s' % (l, l2), E.forall(ZERO, v, lambda j: b.get(s, j) != x)

    def post(self, c):
        E, s, a, b, r = self.E, c.st, self.a, self.b, c.ret
        n = a.len(s)
        yield 'answer is undef, error or a literal', Or(r == -2, r == -1, r >= 0)
        yield 'subsumed: every literal occurs in the other clause', Implies(r == -2, E.forall(ZERO, n, lambda k: b.has(s, a.get(s, k))))
        yield 'strengthens: the literal occurs here, its negation in the other clause', Implies(r >= 0, And(a.has(s, r), b.has(s, neg(r))))
        yield 'strengthens: all other literals occur in the other clause', Implies(r >= 0, E.forall(ZERO, n, lambda k: Or(b.has(s, a.get(s, k)), a.get(s, k) == r)))
        yield from self.frame(s)


@contract
class Equals(SubC):
    name = 'subsumptionclause.equals'
    root = 'w_sc_equals'
    two = True
    says = 'equals(other) is true only if the clauses have the same length and every literal of this one is in the other'

    def inv(self, c):
        E, s, a, b = self.E, c.st, self.a, self.b
        for l, v, _ in c.scalars():
            yield 'literals seen are in the other clause: ' + l, E.forall(ZERO, v, lambda k: b.has(s, a.get(s, k)))
            for l2 in [x for x in s.regs if z3.is_expr(s.regs[x]) and z3.is_int(s.regs[x])]:
                x = s.regs[l2]
                yield 'not found yet: %s %s' % (l, l2), E.forall(ZERO, v, lambda j: b.get(s, j) != x)

    def post(self, c):
        E, s, a, b = self.E, c.st, self.a, self.b
        yield 'same length', Implies(c.ret, a.len(s) == b.len(s))
        yield 'every literal is in the other clause', Implies(c.ret, E.forall(ZERO, a.len(s), lambda k: b.has(s, a.get(s, k))))
        yield from self.frame(s)


@contract
class Contains(SubC):
    name = 'subsumptionclause.contains'
    root = 'w_sc_contains'
    says = 'contains(p) exactly if p is a literal of the clause'

    def args(self, st):
        self.p = Int('p')
        st.assume(And(self.p >= 0, self.p < (1 << 31)))
        return [self.p]

    def inv(self, c):
        s = c.st
        for l, v, _ in c.scalars():
            yield 'not before ' + l, self.E.forall(ZERO, v, lambda j: self.a.get(s, j) != self.p)

    def post(self, c):
        yield 'answer', c.ret == self.a.has(c.st, self.p)
        yield from self.frame(c.st)


def simple(nm, root_, words, argsf, pf):
    @contract
    class K(SubC):
        name = 'subsumptionclause.' + nm
        root = root_
        says = words

        def args(self, st):
            return argsf(self, st)

        def post(self, c):
            yield from pf(self, c)
            yield from self.frame(c.st)


none = lambda s, st: []
simple('size', 'w_sc_size', 'size is the number of literals', none, lambda s, c: [('size', c.ret == s.a.len(c.st))])
