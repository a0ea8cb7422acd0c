"""Contracts of the result object (C01): the model that is handed out is the assignment that was found."""
from lib import *
from contract import Contract, contract, method
from shapes import TrailShape


class Res(Contract):
    prop = 'C01'
    tu = 'result'
    also = ('C11',)

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.o = b.obj('R', OFF_R_status='i8')
        self.m = b.vec(self.o, 'OFF_R_model', 'model', stride=1, fields={0: I8}, maxlen=1 << 30)
        self.mm = b.vec(self.o, 'OFF_R_minimizedModel', 'minimized', stride=1, fields={0: I8}, maxlen=1 << 30)
        self.c = b.vec(self.o, 'OFF_R_conflict', 'conflict', maxlen=1 << 30)
        return [Ptr(self.o)] + self.args(st)

    def args(self, st):
        self.p = p = Int('p')
        st.assume(And(p >= 0, p < (1 << 31) - 2))
        return [p]

    def sat(self, st, l, m=None):
        m = m or self.m
        return And(l / 2 < m.len(st), m.get(st, l / 2) == l % 2)

    def same(self, st, *vs):
        for v in vs:
            yield '%s unchanged' % v.r.name, And(v.len(st) == v.len(self.E.old), self.E.forall(ZERO, v.len(st), lambda k: v.get(st, k) == v.get(self.E.old, k)))

    def set_post(self, st, m, p):
        E, o = self.E, self.E.old
        n = m.len(o)
        yield 'the literal is satisfied', self.sat(st, p, m)
        yield 'the model is as long as needed', m.len(st) == If(p / 2 < n, n, p / 2 + 1)
        yield 'other values are unchanged, new ones are undefined', E.forall(ZERO, m.len(st), lambda v: Implies(v != p / 2, If(v < n, m.get(st, v) == m.get(o, v), m.get(st, v) >= 2)))


@contract
class Set(Res):
    name = 'result.setModelValue'
    root = 'w_res_set'
    says = 'setModelValue(p) makes the model satisfy p, extends it with undefined values if needed, and changes no other value'

    def post(self, c):
        yield from self.set_post(c.st, self.m, self.p)
        yield from self.same(c.st, self.mm, self.c)


@contract
class SetMin(Res):
    name = 'result.setMinimizedModelValue'
    root = 'w_res_setmin'
    says = 'setMinimizedModelValue(p) does the same for the minimised model'
    also = ('C17',)

    def post(self, c):
        yield from self.set_post(c.st, self.mm, self.p)
        yield from self.same(c.st, self.m, self.c)


@contract
class Sat(Res):
    name = 'result.satisfies'
    root = 'w_res_sat'
    says = 'satisfies(p) exactly if the model has a value for the variable of p and p is true under it; nothing changes'

    def post(self, c):
        yield 'answer', c.ret == self.sat(self.E.old, self.p)
        yield from self.same(c.st, self.m, self.mm, self.c)


@contract
class Value(Res):
    name = 'result.value'
    root = 'w_res_value'
    says = 'value(v) of a variable of the model is its true literal, or undefined if it has none'

    def args(self, st):
        self.v = v = Int('v')
        st.assume(And(v >= 0, v < self.m.len(st)))
        return [v]

    def post(self, c):
        x = self.m.get(self.E.old, self.v)
        yield 'answer', c.ret == If(x == 0, 2 * self.v, If(x == 1, 2 * self.v + 1, IntVal(-2)))
        yield from self.same(c.st, self.m, self.mm, self.c)


@contract
class Clear(Res):
    name = 'result.clear'
    root = 'w_res_clear'
    says = 'clear forgets the model, the conflict and the status'

    def args(self, st):
        return []

    def post(self, c):
        yield 'empty', And(self.m.len(c.st) == 0, self.c.len(c.st) == 0)
        yield 'status', fld(self.E, c.st, self.o, 'OFF_R_status') >= 2


@contract
class Model(Res):
    name = 'result.setModel'
    root = 'w_res_model'
    says = 'setModel(trail) on a cleared result: the model satisfies every literal of the trail and has no value for any other variable'

    def args(self, st):
        self.t = TrailShape(self.E, st)
        st.assume(self.m.len(st) == 0)
        return [self.t.ptr()]

    def done(self, st, x):
        E, t, m = self.E, self.t, self.m
        yield 'satisfied', E.forall(ZERO, x, lambda i: self.sat(st, t.lit(st, i)))
        yield 'nothing else', E.forall(ZERO, m.len(st), lambda v: Or(m.get(st, v) >= 2, And(v < t.V, t.val(st, v) < 2, m.get(st, v) == t.val(st, v), t.pos(v) < x)))

    def inv(self, c):
        st, t, E = c.st, self.t, self.E
        for l, p in c.vals():
            if isinstance(p, Ptr) and p.r is t.trail.r:
                x = E.pidx(p)
                yield 'position ' + l, And(x >= 0, x <= t.size(st), self.m.len(st) >= 0, self.m.len(st) <= t.V)
                for n, g in self.done(st, x):
                    yield n + l, g

    def post(self, c):
        yield from self.done(c.st, self.t.size(c.st))
        for n, g in self.t.unchanged(c.st, ['trail', 'assigns', 'vardata']):
            yield n, g
