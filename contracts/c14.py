from lib import *
from contract import Contract, contract


def stamp_contracts(N, bits):
    kind = {32: I32, 8: I8}[bits]
    M = 1 << bits
    u = lambda x: If(x < 0, x + M, x) if bits == 32 else x

    class St(Contract):
        prop = 'C14'
        tu = 'mtl'

        def setup(self, st):
            E = self.E
            b = B(E, st)
            self.o = b.obj('S', **{'OFF_%s_stamp' % N: 'i%d' % bits})
            self.v = b.vec(self.o, 'OFF_%s_stamped' % N, 'S.stamped', stride=bits // 8, fields={0: kind})
            for _, f in self.wf(st):
                st.assume(f)
            return [Ptr(self.o)] + self.args(st)

        def args(self, st):
            return []

        def idx(self, st):
            self.i = Int('i')
            st.assume(And(self.i >= 0, self.i < self.v.len(st)))
            return [self.i]

        def stamp(self, st):
            return fld(self.E, st, self.o, 'OFF_%s_stamp' % N)

        def wf(self, st):
            s = self.stamp(st)
            yield 'current mark is not the unmarked value', u(s) >= 1
            yield 'no mark from the future', self.E.forall(ZERO, self.v.len(st), lambda k: And(u(self.v.get(st, k)) >= 0, u(self.v.get(st, k)) < M, u(self.v.get(st, k)) <= u(s)))

        def marked(self, st, k):
            return self.v.get(st, k) == self.stamp(st)

        def others(self, st, but=None):
            o = self.E.old
            return self.E.forall(ZERO, self.v.len(o), lambda k: Implies(k != but if but is not None else BoolVal(True), self.marked(st, k) == self.marked(o, k)))

        def inv(self, c):
            st = c.st
            for l, x, x0 in c.scalars():
                yield 'zero below ' + l, self.E.forall(ZERO, x, lambda k: Implies(k < self.v.len(st), self.v.get(st, k) == 0))

        def post(self, c):
            yield from self.wf(c.st)
            yield from self.p(c.st, self.E.old, c.ret)

    def reg(op, words, argsf, pf):
        @contract
        class K(St):
            name = 'stamp%d.%s' % (bits, op)
            root = 'w_%s_%s' % (N.lower(), op)
            says = words

            def args(self, st):
                return argsf(self, st)

            def p(self, st, o, ret):
                return pf(self, st, o, ret)
    same = lambda s, st, o: ('length unchanged', s.v.len(st) == s.v.len(o))
    none = lambda s, st: []
    reg('clear', 'after clear nothing is marked, whatever the counter was, including at wrap-around', none,
        lambda s, st, o, r: [('nothing is marked', s.E.forall(ZERO, s.v.len(st), lambda k: Not(s.marked(st, k)))), same(s, st, o)])
    reg('set', 'set(i) marks i and nothing else', lambda s, st: s.idx(st),
        lambda s, st, o, r: [('marked', s.marked(st, s.i)), ('others unchanged', s.others(st, s.i)), same(s, st, o)])
    reg('unset', 'unset(i) unmarks i and nothing else', lambda s, st: s.idx(st),
        lambda s, st, o, r: [('unmarked', Not(s.marked(st, s.i))), ('others unchanged', s.others(st, s.i)), same(s, st, o)])
    for op in ('get', 'is'):
        reg(op, 'the query answers exactly whether i is marked and changes nothing', lambda s, st: s.idx(st),
            lambda s, st, o, r: [('answer', r == s.marked(o, s.i)), ('others unchanged', s.others(st)), same(s, st, o)])

    def garg(s, st):
        s.n = Int('n')
        st.assume(And(s.n >= 0, s.n < (1 << 32)))
        return [s.n]
    reg('grow', 'growing keeps all marks and adds unmarked elements', garg,
        lambda s, st, o, r: [('length', s.v.len(st) == If(s.n > s.v.len(o), s.n, s.v.len(o))), ('old marks kept', s.others(st)),
                             ('new elements unmarked', s.E.forall(s.v.len(o), s.v.len(st), lambda k: Not(s.marked(st, k))))])
    reg('grow1', 'growing by one keeps all marks and adds an unmarked element', none,
        lambda s, st, o, r: [('length', s.v.len(st) == s.v.len(o) + 1), ('old marks kept', s.others(st)), ('new element unmarked', Not(s.marked(st, s.v.len(o))))])


stamp_contracts('S32', 32)
stamp_contracts('S8', 8)


class BQ(Contract):
    prop = 'C14'
    tu = 'mtl'

    def setup(self, st):
        b = B(self.E, st)
        self.o = b.obj('Q', OFF_Q_first='i32', OFF_Q_last='i32', OFF_Q_size='i32', OFF_Q_sum='i32')
        self.v = b.vec(self.o, 'OFF_Q_elems', 'Q.elems', maxlen=1 << 30)
        st.assume(self.v.len(st) >= 1)
        for _, f in self.wf(st):
            st.assume(f)
        return [Ptr(self.o)] + self.args(st)

    def args(self, st):
        return []

    def f(self, st, n):
        return fld(self.E, st, self.o, 'OFF_Q_' + n)

    def wf(self, st):
        n, q, fi, la = self.v.len(st), self.f(st, 'size'), self.f(st, 'first'), self.f(st, 'last')
        yield 'ring buffer indices consistent', And(q >= 0, q <= n, fi >= 0, fi < n, la >= 0, la < n, fi == If(la + q >= n, la + q - n, la + q))

    def win(self, st, k):
        n, la = self.v.len(st), self.f(st, 'last')
        return self.v.get(st, If(la + k >= n, la + k - n, la + k))

    def post(self, c):
        yield from self.wf(c.st)
        yield from self.p(c.st, self.E.old, c.ret)

    def same(self, st):
        o, E = self.E.old, self.E
        return ('window unchanged', And(self.f(st, 'size') == self.f(o, 'size'), self.f(st, 'sum') == self.f(o, 'sum'), self.v.len(st) == self.v.len(o),
                                        E.forall(ZERO, self.f(o, 'size'), lambda k: self.win(st, k) == self.win(o, k))))


M32 = 1 << 32


@contract
class Push(BQ):
    name = 'bqueue.push'
    root = 'w_bq_push'
    says = 'push appends to the window, dropping exactly the oldest value when full, and keeps the sum in step'

    def args(self, st):
        self.x = Int('x')
        st.assume(And(self.x >= -(1 << 31), self.x < (1 << 31)))
        return [self.x]

    def p(self, st, o, r):
        E = self.E
        q, n = self.f(o, 'size'), self.v.len(o)
        full = q == n
        q2 = self.f(st, 'size')
        yield 'capacity unchanged', self.v.len(st) == n
        yield 'window length', q2 == If(full, n, q + 1)
        yield 'newest value last', self.win(st, q2 - 1) == self.x
        yield 'older values kept in order', E.forall(ZERO, q2 - 1, lambda k: self.win(st, k) == If(full, self.win(o, k + 1), self.win(o, k)))
        yield 'sum follows', (self.f(st, 'sum') - (self.f(o, 'sum') + self.x - If(full, self.win(o, ZERO), 0))) % M32 == 0


@contract
class Pop(BQ):
    name = 'bqueue.pop'
    root = 'w_bq_pop'
    says = 'pop drops exactly the oldest value and keeps the sum in step'

    def args(self, st):
        st.assume(self.f(st, 'size') >= 1)
        return []

    def p(self, st, o, r):
        q = self.f(o, 'size')
        yield 'window length', self.f(st, 'size') == q - 1
        yield 'rest kept', self.E.forall(ZERO, q - 1, lambda k: self.win(st, k) == self.win(o, k + 1))
        yield 'sum follows', (self.f(st, 'sum') - (self.f(o, 'sum') - self.win(o, ZERO))) % M32 == 0


def simple(nm, root_, words, prefn, pf):
    @contract
    class K(BQ):
        name = 'bqueue.' + nm
        root = root_
        says = words

        def args(self, st):
            st.assume(prefn(self, st))
            return []

        def p(self, st, o, r):
            return pf(self, st, o, r)


ok = lambda s, st: BoolVal(True)
u32 = lambda x: If(x < 0, x + M32, x)
simple('peek', 'w_bq_peek', 'peek is the oldest value', lambda s, st: s.f(st, 'size') >= 1, lambda s, st, o, r: [('oldest', r == s.win(o, ZERO)), s.same(st)])
simple('fastclear', 'w_bq_clear', 'fastclear empties the window', ok, lambda s, st, o, r: [('empty', And(s.f(st, 'size') == 0, s.f(st, 'sum') == 0))])
simple('getsum', 'w_bq_sum', 'getsum is the sum', ok, lambda s, st, o, r: [('sum', r == s.f(o, 'sum')), s.same(st)])
simple('getavg', 'w_bq_avg', 'getavg is the rounded-down average of the window', lambda s, st: s.f(st, 'size') >= 1,
       lambda s, st, o, r: [('average', u32(r) == u32(s.f(o, 'sum')) / s.f(o, 'size')), s.same(st)])
simple('isvalid', 'w_bq_valid', 'isvalid exactly if the window is full', ok, lambda s, st, o, r: [('full', r == (s.f(o, 'size') == s.v.len(o))), s.same(st)])
simple('size', 'w_bq_size', 'size is the window length', ok, lambda s, st, o, r: [('size', r == s.f(o, 'size')), s.same(st)])
simple('maxSize', 'w_bq_max', 'maxSize is the capacity', ok, lambda s, st, o, r: [('size', r == s.v.len(o)), s.same(st)])
