from lib import *
from contract import Contract, contract, method
from shapes import TrailShape


class CA(Contract):
    """conflict analysis over a well-formed trail whose reasons are clauses in which every literal but the implied one is false and was falsified earlier;
    M is an arbitrary assignment that satisfies all clauses and the literals of level 0"""
    prop = 'C04'
    assumes = ('every literal on the trail with a reason is implied by earlier trail literals (trail.wf, the invariant of C03 and C05); marks are clear on entry (the postcondition on exit)',)
    tu = 'conflict'
    also = ()

    def setup(self, st):
        E = self.E
        E.vec_limit = (1 << 31) - 8
        E.auto = False
        b = B(E, st)
        self.t = t = TrailShape(E, st, heavy=True)
        self.f = Fam(E, t.reasons)
        self.o = b.obj('ca')
        self.db = b.obj('db')
        for k, p in (('clause_db', Ptr(self.db)), ('trail', t.ptr())):
            o = E.offs['OFF_CA_' + k]
            self.o.fixed[o] = (8, 'ptr')
            st.mem[('ca', ('f', o))] = p
        so = E.offs['OFF_CA_stamp']
        self.n = Int('len!marks')
        st.assume(And(self.n >= t.V, self.n < 1 << 30))
        self.marks = b.vec(self.o, so + E.offs['OFF_S_stamped'], 'marks', n=self.n)
        self.so = so + E.offs['OFF_S_stamp']
        self.o.fixed[self.so] = I32
        st.assume(fld(E, st, self.o, self.so) != 0)
        self.learnt = b.vec(self.o, 'OFF_CA_learnt_clause', 'learnt', maxlen=1 << 30)
        self.clear = b.vec(self.o, 'OFF_CA_analyze_clear', 'clear', maxlen=1 << 30)
        self.stack = b.vec(self.o, 'OFF_CA_analyze_stack', 'stack', maxlen=1 << 30)
        self.minz = b.vec(self.o, 'OFF_CA_minimized', 'minimized', maxlen=1 << 30)
        self.M = z3.Function('M', z3.IntSort(), z3.BoolSort())
        E.heavy(st, self.reasons_ok(st))
        E.heavy(st, self.reasons_range(st))
        return [Ptr(self.o)] + self.more(st)

    def more(self, st):
        return []

    # vocabulary
    def mk(self, st, v):
        return self.marks.get(st, v) == fld(self.E, st, self.o, self.so)

    def asg(self, st, v):
        return And(v >= 0, v < self.t.V, self.t.val(st, v) < 2)

    def rs(self, st, v):
        return self.t.reason(st, v)

    def lvl0(self, st, v):
        return self.t.level(st, v) == 0

    def reasons_ok(self, st):
        E, t, f = self.E, self.t, self.f
        return E.forall(ZERO, t.V, lambda v: Implies(And(t.val(st, v) < 2, self.rs(st, v) != 0), And(self.rs(st, v) > 0, E.forall(ZERO, f.len(st, self.rs(st, v)), lambda j: self.reason_lit(st, v, f.get(st, self.rs(st, v), j))))))

    def reasons_range(self, st):
        E, t, f = self.E, self.t, self.f
        return E.forall(ZERO, t.V, lambda v: Implies(And(t.val(st, v) < 2, self.rs(st, v) > 0), E.forall(ZERO, f.len(st, self.rs(st, v)), lambda j: And(f.get(st, self.rs(st, v), j) >= 0, f.get(st, self.rs(st, v), j) < 2 * t.V))))

    def reason_lit(self, st, v, l):
        t = self.t
        return And(l >= 0, l < 2 * t.V, Or(And(l / 2 == v, t.ltrue(st, l)), And(t.lfalse(st, l), t.pos(l / 2) < t.pos(v))))

    def closed(self, st, v):
        """v has a reason all of whose literals are marked or of level 0"""
        E, f = self.E, self.f
        return And(self.rs(st, v) > 0, E.forall(ZERO, f.len(st, self.rs(st, v)), lambda j: self.dealt(st, f.get(st, self.rs(st, v), j))))

    def dealt(self, st, l):
        return Or(self.mk(st, l / 2), self.lvl0(st, l / 2))

    def m(self, l):
        return If(l % 2 == 0, self.M(l / 2), Not(self.M(l / 2)))

    def agrees(self, st, v):
        return self.M(v) == (self.t.val(st, v) == 0)

    def model(self, st):
        """M satisfies the reasons and the literals of level 0"""
        E, t, f = self.E, self.t, self.f
        E.heavy(st, E.forall(ZERO, t.V, lambda v: Implies(And(t.val(st, v) < 2, self.rs(st, v) > 0), E.exists(ZERO, f.len(st, self.rs(st, v)), lambda j: self.m(f.get(st, self.rs(st, v), j))))))
        st.assume(E.forall(ZERO, t.V, lambda v: Implies(And(t.val(st, v) < 2, self.lvl0(st, v)), self.agrees(st, v))))

    def wellorder(self, bad, x):
        """if any variable is bad, x is one that comes first on the trail (every set of positions has a least element)"""
        E, t = self.E, self.t
        return Or(E.forall(ZERO, t.V, lambda v: Not(bad(v))), And(x >= 0, x < t.V, bad(x), E.forall(ZERO, t.V, lambda v: Implies(bad(v), t.pos(x) <= t.pos(v)))))

    def learnt_ok(self, st, L, n):
        """the clause has literals of the trail, all false, level > 0, the variables of all but the first are marked"""
        E, t = self.E, self.t
        yield E.forall(ZERO, n, lambda k: And(L(k) >= 0, L(k) < 2 * t.V, t.lfalse(st, L(k)), t.level(st, L(k) / 2) > 0))

    def frame(self, st):
        yield 'trail size unchanged', self.t.size(st) == self.t.size(self.E.old)
        yield from self.t.unchanged(st, ['trail', 'assigns', 'vardata', 'lim'])


@contract
class Redundant(CA):
    name = 'conflict.litRedundant'
    assumes = CA.assumes + ('closed sets of marks: least fixed point facts about finite sets of variables',)
    root = 'w_ca_redundant'
    says = '''litRedundant answers true only with a set of marked variables in which the literal and every variable marked in addition has a reason whose literals are all marked or of level 0;
    when it answers false, exactly the variables marked before are marked'''

    def more(self, st):
        E, t = self.E, self.t
        self.p = Int('p')
        st.assume(And(self.p >= 0, self.p < 2 * t.V, t.val(st, self.p / 2) < 2, self.rs(st, self.p / 2) > 0))
        st.assume(E.forall(ZERO, self.clear.len(st), lambda k: And(self.clear.get(st, k) >= 0, self.clear.get(st, k) < t.V)))
        return [self.p, Int('levels')]

    def inv(self, c):
        E, s, o, t, f = self.E, c.st, self.E.old, self.t, self.f
        cs = self.clear.len(o)
        C, S = self.clear, self.stack
        onstack = lambda v: S.has(s, v)
        yield 'marks kept', E.forall(ZERO, t.V, lambda v: Implies(self.mk(o, v), self.mk(s, v)))
        yield 'new marks recorded', And(C.len(s) >= cs, E.forall(cs, C.len(s), lambda k: And(self.asg(s, C.get(s, k)), Not(self.mk(o, C.get(s, k))), self.rs(s, C.get(s, k)) > 0)))
        yield 'marks are recorded', E.forall(ZERO, t.V, lambda v: Implies(And(self.mk(s, v), Not(self.mk(o, v))), C.has(s, v, cs)))
        yield 'old record kept', E.forall(ZERO, cs, lambda k: C.get(s, k) == C.get(o, k))
        yield 'pending have reasons', E.forall(ZERO, S.len(s), lambda k: And(self.asg(s, S.get(s, k)), self.rs(s, S.get(s, k)) > 0))
        new = lambda v: Or(v == self.p / 2, And(self.mk(s, v), Not(self.mk(o, v))))
        yield 'new marks closed or pending', E.forall(ZERO, t.V, lambda v: Implies(new(v), Or(self.closed(s, v), onstack(v))))
        yield 'stamp', fld(E, s, self.o, self.so) == fld(E, o, self.o, self.so)
        for l, p in c.ptrs():
            if p.r is f.r and E.pidx(p) is not None:
                x = E.pidx(p)
                yield 'new marks closed, pending or being visited ' + l, E.forall(ZERO, t.V, lambda v: Implies(new(v), Or(self.closed(s, v), onstack(v), self.rs(s, v) == p.id)))
                yield 'visited literals ' + l, And(x >= 0, x <= f.len(s, p.id), E.forall(ZERO, x, lambda j: self.dealt(s, f.get(s, p.id, j))))
                yield 'being visited ' + l, And(p.id > 0, E.forall(ZERO, f.len(s, p.id), lambda j: And(f.get(s, p.id, j) >= 0, f.get(s, p.id, j) < 2 * t.V, t.val(s, f.get(s, p.id, j) / 2) < 2)))
        yield 'lengths', And(C.len(s) <= E.vec_limit, S.len(s) >= 0)
        for l, x, _ in c.scalars():
            if l[0] != '%' or l in [q for q, _ in c.ptrs()]:
                continue
            yield 'unmarking ' + l, And(x >= cs, E.forall(ZERO, t.V, lambda v: Implies(And(self.mk(s, v), Not(self.mk(o, v))), C.has(s, v, x))))

    def post(self, c):
        E, s, o, t, r = self.E, c.st, self.E.old, self.t, c.ret
        new = lambda v: Or(v == self.p / 2, And(self.mk(s, v), Not(self.mk(o, v))))
        yield 'marks kept', E.forall(ZERO, t.V, lambda v: Implies(self.mk(o, v), self.mk(s, v)))
        yield 'true: closed under reasons', Implies(r, E.forall(ZERO, t.V, lambda v: Implies(new(v), self.closed(s, v))))
        yield 'false: no other marks', Implies(Not(r), E.forall(ZERO, t.V, lambda v: self.mk(s, v) == self.mk(o, v)))
        yield 'marked are assigned', E.forall(ZERO, t.V, lambda v: Implies(And(self.mk(s, v), Not(self.mk(o, v))), self.asg(s, v)))
        yield 'record', And(self.clear.len(s) >= self.clear.len(o), E.forall(ZERO, self.clear.len(s), lambda k: And(self.clear.get(s, k) >= 0, self.clear.get(s, k) < t.V)))
        yield 'learnt clause untouched', And(self.learnt.len(s) == self.learnt.len(o), E.forall(ZERO, self.learnt.len(o), lambda k: self.learnt.get(s, k) == self.learnt.get(o, k)))
        yield from self.frame(s)


@method
def h_redundant(c, E, st, args, I):
    p = args[1]
    t = c.t
    E.oblige(st, 'redundancy is asked only of a literal with a reason', And(p >= 0, p < 2 * t.V, t.val(st, p / 2) < 2, c.rs(st, p / 2) > 0))
    n0 = c.clear.len(st)
    E.oblige(st, 'recorded are variables', And(n0 >= 0, E.forall(ZERO, n0, lambda k: And(c.clear.get(st, k) >= 0, c.clear.get(st, k) < t.V))))
    o = st.copy()
    for r in (c.marks.r, c.clear.r, c.stack.r):
        a = st.cell(r, ('a', 0))
        st.setcell(r, ('a', 0), z3.Const(fresh_name(r.name + '.after'), a.sort()))
    for v in (c.clear, c.stack):
        n, cap = Int(fresh_name('len')), Int(fresh_name('cap'))
        st.assume(And(n >= 0, n <= E.vec_limit, cap >= n, cap < 1 << 40))
        hdr_set(E, st, Ptr(c.o, None, IntVal(v.off)), 1, Ptr(v.r, None, v.r.stride * n))
        hdr_set(E, st, Ptr(c.o, None, IntVal(v.off)), 2, Ptr(v.r, None, v.r.stride * cap))
    r = z3.Bool(fresh_name('redundant'))
    E.wr(st, c.gone, None, ('a', 0), p / 2, If(r, IntVal(1), E.rd(st, c.gone, None, ('a', 0), p / 2)))
    new = lambda v: Or(v == p / 2, And(c.mk(st, v), Not(c.mk(o, v))))
    kept = E.forall(ZERO, t.V, lambda v: Implies(c.mk(o, v), c.mk(st, v)))
    st.assume(kept)
    inr = c.reasons_range(st)
    E.oblige(st, 'the literals of the reasons are in range', inr)
    E.lemma(st, 'closed sets stay closed when marks are added', [kept, inr], E.forall(ZERO, t.V, lambda v: Implies(And(t.val(st, v) < 2, c.closed(o, v)), c.closed(st, v))))
    st.assume(Implies(r, E.forall(ZERO, t.V, lambda v: Implies(new(v), c.closed(st, v)))))
    st.assume(Implies(Not(r), E.forall(ZERO, t.V, lambda v: c.mk(st, v) == c.mk(o, v))))
    st.assume(E.forall(ZERO, t.V, lambda v: Implies(And(c.mk(st, v), Not(c.mk(o, v))), c.asg(st, v))))
    st.assume(E.forall(ZERO, c.clear.len(st), lambda k: And(c.clear.get(st, k) >= 0, c.clear.get(st, k) < t.V)))
    return r


@contract
class Minimize(CA):
    name = 'conflict.minimization'
    root = 'w_ca_minimize'
    says = '''for every assignment M that satisfies all reason clauses, the literals of level 0 and the clause: minimization removes literals other than the first only, and M satisfies what is left'''
    noinline = [r'Candy::ConflictAnalysis::litRedundant']
    handlers = [(r'Candy::ConflictAnalysis::litRedundant', h_redundant, 'by contract conflict.litRedundant')]

    def more(self, st):
        E, t, L = self.E, self.t, self.learnt
        n = L.len(st)
        st.assume(n >= 1)
        self.model(st)
        # ghost: the variables found redundant
        self.gone = E.region('redundant', start=0, stride=1, fields={0: I8})
        self.gone.length = lambda s, id: t.V
        st.assume(E.forall(ZERO, t.V, lambda v: Not(self.red(st, v))))
        g = lambda k: L.get(st, k)
        st.assume(And(*self.learnt_ok(st, g, n)))
        st.assume(E.forall(IntVal(1), n, lambda k: self.mk(st, g(k) / 2)))
        st.assume(E.forall(ZERO, t.V, lambda v: Implies(self.mk(st, v), And(self.asg(st, v), Or(self.lvl0(st, v), E.exists(IntVal(1), n, lambda k: g(k) / 2 == v))))))
        st.assume(E.exists(ZERO, n, lambda k: self.m(g(k))))
        return []

    def red(self, st, v):
        return self.E.rd(st, self.gone, None, ('a', 0), v) == 1

    def inv(self, c):
        E, s, o, t, L, Z = self.E, c.st, self.E.old, self.t, self.learnt, self.minz
        n = L.len(o)
        g = lambda k: L.get(o, k)
        yield 'lengths', And(self.clear.len(s) >= 0, self.clear.len(s) <= E.vec_limit, Z.len(s) >= 0, Z.len(s) <= n)
        yield 'record', E.forall(ZERO, self.clear.len(s), lambda k: And(self.clear.get(s, k) >= 0, self.clear.get(s, k) < t.V))
        yield 'marks kept', E.forall(ZERO, t.V, lambda v: Implies(self.mk(o, v), self.mk(s, v)))
        yield 'marks closed', E.forall(ZERO, t.V, lambda v: Implies(self.mk(s, v), And(self.asg(s, v), Or(self.mk(o, v), self.closed(s, v)))))
        yield 'none kept', Z.len(s) == 0
        yield 'redundant are closed', E.forall(ZERO, t.V, lambda v: Implies(self.red(s, v), And(t.val(s, v) < 2, self.closed(s, v))))
        for l, x, _ in c.scalars():
            if l[0] != '%':
                continue
            yield 'range ' + l, And(x >= 0, x <= n)
            yield 'range1 ' + l, And(x >= 1, x <= n)
            yield 'no more kept than seen ' + l, Z.len(s) <= x
            yield 'seen ' + l, E.forall(ZERO, x, lambda k: Or(Z.has(s, g(k)), And(k >= 1, self.red(s, g(k) / 2))))
            yield 'first ' + l, (x > 0) == (Z.len(s) > 0)
            yield 'kept ' + l, E.forall(ZERO, Z.len(s), lambda j: If(j == 0, Z.get(s, j) == g(0), E.exists(IntVal(1), x, lambda k: g(k) == Z.get(s, j))))

    def post(self, c):
        E, s, o, t = self.E, c.st, self.E.old, self.t
        w = View(E, s, self.o, 'OFF_CA_learnt_clause')
        n, n0 = w.len(), self.learnt.len(o)
        g = lambda k: self.learnt.get(o, k)
        yield 'the first literal stays first', And(n >= 1, n <= n0, w.get(ZERO) == g(0))
        yield 'the rest is a part of the clause', E.forall(IntVal(1), n, lambda j: E.exists(IntVal(1), n0, lambda k: g(k) == w.get(j)))
        bad = lambda v: And(self.mk(s, v), t.val(s, v) < 2, Not(self.agrees(s, v)))
        yield 'the shortened clause follows', Implies(self.wellorder(bad, Int('least')), E.exists(ZERO, n, lambda k: self.m(w.get(k))))
        yield from self.frame(s)


@contract
class Binary(CA):
    name = 'conflict.minimizationWithBinaryResolution'
    root = 'w_ca_binary'
    says = '''for every assignment M that satisfies the binary clauses and the clause: only literals other than the first are removed, and M satisfies what is left'''
    noinline = [r'Stamp<unsigned int>::clear']

    def more(self, st):
        E, t, L = self.E, self.t, self.learnt
        b = B(E, st)
        E.auto = True
        n = L.len(st)
        st.assume(n >= 1)
        self.W = b.nested(self.db, 'OFF_DB_bin', 'bin', E.offs['SZ_BW'], {E.offs['OFF_BW_clause']: (8, PK(self.f.r)), E.offs['OFF_BW_other']: I32}, n=2 * t.V)
        g = lambda k: L.get(st, k)
        st.assume(And(*self.learnt_ok(st, g, n)))
        st.assume(E.exists(ZERO, n, lambda k: self.m(g(k))))
        self.l0 = g(ZERO)
        i = self.idx = neg(self.l0)
        oth = lambda k: self.W.item(st, i, k, E.offs['OFF_BW_other'])
        cnt = self.W.count(st, i)
        st.assume(cnt >= 0)
        # the binary clause watched at ~L[0] is {L[0], other}; M satisfies it
        st.assume(E.forall(ZERO, cnt, lambda k: And(oth(k) >= 0, oth(k) < 2 * t.V, oth(k) / 2 != self.l0 / 2, Or(self.m(self.l0), self.m(oth(k))))))
        return []

    def inv(self, c):
        E, s, o, t = self.E, c.st, self.E.old, self.t
        L, n = self.learnt, self.learnt.len(self.E.old)
        g = lambda k: L.get(o, k)
        yield 'marked variables: M satisfies the first literal or agrees', E.forall(ZERO, t.V, lambda v: Implies(self.mk(s, v), Or(self.m(self.l0), And(t.val(s, v) < 2, self.agrees(s, v)))))
        yield 'first stays', L.get(s, ZERO) == g(ZERO)
        ps = c.ptrs()
        for l, p in ps:
            if p.r is self.W.data:
                x = E.pidx(p)
                yield 'range ' + l, And(x >= 0, x <= self.W.count(o, self.idx), p.id == self.idx + 1)
        xs = [(l, E.pidx(p)) for l, p in ps if p.r is L.r]
        for l, x in xs:
            yield 'range ' + l, And(x >= 1, x <= n)
            yield 'rest ' + l, E.forall(x, n, lambda k: L.get(s, k) == g(k))
            if len(xs) == 1:
                yield 'unmarked ' + l, E.forall(IntVal(1), x, lambda k: Not(self.mk(s, g(k) / 2)))
            for m, y in xs:
                if m != l:
                    yield 'order %s %s' % (l, m), And(1 <= x, x <= y, y <= n)
                    yield 'kept %s %s' % (l, m), And(E.forall(IntVal(1), x, lambda j: E.exists(IntVal(1), y, lambda k: g(k) == L.get(s, j))))
                    yield 'removed %s %s' % (l, m), E.forall(IntVal(1), y, lambda k: Or(self.mk(s, g(k) / 2), Or(And(x > 1, L.get(s, x - 1) == g(k)), E.exists(IntVal(1), x, lambda j: L.get(s, j) == g(k)))))

    def post(self, c):
        E, s, o, t = self.E, c.st, self.E.old, self.t
        w = View(E, s, self.o, 'OFF_CA_learnt_clause')
        n, n0 = w.len(), self.learnt.len(o)
        g = lambda k: self.learnt.get(o, k)
        yield 'the first literal stays first', And(n >= 1, n <= n0, w.get(ZERO) == g(0))
        yield 'the rest is a part of the clause', E.forall(IntVal(1), n, lambda j: E.exists(IntVal(1), n0, lambda k: g(k) == w.get(j)))
        yield 'the shortened clause follows', E.exists(ZERO, n, lambda k: self.m(w.get(k)))
        yield from self.frame(s)


@method
def h_clear(c, E, st, args, I):
    """Stamp::clear: afterwards no variable is marked"""
    a = st.cell(c.marks.r, ('a', 0))
    st.setcell(c.marks.r, ('a', 0), z3.Const(fresh_name('marks.cleared'), a.sort()))
    x = Int(fresh_name('stamp'))
    st.assume(And(x != 0, x >= -(1 << 31), x < 1 << 31))
    E.wr(st, c.o, None, ('f', c.so), None, x)
    st.assume(E.forall(ZERO, c.n, lambda v: Not(c.mk(st, v))))


Binary.handlers = [(r'Stamp<unsigned int>::clear', h_clear, 'by contract stamp32.clear')]


# ------------------------------------------------------------------ analyze
class Marked(CA):
    assumes = CA.assumes + ('finite sets: inserting or removing one element changes the cardinality by one, and a set of cardinality 0 is empty',)
    """marks by contract of Stamp: a ghost array, and the number of marked variables of the current level (card)"""
    noinline = [r'Stamp<unsigned int>::(clear|set|unset|operator\[\])\(', r'Candy::ConflictAnalysis::minimization(WithBinaryResolution)?\(']

    def ghost(self, st):
        E, t = self.E, self.t
        self.g = E.region('marked', start=0, stride=1, fields={0: I8})
        self.g.length = lambda s, id: t.V
        S = z3.ArraySort(z3.IntSort(), z3.IntSort())
        self.cardf = z3.Function('card', S, z3.IntSort())
        self.witf = z3.Function('wit', S, z3.IntSort())

    def arr(self, st):
        return st.cell(self.g, ('a', 0))

    def card(self, st):
        return self.cardf(self.arr(st))

    def mk(self, st, v):
        return self.E.rd(st, self.g, None, ('a', 0), v) == 1

    def cur(self, st, v):
        t = self.t
        return t.level(st, v) >= t.lim.len(st)

    def counted(self, st):
        """facts about the size of a finite set"""
        E, A, t = self.E, self.arr(st), self.t
        w = self.witf(A)
        return And(self.cardf(A) >= 0, self.cardf(A) <= t.V, Implies(self.cardf(A) == 0, E.forall(ZERO, t.V, lambda v: Not(And(self.mk(st, v), self.cur(st, v))))),
                   Implies(self.cardf(A) > 0, And(w >= 0, w < t.V, self.mk(st, w), self.cur(st, w))))

    def put(self, st, v, x):
        E, t = self.E, self.t
        E.oblige(st, 'marks are of variables', And(v >= 0, v < t.V))
        a, d = self.card(st), If(And(self.mk(st, v), self.cur(st, v)), IntVal(1), ZERO)
        E.wr(st, self.g, None, ('a', 0), v, IntVal(x))
        st.assume(self.card(st) == a - d + (If(self.cur(st, v), IntVal(1), ZERO) if x else ZERO))
        st.assume(self.counted(st))

    @method
    def h_set(self, E, st, args, I):
        self.put(st, args[1], 1)

    @method
    def h_unset(self, E, st, args, I):
        self.put(st, args[1], 0)

    @method
    def h_test(self, E, st, args, I):
        E.oblige(st, 'marks are of variables', And(args[1] >= 0, args[1] < self.t.V))
        st.assume(self.counted(st))
        return self.mk(st, args[1])

    @method
    def h_clr(self, E, st, args, I):
        a = self.arr(st)
        st.setcell(self.g, ('a', 0), z3.Const(fresh_name('marked.cleared'), a.sort()))
        st.assume(And(self.card(st) == 0, E.forall(ZERO, self.t.V, lambda v: Not(self.mk(st, v)))))


MARKS = [(r'Stamp<unsigned int>::set\(', Marked.h_set, 'by contract stamp32.set'), (r'Stamp<unsigned int>::unset\(', Marked.h_unset, 'by contract stamp32.unset'),
         (r'Stamp<unsigned int>::operator\[\]', Marked.h_test, 'by contract stamp32.get'), (r'Stamp<unsigned int>::clear', Marked.h_clr, 'by contract stamp32.clear')]


@contract
class Analyze(Marked):
    name = 'conflict.analyze'
    root = 'w_ca_analyze'
    says = '''for every assignment M that satisfies the conflict clause, all reasons and the literals of level 0: M satisfies the learnt clause; all its literals are false, exactly the first is of the
    current level, and the others are of levels between 0 and the current one'''
    budget = 300

    def more(self, st):
        E, t, f = self.E, self.t, self.f
        b = B(E, st)
        self.ghost(st)
        self.involved = b.vec(self.o, 'OFF_CA_involved_clauses', 'involved', stride=8, fields={0: (8, PK(self.f.r))}, maxlen=1 << 30)
        self.model(st)
        self.k = k = Int('confl')
        DL = t.lim.len(st)
        st.assume(And(self.learnt.len(st) == 0, DL > 0, k > 0))
        # only the first literal of a level lacks a reason
        st.assume(E.forall(ZERO, t.V, lambda v: Implies(And(t.val(st, v) < 2, t.level(st, v) > 0, self.rs(st, v) == 0), t.pos(v) == t.lim.get(st, t.level(st, v) - 1))))
        n = f.len(st, k)
        L = lambda j: f.get(st, k, j)
        st.assume(E.forall(ZERO, n, lambda j: And(L(j) >= 0, L(j) < 2 * t.V, t.lfalse(st, L(j)))))
        w = Int('cur')
        st.assume(And(w >= 0, w < n, t.level(st, L(w) / 2) == DL))
        st.assume(E.exists(ZERO, n, lambda j: self.m(L(j))))
        return [Ptr(f.r, k, 0)]

    def some(self, st):
        """M satisfies a literal of the clause so far, or disagrees with a marked variable of the current level"""
        E, t, L = self.E, self.t, self.learnt
        n = L.len(st)
        return [And(n > 1, self.m(L.get(st, z3.simplify(n - 1)))), E.exists(IntVal(1), n, lambda k: self.m(L.get(st, k))), E.exists(ZERO, t.V, lambda v: And(self.mk(st, v), self.cur(st, v), Not(self.agrees(st, v))))]

    def lits_ok(self, st, L):
        E, t = self.E, self.t
        return E.forall(IntVal(1), L.len(st), lambda k: And(L.get(st, k) >= 0, L.get(st, k) < 2 * t.V, t.lfalse(st, L.get(st, k)), t.level(st, L.get(st, k) / 2) > 0, t.level(st, L.get(st, k) / 2) < t.lim.len(st)))

    def inv(self, c):
        E, s, o, t, f, L = self.E, c.st, self.E.old, self.t, self.f, self.learnt
        s.assume(self.counted(s))
        yield 'clause has begun', And(L.len(s) >= 1, L.len(s) <= E.vec_limit)
        yield 'clause literals', self.lits_ok(s, L)
        yield 'clause literals are marked', E.forall(IntVal(1), L.len(s), lambda k: self.mk(s, L.get(s, k) / 2))
        yield 'marked', E.forall(ZERO, t.V, lambda v: Implies(self.mk(s, v), And(self.asg(s, v), Or(self.cur(s, v), self.lvl0(s, v), And(L.len(s) > 1, L.get(s, z3.simplify(L.len(s) - 1)) / 2 == v),
                                                                                                    E.exists(IntVal(1), L.len(s), lambda k: L.get(s, k) / 2 == v)))))
        vals = c.vals()
        ints = [(l, x) for l, x in vals if z3.is_int(x) if not isinstance(x, Ptr)]
        tp = [(l, E.pidx(p)) for l, p in vals if isinstance(p, Ptr) and p.r is t.trail.r]
        cp = [(l, p) for l, p in vals if isinstance(p, Ptr) and p.r is f.r]
        its = [(l, p) for l, p in cp if num(p.off) != 0]
        objs = [(l, p) for l, p in cp if num(p.off) == 0]
        inner = bool(its)
        own = ['%' + I.res for I in E.phi_insts(c.header)]
        if own and all(l in [q for q, _ in tp] for l in own):
            tp = [q for q in tp if q[0] in own]
            ints, its, objs = [], [], []
        # what an integer can stand for, from its value when its loop is entered
        role = self.__dict__.setdefault('role', {})
        for l, x, x0 in c.scalars():
            if x0 is not None and num(x0) is not None:
                role[l] = num(x0)
        for l, x in ints:
            if inner and l not in own or role.get(l) == -2:
                continue
            yield 'counts the marked of the current level: ' + l, x == self.card(s)
        for l, p in tp:
            yield 'iterator %s' % l, And(p >= 0, p <= t.size(s))
            yield 'marked of the current level are below %s' % l, E.forall(ZERO, t.V, lambda v: Implies(And(self.mk(s, v), self.cur(s, v)), t.pos(v) < p))
        for la, a in ints:
            if inner and la in own or role.get(la, -2) != -2:
                continue
            yield 'asserted ' + la, Or(a == -2, And(a >= 0, a < 2 * t.V, t.ltrue(s, a), self.cur(s, a / 2), Not(self.mk(s, a / 2))))
            for l, p in tp:
                yield 'asserted %s at %s' % (la, l), Or(a == -2, And(p >= 1, t.lit(s, p - 1) == a))
                yield 'start %s at %s' % (la, l), Or(a != -2, p == t.size(s))
                for m, q in its + objs:
                    F = lambda j: f.get(s, q.id, j)
                    ok = E.forall(ZERO, f.len(s, q.id), lambda j: Or(F(j) == a, And(F(j) >= 0, F(j) < 2 * t.V, t.lfalse(s, F(j)), t.pos(F(j) / 2) < If(a == -2, p, p - 1))))
                    yield 'clause %s %s %s' % (m, la, l), Or(q.id == 0, ok)
            if not inner:
                yield 'start: nothing marked ' + la, Or(a != -2, self.card(s) == 0)
                yield 'follows %s' % la, Or(a == -2, self.m(neg(a)), *self.some(s))
                for m, q in objs:
                    F = lambda j: f.get(s, q.id, j)
                    yield 'reason %s %s' % (la, m), Or(a == -2, q.id == self.rs(s, a / 2))
                    yield 'conflict %s %s' % (la, m), Or(a != -2, q.id == self.k)
                    yield 'satisfied %s %s' % (la, m), Or(q.id == 0, E.exists(ZERO, f.len(s, q.id), lambda j: self.m(F(j))))
                    yield 'there %s %s' % (la, m), Or(q.id > 0, And(a != -2, self.card(s) == 0))
            for m, q in its:
                x = E.pidx(q)
                F = lambda j: f.get(s, q.id, j)
                yield 'follows with the rest %s %s' % (la, m), Or(*(self.some(s) + [E.exists(x, f.len(s, q.id), lambda j: And(F(j) != a, self.m(F(j))))]))
                yield 'a literal of the current level %s %s' % (la, m), Or(self.card(s) > 0, And(a == -2, E.exists(x, f.len(s, q.id), lambda j: And(F(j) != a, self.cur(s, F(j) / 2)))))
        for m, q in its:
            x = E.pidx(q)
            yield 'range ' + m, And(x >= 0, x <= f.len(s, q.id), q.id > 0)

    @method
    def h_min(self, E, st, args, I):
        """precondition and postcondition of the two minimisations"""
        t, L = self.t, self.learnt
        n = L.len(st)
        g = lambda k: L.get(st, k)
        st.assume(self.counted(st))
        E.oblige(st, 'before minimisation: literals false, level above 0', And(n >= 1, *self.learnt_ok(st, g, n)))
        E.oblige(st, 'before minimisation: the first literal, and no other, is of the current level', And(self.cur(st, g(ZERO) / 2), E.forall(IntVal(1), n, lambda k: Not(self.cur(st, g(k) / 2)))))
        E.oblige(st, 'before minimisation: the clause follows', Or(self.m(g(ZERO)), E.exists(ZERO, n, lambda k: self.m(g(k)))))
        if 'WithBinary' not in E.demangle.get(I.x[0][1], I.x[0][1]):
            E.oblige(st, 'before minimisation: the variables of the clause are marked', E.forall(IntVal(1), n, lambda k: self.mk(st, g(k) / 2)))
            E.oblige(st, 'before minimisation: nothing else above level 0 is marked', E.forall(ZERO, t.V, lambda v: Implies(self.mk(st, v), And(self.asg(st, v), Or(self.lvl0(st, v), E.exists(IntVal(1), n, lambda k: g(k) / 2 == v))))))
        o = st.copy()
        g0 = lambda k: L.get(o, k)
        n1, cap = Int(fresh_name('len')), Int(fresh_name('cap'))
        st.setcell(L.r, ('a', 0), z3.Const(fresh_name('learnt.min'), st.cell(L.r, ('a', 0)).sort()))
        st.setcell(self.g, ('a', 0), z3.Const(fresh_name('marked.min'), self.arr(st).sort()))
        st.assume(And(n1 >= 1, n1 <= n, cap >= n1, cap < 1 << 40))
        for i, x in ((1, n1), (2, cap)):
            hdr_set(E, st, Ptr(self.o, None, IntVal(L.off)), i, Ptr(L.r, None, 4 * x))
        st.assume(g(ZERO) == g0(ZERO))
        st.assume(E.forall(IntVal(1), n1, lambda j: E.exists(IntVal(1), n, lambda k: g0(k) == g(j))))
        st.assume(E.exists(ZERO, n1, lambda k: self.m(g(k))))

    def post(self, c):
        E, s, o, t, L = self.E, c.st, self.E.old, self.t, self.learnt
        n = L.len(s)
        g = lambda k: L.get(s, k)
        yield 'the learnt clause follows', E.exists(ZERO, n, lambda k: self.m(g(k)))
        yield 'its literals are false', And(n >= 1, *self.learnt_ok(s, g, n))
        yield 'the first literal, and no other, is of the current level', And(t.level(s, g(ZERO) / 2) == t.lim.len(s), E.forall(IntVal(1), n, lambda k: t.level(s, g(k) / 2) < t.lim.len(s)))
        yield from self.frame(s)


Analyze.handlers = MARKS + [(r'Candy::ConflictAnalysis::minimization', Analyze.h_min, 'by contract conflict.minimization, conflict.minimizationWithBinaryResolution')]


@contract
class Handle(Marked):
    name = 'conflict.handle_conflict'
    root = 'w_ca_handle'
    says = '''handle_conflict hands over a clause that every assignment M satisfying the clauses satisfies, whose literals are all false and of which the first, and no other, is of the current level; the level
    to return to is the highest among the other literals (0 if there are none), the second literal is of that level, and the quality measure is what computeLBD answers for the clause'''
    noinline = [r'Candy::ConflictAnalysis::analyze\(', r'Candy::Trail::computeLBD<', r'Candy::ClauseDatabase::reestimateClauseWeights']

    def more(self, st):
        E, t, f = self.E, self.t, self.f
        b = B(E, st)
        R = E.offs['OFF_DB_result']
        for k, kind in (('lbd', I32), ('level', I32), ('nConflicts', I64)):
            self.db.fixed[R + E.offs['OFF_AR_' + k]] = kind
        self.involved = b.vec(self.o, 'OFF_CA_involved_clauses', 'involved', stride=8, fields={0: (8, PK(f.r))}, maxlen=1 << 30)
        b.vec(self.db, R + E.offs['OFF_AR_learnt'], 'db.learnt', maxlen=1 << 30)
        b.vec(self.db, R + E.offs['OFF_AR_involved'], 'db.involved', stride=8, fields={0: (8, PK(f.r))}, maxlen=1 << 30)
        self.lbd = z3.Function('distinct levels', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())
        st.assume(t.lim.len(st) > 0)
        return [Ptr(f.r, Int('confl'), 0)]

    @method
    def h_analyze(self, E, st, args, I):
        t, L = self.t, self.learnt
        E.oblige(st, 'analysis starts with an empty clause', And(L.len(st) == 0, self.involved.len(st) == 0))
        n, cap = Int('n'), Int('cap')
        st.setcell(L.r, ('a', 0), z3.Const(fresh_name('learnt.new'), st.cell(L.r, ('a', 0)).sort()))
        st.assume(And(n >= 1, n < 1 << 30, cap >= n, cap < 1 << 40))
        for i, x in ((1, n), (2, cap)):
            hdr_set(E, st, Ptr(self.o, None, IntVal(L.off)), i, Ptr(L.r, None, 4 * x))
        g = lambda k: L.get(st, k)
        st.assume(And(self.good(st, g, n)))
        self.n0, self.a0 = n, st.cell(L.r, ('a', 0))

    def good(self, st, g, n):
        E, t = self.E, self.t
        return And(E.exists(ZERO, n, lambda k: self.m(g(k))), *self.learnt_ok(st, g, n), t.level(st, g(ZERO) / 2) == t.lim.len(st), E.forall(IntVal(1), n, lambda k: t.level(st, g(k) / 2) < t.lim.len(st)))

    @method
    def h_lbd(self, E, st, args, I):
        L = self.learnt
        b, e = args[1], args[2]
        E.oblige(st, 'the quality measure is taken of the whole clause', And(BoolVal(b.r is L.r and e.r is L.r), E.pidx(b) == 0, E.pidx(e) == L.len(st)))
        E.oblige(st, 'the literals have existing levels', E.forall(ZERO, L.len(st), lambda k: And(L.get(st, k) >= 0, L.get(st, k) < 2 * self.t.V, self.t.level(st, L.get(st, k) / 2) >= 0, self.t.level(st, L.get(st, k) / 2) <= self.t.lim.len(st))))
        self.measured = self.lbd(st.cell(L.r, ('a', 0)), L.len(st))
        st.assume(And(self.measured >= 0, self.measured <= L.len(st)))
        return self.measured

    def inv(self, c):
        E, s, t, L = self.E, c.st, self.t, self.learnt
        n = L.len(s)
        g = lambda k: L.get(s, k)
        for n_, x in c.vals():
            if z3.is_int(x):
                hints = [self.m(g(IntVal(1))), self.m(g(z3.simplify(x - 1)))]
        yield 'literals', And(*self.learnt_ok(s, g, n))
        yield 'first of the current level', t.level(s, g(ZERO) / 2) == t.lim.len(s)
        yield 'others below', E.forall(IntVal(1), n, lambda k: t.level(s, g(k) / 2) < t.lim.len(s))
        for l, x in c.vals():
            if not z3.is_int(x):
                continue
            yield 'range ' + l, And(x >= 2, x <= n)
            yield 'second has this level ' + l, x == t.level(s, g(IntVal(1)) / 2)
            for l2, y in c.vals():
                if l2 != l:
                    yield 'highest so far %s %s' % (l, l2), E.forall(IntVal(1), y, lambda k: t.level(s, g(k) / 2) <= x)
                    yield 'follows ' + l2, Or(self.m(g(ZERO)), self.m(g(IntVal(1))), And(y > 2, self.m(g(z3.simplify(y - 1)))), E.exists(IntVal(1), n, lambda k: self.m(g(k))))

    def post(self, c):
        E, s, o, t = self.E, c.st, self.E.old, self.t
        R = E.offs['OFF_DB_result']
        w = View(E, s, self.db, R + E.offs['OFF_AR_learnt'])
        n = w.len()
        g = lambda k: w.get(k)
        yield 'the clause follows', Or(self.m(g(ZERO)), self.m(g(IntVal(1))), E.exists(ZERO, n, lambda k: self.m(g(k))))
        yield 'its literals are false', And(n >= 1, *self.learnt_ok(s, g, n))
        yield 'the first literal, and no other, is of the current level', And(t.level(s, g(ZERO) / 2) == t.lim.len(s), E.forall(IntVal(1), n, lambda k: t.level(s, g(k) / 2) < t.lim.len(s)))
        bl = fld(E, s, self.db, R + E.offs['OFF_AR_level'])
        yield 'the level to return to', If(n == 1, bl == 0, And(t.level(s, g(IntVal(1)) / 2) == bl, E.forall(IntVal(1), n, lambda k: t.level(s, g(k) / 2) <= bl)))
        yield 'the quality measure', fld(E, s, self.db, R + E.offs['OFF_AR_lbd']) == self.measured
        yield from self.frame(s)


Handle.handlers = [(r'Candy::ConflictAnalysis::analyze\(', Handle.h_analyze, 'by contract conflict.analyze'), (r'Candy::Trail::computeLBD<', Handle.h_lbd, 'by contract trail.computeLBD (the order of the literals does not matter)'),
                   (r'Candy::ClauseDatabase::reestimateClauseWeights', lambda E, st, args, I: None, 'reestimateClauseWeights changes the weights of clauses only')]


@contract
class Final(Marked):
    name = 'conflict.analyzeFinal'
    root = 'w_ca_final'
    prop = 'C02'
    says = '''for a literal p that is true and every assignment M that satisfies all reasons and the literals of level 0: the answer starts with p, its other literals are negations of trail literals without a
    reason above level 0 (decisions, that is assumptions), and M satisfies one of its literals'''

    def more(self, st):
        E, t = self.E, self.t
        self.ghost(st)
        self.model(st)
        self.out = B(E, st).obj('out')
        for i in (0, 8, 16):
            self.out.fixed[i] = (8, 'ptr')
            st.mem[('out', ('f', i))] = NULL
        E.elems = {'Candy::Lit': (4, {0: I32})}
        self.p = Int('p')
        st.assume(And(self.p >= 0, self.p < 2 * t.V, t.ltrue(st, self.p)))
        st.assume(E.forall(ZERO, t.lim.len(st), lambda k: t.lim.get(st, k) < (1 << 30)))
        return [self.p]

    def setup(self, st):
        a = super().setup(st)
        return [Ptr(self.out)] + a

    def some(self, s, w):
        E, t = self.E, self.t
        n = w.len()
        return Or(self.m(self.p), And(n > 1, self.m(w.get(z3.simplify(n - 1)))), E.exists(ZERO, n, lambda k: self.m(w.get(k))), E.exists(ZERO, t.V, lambda v: And(self.mk(s, v), Not(self.agrees(s, v)))))

    def elems(self, s, w):
        E, t = self.E, self.t
        n = w.len()
        return And(n >= 1, w.get(ZERO) == self.p, E.forall(IntVal(1), n, lambda k: And(w.get(k) >= 0, w.get(k) < 2 * t.V, t.lfalse(s, w.get(k)), self.rs(s, w.get(k) / 2) == 0, t.level(s, w.get(k) / 2) > 0)))

    def inv(self, c):
        E, s, t, f = self.E, c.st, self.t, self.f
        w = View(E, s, self.out, 0)
        if w.e.r is None:
            return
        yield 'length', And(w.len() >= 1, w.len() <= E.vec_limit)
        yield 'elements', self.elems(s, w)
        yield 'marked are assigned', E.forall(ZERO, t.V, lambda v: Implies(self.mk(s, v), self.asg(s, v)))
        vals = c.vals()
        its = [(l, p) for l, p in vals if isinstance(p, Ptr) and p.r is f.r]
        ints = [(l, x) for l, x in vals if z3.is_int(x)]
        for l, x in ints:
            yield 'range ' + l, And(x >= -1, x < t.size(s))
            yield 'marked are at most at ' + l, E.forall(ZERO, t.V, lambda v: Implies(self.mk(s, v), t.pos(v) <= x))
            for m, q in its:
                F = lambda j: f.get(s, q.id, j)
                yield 'reason %s of %s' % (m, l), And(x >= 0, q.id == self.rs(s, t.lit(s, x) / 2), self.mk(s, t.lit(s, x) / 2))
        if not its:
            yield 'follows', self.some(s, w)
        for m, q in its:
            k = E.pidx(q)
            F = lambda j: f.get(s, q.id, j)
            yield 'range ' + m, And(k >= 0, k <= f.len(s, q.id), q.id > 0)
            for l, x in ints:
                yield 'follows %s %s' % (m, l), Or(self.m(self.p), E.exists(ZERO, w.len(), lambda j: self.m(w.get(j))), E.exists(ZERO, t.V, lambda v: And(self.mk(s, v), v != t.lit(s, x) / 2, Not(self.agrees(s, v)))),
                                                 E.exists(k, f.len(s, q.id), lambda j: And(self.m(F(j)), F(j) / 2 != t.lit(s, x) / 2)))

    def post(self, c):
        E, s, t = self.E, c.st, self.t
        w = View(E, s, self.out, 0)
        yield 'the literals', self.elems(s, w)
        yield 'M satisfies one of them', Or(self.m(self.p), E.exists(ZERO, w.len(), lambda k: self.m(w.get(k))))
        yield from self.frame(s)


Final.handlers = MARKS
