from lib import *
from contract import Contract, contract, method
from shapes import TrailShape

FRAME = ['decision', 'assumptions', 'stamped']


class TrailC(Contract):
    prop = 'C05'
    assumes = ('pigeonhole principle: a trail of distinct variables below V that misses one of them is shorter than V',)
    tu = 'trail'

    def mk(self, st, **k):
        self.t = TrailShape(self.E, st, **k)
        return self.t

    def wfpost(self, st, pos):
        for n, f in self.t.wf(st, pos):
            yield n, f


class SetLit(TrailC):
    def setup(self, st):
        t = self.mk(st)
        self.p = Int('p')
        st.assume(And(self.p >= 0, self.p < 2 * t.V))
        self.more(st, t)
        self.from_ = None
        return [t.ptr(), self.p]

    def more(self, st, t):
        st.assume(t.lundef(st, self.p))
        self.pigeon(st, t)

    def pigeon(self, st, t):
        # pigeonhole: the trail holds distinct variables below V (wf); if some variable is not on it, it is shorter than V
        st.assume(Implies(t.lundef(st, self.p), t.size(st) < t.V))

    def reason_term(self):
        return ZERO

    def set_posts(self, c, guard=BoolVal(True)):
        st, t, p, E, o = c.st, self.t, self.p, self.E, self.E.old
        n = t.size(o)
        pos = lambda v: If(v == p / 2, n, t.pos(v))
        def G(n, f):
            return n, Implies(guard, f)
        for nm, f in t.wf(st, pos):
            yield G(nm, f)
        yield G('one literal is appended', And(t.size(st) == n + 1, t.lit(st, n) == p, E.forall(ZERO, n, lambda k: t.lit(st, k) == t.lit(o, k))))
        yield G('the literal is true, all other variables keep their value', E.forall(ZERO, t.V, lambda v: If(v == p / 2, t.val(st, v) == p % 2, t.val(st, v) == t.val(o, v))))
        yield G('level and reason are those given, others unchanged', E.forall(ZERO, t.V, lambda v: If(v == p / 2,
                And(t.level(st, v) == t.lim.len(o), t.reason(st, v) == self.reason_term()),
                And(t.level(st, v) == t.level(o, v), t.reason(st, v) == t.reason(o, v)))))
        yield G('queue head unchanged', t.qhead(st) == t.qhead(o))
        for nm, f in t.unchanged(st, FRAME + ['lim']):
            yield G(nm, f)

    def same_posts(self, c, guard):
        st, t, o = c.st, self.t, self.E.old
        yield 'refused: nothing changes', Implies(guard, And(t.size(st) == t.size(o), t.qhead(st) == t.qhead(o)))
        for nm, f in t.unchanged(st, FRAME + ['lim', 'trail', 'assigns', 'vardata']):
            yield 'refused: ' + nm, Implies(guard, f)


@contract
class Decide(SetLit):
    name = 'trail.decide'
    root = 'w_trail_decide'
    says = 'decide(p) of an unassigned literal appends p, makes it true at the current level without a reason, and changes nothing else'

    def post(self, c):
        yield from self.set_posts(c)


@contract
class Propagate(SetLit):
    name = 'trail.propagate'
    root = 'w_trail_propagate'
    says = 'propagate(p, c) refuses a false literal without any change; an unassigned literal is appended with reason c at the current level'

    def setup(self, st):
        a = super().setup(st)
        self.rid = Int('from')
        st.assume(self.rid >= 0)
        return a + [Ptr(self.t.reasons, self.rid, 0)]

    def more(self, st, t):
        st.assume(Not(t.ltrue(st, self.p)))
        self.pigeon(st, t)

    def reason_term(self):
        return self.rid

    def post(self, c):
        f = self.t.lfalse(self.E.old, self.p)
        yield 'refused exactly if the literal is false', c.ret == Not(f)
        yield from self.set_posts(c, Not(f))
        yield from self.same_posts(c, f)


@contract
class Fact(SetLit):
    name = 'trail.fact'
    root = 'w_trail_fact'
    says = 'fact(p) at level 0 refuses a false literal without any change, and otherwise makes p true at level 0 without a reason'

    def more(self, st, t):
        st.assume(t.lim.len(st) == 0)
        self.pigeon(st, t)

    def post(self, c):
        t, st, o = self.t, c.st, self.E.old
        f, tr = t.lfalse(o, self.p), t.ltrue(o, self.p)
        yield 'refused exactly if the literal is false', c.ret == Not(f)
        yield from self.set_posts(c, t.lundef(o, self.p))
        yield from self.same_posts(c, f)
        yield 'already true: assignment and trail unchanged', Implies(tr, And(t.size(st) == t.size(o), t.qhead(st) == t.qhead(o)))
        for nm, g in t.unchanged(st, FRAME + ['lim', 'trail', 'assigns']):
            yield 'already true: ' + nm, Implies(tr, g)
        yield 'already true: only this variable\'s level and reason are reset', Implies(tr, self.E.forall(ZERO, t.V, lambda v: If(v == self.p / 2,
              And(t.level(st, v) == 0, t.reason(st, v) == 0), And(t.level(st, v) == t.level(o, v), t.reason(st, v) == t.reason(o, v)))))


@contract
class Backtrack(TrailC):
    name = 'trail.backtrack'
    root = 'w_trail_backtrack'
    says = 'backtrack(l) removes exactly the assignments made above level l, keeps everything else, and resumes propagation within what is left'

    def setup(self, st):
        t = self.mk(st)
        self.l = Int('level')
        st.assume(And(self.l >= 0, self.l < (1 << 31)))
        return [t.ptr(), self.l]

    def inv(self, c):
        t, st, E, o = self.t, c.st, self.E, self.E.old
        lim = t.lim.get(o, self.l)
        for l, x, x0 in c.scalars():
            yield 'up ' + l, E.forall(ZERO, t.V, lambda v: If(And(t.val(o, v) < 2, t.pos(v) >= lim, t.pos(v) < x), t.val(st, v) >= 2, t.val(st, v) == t.val(o, v)))
            yield 'from limit ' + l, x >= lim
            yield 'to end ' + l, x <= t.size(o)
            yield 'down ' + l, E.forall(ZERO, t.V, lambda v: If(And(t.val(o, v) < 2, t.pos(v) >= x), t.val(st, v) >= 2, t.val(st, v) == t.val(o, v)))
        yield 'val range', E.forall(ZERO, t.V, lambda v: And(t.val(st, v) >= 0, t.val(st, v) <= 3))
        yield 'size in range', And(t.size(st) <= t.size(o), t.size(st) >= lim)

    def post(self, c):
        t, st, E, o = self.t, c.st, self.E, self.E.old
        dl = t.lim.len(o)
        act = dl > self.l
        lim = t.lim.get(o, self.l)
        n = If(act, lim, t.size(o))
        yield 'the trail is cut at the level limit', t.size(st) == n
        yield 'kept trail literals unchanged', E.forall(ZERO, n, lambda k: t.lit(st, k) == t.lit(o, k))
        yield 'exactly the assignments above the level are undone', E.forall(ZERO, t.V, lambda v: If(And(act, t.val(o, v) < 2, t.pos(v) >= lim),
              t.val(st, v) >= 2, t.val(st, v) == t.val(o, v)))
        yield 'the level is the requested one', t.lim.len(st) == If(act, self.l, dl)
        yield 'lower level limits unchanged', E.forall(ZERO, t.lim.len(st), lambda k: t.lim.get(st, k) == t.lim.get(o, k))
        yield 'propagation resumes within what is left', And(t.qhead(st) >= 0, t.qhead(st) <= t.size(st), Implies(Not(act), t.qhead(st) == t.qhead(o)))
        yield from self.wfpost(st, lambda v: t.pos(v))
        for nm, f in t.unchanged(st, FRAME):
            yield nm, f
        yield 'levels and reasons of kept assignments unchanged', E.forall(ZERO, t.V, lambda v: Implies(t.val(st, v) < 2, And(t.level(st, v) == t.level(o, v), t.reason(st, v) == t.reason(o, v))))


@contract
class NewLevel(TrailC):
    name = 'trail.newDecisionLevel'
    root = 'w_trail_newlevel'
    says = 'newDecisionLevel opens one level at the current end of the trail and changes nothing else'

    def setup(self, st):
        return [self.mk(st).ptr()]

    def post(self, c):
        t, st, E, o = self.t, c.st, self.E, self.E.old
        yield 'one more level', And(t.lim.len(st) == t.lim.len(o) + 1, t.lim.get(st, t.lim.len(o)) == t.size(o))
        yield 'lower limits unchanged', E.forall(ZERO, t.lim.len(o), lambda k: t.lim.get(st, k) == t.lim.get(o, k))
        yield 'sizes unchanged', And(t.size(st) == t.size(o), t.qhead(st) == t.qhead(o))
        for nm, f in t.unchanged(st, FRAME + ['trail', 'assigns', 'vardata']):
            yield nm, f
        yield from self.wfpost(st, lambda v: t.pos(v))


@contract
class Reset(TrailC):
    name = 'trail.reset'
    root = 'w_trail_reset'
    says = 'reset leaves every variable unassigned, with no levels and an empty trail'

    def setup(self, st):
        return [self.mk(st).ptr()]

    def inv(self, c):
        t, st, E, o = self.t, c.st, self.E, self.E.old
        for l, x, x0 in c.scalars():
            yield 'cleared below ' + l, E.forall(ZERO, x, lambda v: Implies(v < t.V, t.val(st, v) >= 2))
            yield 'reason below ' + l, E.forall(ZERO, x, lambda v: Implies(v < t.V, And(t.reason(st, v) == 0, t.level(st, v) == 0)))
        yield 'all cleared', E.forall(ZERO, t.V, lambda v: t.val(st, v) >= 2)
        yield 'range', E.forall(ZERO, t.V, lambda v: And(t.val(st, v) >= 0, t.val(st, v) <= 3))

    def post(self, c):
        t, st, E, o = self.t, c.st, self.E, self.E.old
        yield 'nothing is assigned', And(t.size(st) == 0, t.qhead(st) == 0, t.lim.len(st) == 0, E.forall(ZERO, t.V, lambda v: t.val(st, v) >= 2))
        yield from self.wfpost(st, lambda v: t.pos(v))
        for nm, f in t.unchanged(st, FRAME):
            yield nm, f


@contract
class Init(TrailC):
    name = 'trail.init'
    root = 'w_trail_init'
    says = 'init(n) only ever grows the trail; existing assignments, levels and decision flags stay, new variables are unassigned decision variables'

    def setup(self, st):
        t = self.mk(st)
        self.n = Int('n')
        st.assume(And(self.n >= 0, self.n < (1 << 30)))
        return [t.ptr(), self.n]

    def post(self, c):
        t, st, E, o = self.t, c.st, self.E, self.E.old
        V2 = If(self.n > t.V, self.n, t.V)
        yield 'number of variables', And(t.assigns.len(st) == V2, t.decision.len(st) == V2, fld(E, st, t.o, 'OFF_T_variables') == V2)
        yield 'existing variables keep their state', E.forall(ZERO, t.V, lambda v: And(t.val(st, v) == t.val(o, v), t.level(st, v) == t.level(o, v), t.reason(st, v) == t.reason(o, v), t.decision.get(st, v) == t.decision.get(o, v)))
        yield 'new variables are unassigned decision variables', E.forall(t.V, V2, lambda v: And(t.val(st, v) >= 2, t.decision.get(st, v) != 0))
        yield 'trail kept', And(t.size(st) == t.size(o), t.qhead(st) == t.qhead(o), E.forall(ZERO, t.size(o), lambda k: t.lit(st, k) == t.lit(o, k)))
        yield from self.wfpost(st, lambda v: t.pos(v))


@contract
class Value(TrailC):
    name = 'trail.value'
    root = 'w_trail_value'
    says = 'value(p), satisfies(p) and falsifies(p) agree with the variable\'s value and the sign of p'

    def setup(self, st):
        t = self.mk(st)
        self.p = Int('p')
        st.assume(And(self.p >= 0, self.p < 2 * t.V))
        return [t.ptr(), self.p]

    def post(self, c):
        t, o = self.t, self.E.old
        r = c.ret
        yield 'value', r == If(t.ltrue(o, self.p), 1 + 8, If(t.lfalse(o, self.p), 2 + 16, 4))
        for nm, f in t.unchanged(c.st, FRAME + ['lim', 'trail', 'assigns', 'vardata']):
            yield nm, f


class AnyAll(TrailC):
    def setup(self, st):
        t = self.mk(st, levels=False)
        self.c = B(self.E, st).clause('C')
        st.assume(self.E.forall(ZERO, self.c.len(st), lambda k: self.c.get(st, k) < 2 * t.V))
        return [t.ptr(), Ptr(self.c.r)]

    def inv(self, c):
        t, st, E, C = self.t, c.st, self.E, self.c
        for l, x, x0 in c.scalars():
            yield 'none ' + l, E.forall(ZERO, x, lambda k: Implies(k < C.len(st), Not(self.hit(st, C.get(st, k)))))

    def post(self, c):
        t, st, E, o, C = self.t, c.st, self.E, self.E.old, self.c
        ex = E.exists(ZERO, C.len(o), lambda k: self.hit(o, C.get(o, k)))
        yield 'answer', c.ret == (ex if self.pol else Not(ex))
        for nm, f in t.unchanged(st, FRAME + ['lim', 'trail', 'assigns', 'vardata']):
            yield nm, f


@contract
class Satisfies(AnyAll):
    name = 'trail.satisfies'
    root = 'w_trail_satisfies'
    says = 'satisfies(clause) exactly if some literal is true'
    pol = True

    def hit(self, st, p):
        return self.t.ltrue(st, p)


@contract
class Falsifies(AnyAll):
    name = 'trail.falsifies'
    root = 'w_trail_falsifies'
    says = 'falsifies(clause) exactly if all literals are false'
    pol = False

    def hit(self, st, p):
        return Not(self.t.lfalse(st, p))


@contract
class LBD(TrailC):
    name = 'trail.computeLBD'
    root = 'w_trail_lbd'
    says = '''computeLBD(clause) is the number of different levels of its literals (the number of literals whose level no earlier literal has), for literals of existing levels, even if there are more
    levels than variables; every mark it sets or reads lies within the marking array; the assignment is unchanged'''
    noinline = [r'Stamp<unsigned int>::(clear|set|grow|operator\[\])\(']
    assumes = ('the number of different values of a finite sequence is the number of its first occurrences',)

    def setup(self, st):
        E = self.E
        t = self.mk(st, levels=False)
        self.c = C = B(E, st).clause('C')
        self.g = E.region('marked', start=0, stride=1, fields={0: I8})
        self.go = E.region('marks.size', fixed={0: I32})
        self.g.length = lambda s, id: self.nm(s)
        st.assume(self.nm(st) >= 0)
        lv = lambda k: t.level(st, C.get(st, k) / 2)
        st.assume(E.forall(ZERO, C.len(st), lambda k: And(C.get(st, k) >= 0, C.get(st, k) < 2 * t.V, lv(k) >= 0, lv(k) <= t.lim.len(st))))
        self.first = z3.Function('first', z3.IntSort(), z3.IntSort())
        self.cnt = z3.Function('cnt', z3.IntSort(), z3.IntSort())
        self.lv = lv
        n = C.len(st)
        # ghost definitions: first(l) is the first position of level l (n if there is none); cnt(k) counts the first occurrences before k
        st.assume(E.forall(ZERO, n, lambda k: And(self.first(lv(k)) >= 0, self.first(lv(k)) <= k)))
        st.assume(E.forall(ZERO, t.lim.len(st) + 1, lambda l: And(self.first(l) >= 0, self.first(l) <= n, Implies(self.first(l) < n, lv(self.first(l)) == l))))
        st.assume(self.cnt(ZERO) == 0)
        st.assume(E.forall(ZERO, n, lambda k: self.cnt(k + 1) == self.cnt(k) + If(self.first(lv(k)) == k, IntVal(1), ZERO)))
        return [t.ptr(), Ptr(C.r)]

    def nm(self, st):
        return self.E.rd(st, self.go, None, ('f', 0))

    def marked(self, st, l):
        return self.E.rd(st, self.g, None, ('a', 0), l) == 1

    @method
    def h_grow(self, E, st, args, I):
        m = z3.Int(fresh_name('marks'))
        st.assume(And(m >= self.nm(st), m >= args[1]))
        E.wr(st, self.go, None, ('f', 0), None, m)

    @method
    def h_clear(self, E, st, args, I):
        a = st.cell(self.g, ('a', 0))
        st.setcell(self.g, ('a', 0), z3.Const(fresh_name('marked.cleared'), a.sort()))
        st.assume(E.forall(ZERO, self.nm(st), lambda v: Not(self.marked(st, v))))

    @method
    def h_set(self, E, st, args, I):
        E.oblige(st, 'mark within the array', And(args[1] >= 0, args[1] < self.nm(st)))
        E.wr(st, self.g, None, ('a', 0), args[1], IntVal(1))

    @method
    def h_get(self, E, st, args, I):
        E.oblige(st, 'mark within the array', And(args[1] >= 0, args[1] < self.nm(st)))
        return self.marked(st, args[1])

    def inv(self, c):
        st, E, C, t = c.st, self.E, self.c, self.t
        yield 'marks reach every level', self.nm(st) > t.lim.len(st)
        for l, x, x0 in c.scalars():
            yield 'position ' + l, And(x >= 0, x <= C.len(st))
            yield 'marks are the levels seen before ' + l, E.forall(ZERO, t.lim.len(st) + 1, lambda v: self.marked(st, v) == (self.first(v) < x))
            for l2, y, y0 in c.scalars():
                if l2 != l:
                    yield 'count %s %s' % (l, l2), y == self.cnt(x)

    def post(self, c):
        t, st, C = self.t, c.st, self.c
        yield 'number of different levels', c.ret == self.cnt(C.len(self.E.old))
        for nm, f in t.unchanged(st, ['decision', 'assumptions', 'lim', 'trail', 'assigns', 'vardata']):
            yield nm, f


LBD.handlers = [(r'Stamp<unsigned int>::grow', LBD.h_grow, 'by contract stamp32.grow'), (r'Stamp<unsigned int>::clear', LBD.h_clear, 'by contract stamp32.clear'),
                (r'Stamp<unsigned int>::set', LBD.h_set, 'by contract stamp32.set'), (r'Stamp<unsigned int>::operator\[\]', LBD.h_get, 'by contract stamp32.get')]


@contract
class SetAssumptions(TrailC):
    name = 'trail.setAssumptions'
    root = 'w_trail_assume'
    prop = 'C02'
    also = ('C11',)
    says = 'setAssumptions(a) for literals of the variables of the trail makes the list of assumptions a copy of a; the assignment stays as it is'
    noinline = [r'Candy::Trail::init']
    handlers = [(r'Candy::Trail::init', None, '')]

    def setup(self, st):
        E = self.E
        t = self.mk(st)
        b = B(E, st)
        h = b.obj('given')
        self.a = a = b.vec(h, 0, 'a', maxlen=1 << 30)
        st.assume(E.forall(ZERO, a.len(st), lambda k: And(a.get(st, k) >= 0, a.get(st, k) < 2 * t.V)))
        return [t.ptr(), Ptr(h)]

    @method
    def h_init(self, E, st, args, I):
        E.oblige(st, 'the trail is not set up anew for a variable it has', BoolVal(False))

    def inv(self, c):
        st, E = c.st, self.E
        v = self.t.assum
        for l, x in c.ptrs():
            if x.r is self.a.r:
                i = E.pidx(x)
                yield 'position ' + l, And(i >= 0, i <= self.a.len(st))
                yield 'length ' + l, v.len(st) == i
                yield 'copied ' + l, And(E.forall(ZERO, i, lambda k: v.get(st, k) == self.a.get(E.old, k)))

    def post(self, c):
        st, E, t = c.st, self.E, self.t
        v = t.assum
        yield 'a copy', And(v.len(st) == self.a.len(E.old), E.forall(ZERO, v.len(st), lambda k: v.get(st, k) == self.a.get(E.old, k)))
        yield 'the list that was given is unchanged', And(self.a.len(st) == self.a.len(E.old), E.forall(ZERO, self.a.len(st), lambda k: self.a.get(st, k) == self.a.get(E.old, k)))
        for nm, f in t.unchanged(st, ['decision', 'stamped', 'lim']):
            yield nm, f
        yield 'the assignment is unchanged', And(t.size(st) == t.size(E.old), E.forall(ZERO, t.V, lambda k: t.val(st, k) == t.val(E.old, k)))


SetAssumptions.handlers = [(r'Candy::Trail::init', SetAssumptions.h_init, 'by contract trail.init')]
