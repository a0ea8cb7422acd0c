"""C07: resolvents of variable elimination."""
from lib import *
from contract import Contract, contract, method
from sym import fresh_name


class Merge(Contract):
    """two clauses without repeated variables, resolved on a variable that occurs in both"""
    prop = 'C07'
    tu = 'elim'
    budget = 200
    p_short = True

    def setup(self, st):
        E = self.E
        E.fork_selects = True
        b = B(E, st)
        self.e = b.obj('elimination')
        self.p, self.q = b.clause('P'), b.clause('Q')
        self.v, self.jp, self.jq = Int('v'), Int('jp'), Int('jq')
        st.assume(And(self.v >= 0, self.v < 1 << 30))
        for c, j, l in ((self.p, self.jp, 2 * self.v), (self.q, self.jq, 2 * self.v + 1)):
            n = c.len(st)
            st.assume(And(j >= 0, j < n, c.get(st, j) == l))
            st.assume(E.forall(ZERO, n, lambda i: E.forall(ZERO, n, lambda k: Implies(i != k, c.get(st, i) / 2 != c.get(st, k) / 2))))
        # how many literals of the shorter clause (below j) neither are on v nor have their variable in the longer one
        self.cnt = z3.Function('extra', z3.IntSort(), z3.IntSort())
        self.small, self.big, self.js, self.jb = None, None, None, None
        # the clause the code walks through in the outer loop is the shorter one (Q when they are equally long)
        lt = self.p.len(st) < self.q.len(st)
        st.assume(lt if self.p_short else Not(lt))
        S, G = (self.p, self.q) if self.p_short else (self.q, self.p)
        self.S, self.G = S, G
        self.sm, self.bg = (lambda s, k: S.get(s, k)), (lambda s, k: G.get(s, k))
        self.ns, self.nb = S.len(st), G.len(st)
        self.jb = self.jq if self.p_short else self.jp
        self.new = lambda s, k: And(self.sm(s, k) / 2 != self.v, Not(E.exists(ZERO, self.nb, lambda m: self.bg(s, m) / 2 == self.sm(s, k) / 2)))
        st.assume(self.cnt(0) == 0)
        st.assume(E.forall(ZERO, self.ns, lambda k: And(self.cnt(k + 1) == self.cnt(k) + If(self.new(st, k), 1, 0), self.cnt(k) >= 0, self.cnt(k) <= k)))
        return [Ptr(self.e), Ptr(self.p.r), Ptr(self.q.r), self.v] + self.more(st)

    def clash(self, s, k):
        """literal k of the shorter clause is negated in the longer one, and is not on v"""
        return And(self.sm(s, k) / 2 != self.v, self.E.exists(ZERO, self.nb, lambda m: self.bg(s, m) == neg(self.sm(s, k))))

    def which(self, c):
        """(iterator over the shorter clause, iterators over the longer one) among the loop's own values"""
        s, E = c.st, self.E
        sm, bg = [], []
        for l, p in c.vals():
            if isinstance(p, Ptr) and p.r in (self.p.r, self.q.r):
                yield l, p.r is self.S.r, E.pidx(p)

    def same(self, s, o):
        E = self.E
        for nm, c in (('P', self.p), ('Q', self.q)):
            yield 'clause %s unchanged' % nm, And(c.len(s) == c.len(o), E.forall(ZERO, c.len(o), lambda k: c.get(s, k) == c.get(o, k)))


class Size(Merge):
    name = 'elim.merge.size'
    root = 'w_merge_size'
    says = '''for clauses P (with the variable) and Q (with its negation), neither with a repeated variable: the answer is false exactly if a literal other than those on the variable occurs in one and negated in
    the other, and otherwise the size computed is the number of literals of the resolvent'''

    def more(self, st):
        b = B(self.E, st)
        self.out = b.obj('size', )
        self.out.fixed[0] = I64
        return [Ptr(self.out)]

    def val(self, s):
        return self.E.rd(s, self.out, None, ('f', 0))

    def inv(self, c):
        E, s, o = self.E, c.st, self.E.old
        its = list(self.which(c))
        for l, small, x in its:
            n = self.ns if small else self.nb
            yield 'range ' + l, And(x >= 0, x <= n)
            if small:
                yield 'outer count ' + l, And(self.val(s) == self.nb - 1 + self.cnt(x), self.cnt(x) >= 0)
            if small:
                yield 'outer no clash ' + l, E.forall(ZERO, x, lambda k: Not(self.clash(s, k)))
            for m, small2, y in its:
                if small and not small2:
                    if small:
                        yield 'inner %s %s' % (l, m), E.forall(ZERO, y, lambda k: self.bg(s, k) / 2 != self.sm(s, x) / 2)
                    if small:
                        yield 'inner not v %s %s' % (l, m), And(x < n, self.sm(s, x) / 2 != self.v)

    def post(self, c):
        E, s, o = self.E, c.st, self.E.old
        yield 'false exactly for tautologies', c.ret == Not(E.exists(ZERO, self.ns, lambda k: self.clash(o, k)))
        yield 'the size of the resolvent', Implies(c.ret, self.val(s) == self.nb - 1 + self.cnt(self.ns))
        yield from self.same(s, o)


class Lits(Merge):
    name = 'elim.merge.literals'
    root = 'w_merge_lits'
    says = '''for clauses P (with the variable) and Q (with its negation), neither with a repeated variable: the answer is false exactly if a literal other than those on the variable occurs in one and negated in
    the other; otherwise the result consists of exactly the literals of both clauses on other variables, and is as long as elim.merge.size says'''

    def more(self, st):
        E = self.E
        E.elems = {'Candy::Lit': (4, {0: I32})}
        self.ho = B(E, st).obj('out')
        self.out = B(E, st).vec(self.ho, 0, 'out.data', maxlen=1 << 30)
        E.vec_limit = 1 << 30
        return [Ptr(self.ho)]

    def res(self, s):
        return View(self.E, s, self.ho, 0)

    def from_both(self, s, o, w, big):
        """every literal of the result is one of the clauses' own, not on v"""
        E = self.E
        return E.forall(ZERO, w.len(), lambda k: And(w.get(k) / 2 != self.v, Or(E.exists(ZERO, self.ns, lambda j: self.sm(o, j) == w.get(k)), E.exists(ZERO, self.nb, lambda j: self.bg(o, j) == w.get(k)) if big else BoolVal(False))))

    def has(self, w, x, at=None):
        E = self.E
        n = w.len()
        return Or(And(n > 0, w.get(z3.simplify(n - 1)) == x), E.exists(ZERO, n, lambda k: w.get(k) == x))

    def small_done(self, s, o, w, x):
        E = self.E
        return E.forall(ZERO, x, lambda j: Implies(self.new(o, j), self.has(w, self.sm(o, j))))

    def inv(self, c):
        E, s, o = self.E, c.st, self.E.old
        w = self.res(s)
        its = list(self.which(c))
        for l, small, x in its:
            n = self.ns if small else self.nb
            yield 'range ' + l, And(x >= 0, x <= n)
            if small:
                yield 'outer length ' + l, And(w.len() == self.cnt(x))
            if small:
                yield 'outer from ' + l, self.from_both(s, o, w, False)
            if small:
                yield 'outer done ' + l, self.small_done(s, o, w, x)
            if small:
                yield 'outer no clash ' + l, E.forall(ZERO, x, lambda k: Not(self.clash(o, k)))
            if len(its) == 1:
                if not small:
                    yield 'second length ' + l, And(w.len() == self.cnt(self.ns) + x - If(x > self.jb, 1, 0))
                if not small:
                    yield 'second from ' + l, self.from_both(s, o, w, True)
                if not small:
                    yield 'second small done ' + l, self.small_done(s, o, w, self.ns)
                if not small:
                    yield 'second done ' + l, E.forall(ZERO, x, lambda j: Implies(self.bg(o, j) / 2 != self.v, self.has(w, self.bg(o, j))))
                if not small:
                    yield 'second no clash ' + l, E.forall(ZERO, self.ns, lambda k: Not(self.clash(o, k)))
            for m, small2, y in its:
                if small and not small2:
                    if small:
                        yield 'inner %s %s' % (l, m), E.forall(ZERO, y, lambda k: self.bg(o, k) / 2 != self.sm(o, x) / 2)
                    if small:
                        yield 'inner not v %s %s' % (l, m), And(x < n, self.sm(o, x) / 2 != self.v)

    def post(self, c):
        E, s, o = self.E, c.st, self.E.old
        w = self.res(s)
        yield 'false exactly for tautologies', c.ret == Not(E.exists(ZERO, self.ns, lambda k: self.clash(o, k)))
        yield 'as long as computed', Implies(c.ret, w.len() == self.nb - 1 + self.cnt(self.ns))
        yield 'only literals of the two clauses on other variables', Implies(c.ret, self.from_both(s, o, w, True))
        inw = lambda x: E.exists(ZERO, w.len(), lambda k: w.get(k) == x)
        yield 'all of them', Implies(c.ret, And(E.forall(ZERO, self.ns, lambda j: Implies(self.sm(o, j) / 2 != self.v, inw(self.sm(o, j)))), E.forall(ZERO, self.nb, lambda j: Implies(self.bg(o, j) / 2 != self.v, inw(self.bg(o, j))))))
        yield from self.same(s, o)


def both(cls):
    for tag, f in (('shorterP', True), ('shorterQ', False)):
        contract(type(cls.__name__ + tag, (cls,), dict(name=cls.name + '.' + tag, p_short=f, says=cls.says + (' (P shorter than Q)' if f else ' (Q at most as long as P)'))))


both(Size)
both(Lits)
