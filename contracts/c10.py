"""Contracts of the clause list (C10): what a problem keeps of a clause that is read."""
from lib import *
from contract import Contract, contract, method
from sym import *


@contract
class Read(Contract):
    prop = 'C10'
    also = ('C11',)
    tu = 'problem'
    name = 'problem.readClause'
    root = 'w_cnf_read'
    says = '''readClause(c) appends one clause whose literals are those of c, strictly increasing, unless c contains a literal and its negation, in which case it appends none; either way the number of variables
    becomes the largest variable of c plus one if that is more than before; c itself does not change'''
    noinline = [r'^void std::sort<', r'std::unique<', r'std::vector<Candy::Lit.*>::vector<', r'std::vector<Candy::Lit.*>::erase\(', r'std::vector<Candy::Lit.*>::~vector', r'\*>.*>::push_back']
    assumes = ['std::vector(first, last) copies the range']

    def setup(self, st):
        E = self.E
        b = B(E, st)
        o = self.o = b.obj('P')
        self.V = E.offs['OFF_CP_variables']
        o.fixed[self.V] = I32
        self.co, self.no = b.obj('C'), b.obj('N')
        self.c = b.vec(self.co, 0, 'given', maxlen=1 << 30)
        self.a = b.vec(self.no, 0, 'new', n=ZERO)
        st.assume(And(self.var(st) >= 0, self.var(st) < 1 << 30, E.forall(ZERO, self.c.len(st), lambda k: And(self.c.get(st, k) >= 0, self.c.get(st, k) < (1 << 31) - 2))))
        return [Ptr(o), Ptr(self.co)]

    def var(self, st):
        return fld(self.E, st, self.o, self.V)

    def event(self, st, x):
        st.mem[('events', ('f', 0))] = self.events(st) + (x,)

    def events(self, st):
        return st.mem.get(('events', ('f', 0)), ())

    def setlen(self, st, n):
        for off in (8, 16):
            st.mem[(self.no.name, ('f', off))] = Ptr(self.a.r, None, z3.simplify(4 * n))

    def renew(self, st, nm):
        r = self.a.r
        x = z3.Const(fresh_name(nm), st.cell(r, ('a', 0)).sort())
        st.setcell(r, ('a', 0), x)
        return x

    def fn(self, nm):
        return z3.Function(fresh_name(nm), z3.IntSort(), z3.IntSort())

    def whole(self, st, p, q):
        E = self.E
        if p.r is not self.a.r or q.r is not self.a.r:
            raise Undecided('a range of something else')
        E.oblige(st, 'the whole clause', And(E.pidx(p) == 0, E.pidx(q) == self.a.len(st)))

    @method
    def h_new(self, E, st, args, I):
        if 'new' in self.events(st):
            raise Undecided('more than one clause is made')
        self.event(st, 'new')
        return Ptr(self.no)

    @method
    def h_ctor(self, E, st, args, I):
        h, p, q = args[:3]
        if h.r is not self.no or p.r is not self.c.r or q.r is not self.c.r:
            raise Undecided('a vector of something else')
        i, j = E.pidx(p), E.pidx(q)
        E.oblige(st, 'a range of the clause', And(i >= 0, i <= j, j <= self.c.len(st)))
        old = st.cell(self.c.r, ('a', 0))
        x = self.renew(st, 'copy')
        self.setlen(st, j - i)
        st.assume(E.forall(ZERO, j - i, lambda k: x[k] == old[k + i]))

    @method
    def h_sort(self, E, st, args, I):
        self.whole(st, *args[:2])
        n = self.a.len(st)
        a = st.cell(self.a.r, ('a', 0))
        x = self.renew(st, 'sorted')
        f, g = self.fn('from'), self.fn('to')
        st.assume(E.forall(ZERO, n, lambda k: And(f(k) >= 0, f(k) < n, x[k] == a[f(k)])))
        st.assume(E.forall(ZERO, n, lambda k: And(g(k) >= 0, g(k) < n, x[g(k)] == a[k])))
        st.assume(E.forall(ZERO, n, lambda k: E.forall(k, n, lambda l: x[k] <= x[l])))

    @method
    def h_unique(self, E, st, args, I):
        self.whole(st, *args[:2])
        n = self.a.len(st)
        a = st.cell(self.a.r, ('a', 0))
        x = self.renew(st, 'unique')
        m = Int(fresh_name('left'))
        st.assume(And(m >= 0, m <= n, (m == 0) == (n == 0)))
        dn = E.demangle.get(I.x[0][1], '')
        if 'lambda' in dn:      # with a predicate: that of two literals of one variable
            E.oblige(st, 'the literals are in order', E.forall(ZERO, n - 1, lambda k: a[k] < a[k + 1]))
            st.assume((m == n) == E.forall(ZERO, n - 1, lambda k: a[k] / 2 != a[k + 1] / 2))
            st.assume(Implies(m == n, E.forall(ZERO, n, lambda k: x[k] == a[k])))
            st.assume(E.forall(ZERO, n, lambda k: x[k] >= 0))
        else:
            s, d = self.fn('from'), self.fn('to')
            st.assume(E.forall(ZERO, m, lambda j: And(s(j) >= j, s(j) < n, x[j] == a[s(j)])))
            st.assume(E.forall(ZERO, m, lambda i: E.forall(i + 1, m, lambda j: s(i) < s(j))))
            st.assume(E.forall(ZERO, n, lambda k: And(d(k) >= 0, d(k) < m, x[d(k)] == a[k])))
            st.assume(E.forall(ZERO, m - 1, lambda j: x[j] != x[j + 1]))
        return Ptr(self.a.r, None, z3.simplify(4 * m))

    @method
    def h_erase(self, E, st, args, I):
        h, p, q = args[:3]
        if h.r is not self.no:
            raise Undecided('erase')
        E.oblige(st, 'the end of the clause is cut off', And(E.pidx(p) >= 0, E.pidx(p) <= E.pidx(q), E.pidx(q) == self.a.len(st)))
        self.setlen(st, E.pidx(p))
        return p

    @method
    def h_push(self, E, st, args, I):
        h, p = args[:2]
        if h.r is not self.o:
            raise Undecided('a list of something else')
        x = E.load(st, p, ir.PTR)
        E.oblige(st, 'the new clause is what is appended', BoolVal(x.r is self.no and 'deleted' not in self.events(st)))
        self.event(st, 'push')

    @method
    def h_gone(self, E, st, args, I):
        self.event(st, 'deleted')

    def pushed(self, st):
        return 'push' in self.events(st)

    def inv(self, c):
        """a walk over the new clause that looks for two literals of one variable, or for the largest variable"""
        st, E, a = c.st, self.E, self.a
        n = a.len(st)
        xs = [(l, E.pidx(x)) for l, x in c.ptrs() if x.r in (a.r, self.c.r)] + [(l, x) for l, x, _ in c.scalars() if z3.is_int(x)]
        for l, x in xs:
            for d in (-1, 0, 1):
                yield 'none so far %s %d' % (l, d), E.forall(ZERO, x + d, lambda k: a.get(st, k) / 2 != a.get(st, k + 1) / 2)
                yield 'at most %s %d' % (l, d), x <= n + d
            yield 'position ' + l, x >= 0
            yield 'position one ' + l, x >= 1
            yield 'variables so far ' + l, E.forall(ZERO, x, lambda k: a.get(st, k) / 2 < self.var(st))
        yield 'more variables', self.var(st) >= self.var(E.old)
        yield 'variables of the clause', Or(self.var(st) == self.var(E.old), E.exists(ZERO, n, lambda k: self.var(st) == a.get(st, k) / 2 + 1))

    def post(self, c):
        st, E, o, a, g = c.st, self.E, self.E.old, self.a, self.c
        n = g.len(o)
        if self.pushed(st):
            m = a.len(st)
            yield 'it is appended once', BoolVal([x for x in self.events(st) if x == 'push'] == ['push'])
            yield 'the literals are strictly increasing', E.forall(ZERO, m - 1, lambda k: a.get(st, k) < a.get(st, k + 1))
            yield 'every literal of the clause is kept', E.forall(ZERO, n, lambda k: E.exists(ZERO, m, lambda j: a.get(st, j) == g.get(o, k)))
            yield 'every literal is from the clause', E.forall(ZERO, m, lambda j: E.exists(ZERO, n, lambda k: a.get(st, j) == g.get(o, k)))
            yield 'no two literals of one variable are left', E.forall(ZERO, m - 1, lambda k: a.get(st, k) / 2 != a.get(st, k + 1) / 2)
        else:
            yield 'what is dropped has a literal and its negation', E.exists(ZERO, n, lambda k: E.exists(ZERO, n, lambda l: g.get(o, k) == neg(g.get(o, l))))
        yield 'the variables of the clause exist', E.forall(ZERO, n, lambda k: g.get(o, k) / 2 < self.var(st))
        yield 'the number of variables is the largest one', And(self.var(st) >= self.var(o), Or(self.var(st) == self.var(o), E.exists(ZERO, n, lambda k: self.var(st) == g.get(o, k) / 2 + 1)))
        yield 'the clause that is given is unchanged', And(g.len(st) == n, E.forall(ZERO, n, lambda k: g.get(st, k) == g.get(o, k)))


Read.handlers = [(r'^operator new\(unsigned long\)|^_Znwm$', Read.h_new, 'operator new returns memory of its own'),
                 (r'^operator delete\(void\*\)|^_ZdlPv$', lib_nop if 'lib_nop' in globals() else h_nop, 'operator delete'),
                 (r'std::vector<Candy::Lit.*>::vector<', Read.h_ctor, 'std::vector(first, last) copies the range'),
                 (r'std::vector<Candy::Lit.*>::~vector', Read.h_gone, '~vector'),
                 (r'^void std::sort<', Read.h_sort, 'std::sort orders the range'),
                 (r'std::unique<', Read.h_unique, 'std::unique keeps the first of each run of equal elements and returns the new end'),
                 (r'std::vector<Candy::Lit.*>::erase\(', Read.h_erase, 'std::vector::erase(first, last) removes this range and keeps the order of the others'),
                 (r'\*>.*>::push_back', Read.h_push, 'std::vector::push_back/emplace_back append one element and leave the others unchanged')]


@contract
class Same(Contract):
    prop = 'C10'
    tu = 'problem'
    name = 'problem.readClause.predicate'
    root = r'~^void Candy::CNFProblem::readClause<__gnu_cxx.*lambda.*::operator\(\)\(Candy::Lit, Candy::Lit\)'
    says = 'two literals of a sorted clause without repetitions are of the same variable exactly if the predicate of readClause says so'

    def setup(self, st):
        self.p, self.q = Int('p'), Int('q')
        st.assume(And(self.p >= 0, self.p < self.q, self.q < (1 << 31) - 2))
        return [Ptr(B(self.E, st).obj('lambda')), self.p, self.q]

    def post(self, c):
        yield 'the same variable', c.ret == (self.p / 2 == self.q / 2)
