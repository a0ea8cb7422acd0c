"""Contracts of the incremental interface (C11): what the ipasir functions hand to the solver, and what they answer."""
from lib import *
from contract import Contract, contract, method
from sym import *


class Ip(Contract):
    prop = 'C11'
    tu = 'ipasir'
    noinline = [r'Candy::CNFProblem::clear', r'Candy::Trail::setAssumptions']
    assumes = ['a call through the table of virtual functions of CandySolverInterface reaches that function of the solver']

    def setup(self, st):
        E = self.E
        b = self.b = B(E, st)
        o = self.o = b.obj('I')
        P, V = E.offs['OFF_IP_problem'], E.offs['OFF_CP_variables']
        self.V = P + V
        o.fixed[self.V] = I32
        self.nm = E.offs['OFF_IP_nomodel']
        o.fixed[self.nm] = (1, 'bool')
        self.as_ = b.vec(o, 'OFF_IP_assumptions', 'assumptions', maxlen=1 << 30)
        self.cl = b.vec(o, 'OFF_IP_clause', 'clause', maxlen=1 << 30)
        self.cls = b.vec(o, P + E.offs['OFF_CP_problem'], 'problem', stride=8, fields={0: (8, 'i64')}, maxlen=1 << 30)
        # the table of the failed assumptions: none, or one byte per variable
        self.F = E.region('fmap', start=0, stride=1, fields={0: I8}, fam=True)
        self.n = Int('solverVariables')
        self.F.length = lambda s, id: self.n
        o.fixed[E.offs['OFF_IP_fmap']] = (8, PK(self.F))
        self.fm = lambda s: fld(E, s, o, 'OFF_IP_fmap')
        # the solver behind the interface
        s, r = b.obj('solver'), b.obj('R', OFF_R_status='i8')
        self.r = r
        self.m = b.vec(r, 'OFF_R_model', 'model', stride=1, fields={0: I8}, maxlen=1 << 30)
        self.c = b.vec(r, 'OFF_R_conflict', 'conflict', maxlen=1 << 30)
        tab = b.obj('table')
        self.trail = b.obj('trail')
        for reg, off, p in ((o, E.offs['OFF_IP_solver'], Ptr(s)), (s, 0, Ptr(tab))):
            reg.fixed[off] = (8, 'ptr')
            st.mem[(reg.name, ('f', off))] = p
        for k in ('init', 'solve', 'nVars', 'getAssignment', 'getCandySolverResult', 'setTermCallback', 'setLearntCallback'):
            off = E.offs['OFF_MP_' + k] - 1
            tab.fixed[off] = (8, 'ptr')
            st.mem[(tab.name, ('f', off))] = Ptr(E.region('virtual.' + k, lazy=True))
        self.l = l = Int('lit')
        st.assume(And(self.n >= 0, self.n < 1 << 30, l > -(1 << 30), l < 1 << 30, self.fm(st) >= 0, self.var(st) >= 0, self.var(st) < 1 << 30))
        st.assume(Implies(self.fm(st) != 0, E.forall(ZERO, self.n, lambda v: (self.E.rd(st, self.F, self.fm(st), ('a', 0), v) != 0) == self.inconf(st, v))))
        st.assume(E.forall(ZERO, self.c.len(st), lambda k: And(self.c.get(st, k) >= 0, self.c.get(st, k) < 2 * self.n)))
        return [Ptr(o)] + self.args(st)

    def var(self, st):
        return fld(self.E, st, self.o, self.V)

    def nomodel(self, st):
        return fld(self.E, st, self.o, self.nm)

    def args(self, st):
        return [self.l]

    def lit(self):
        """the literal of the solver that stands for the argument"""
        l = self.l
        return If(l > 0, 2 * (l - 1), 2 * (-l - 1) + 1)

    def inconf(self, st, v):
        return self.E.exists(ZERO, self.c.len(st), lambda k: self.c.get(st, k) / 2 == v)

    @method
    def h_virtual(self, E, st, args, I):
        p = st.regs[I.x[0][1]]
        n = p.r.name if isinstance(p, Ptr) and p.r is not None else ''
        if not n.startswith('virtual.'):
            raise Undecided('call of an unknown function')
        return getattr(self, 'v_' + n[8:])(E, st, args)

    def v_nVars(self, E, st, args):
        return self.n

    def v_getCandySolverResult(self, E, st, args):
        return Ptr(self.r)

    def v_getAssignment(self, E, st, args):
        return Ptr(self.trail)

    def event(self, st, *x):
        """ghost: what was done, in order"""
        st.mem[('events', ('f', 0))] = self.events(st) + (x,)

    def events(self, st):
        return st.mem.get(('events', ('f', 0)), ())

    @method
    def h_new(self, E, st, args, I):
        E.oblige(st, 'one byte for each variable of the solver', args[0] == self.n)
        x = Int(fresh_name('table'))
        st.assume(And(x > 0, x != self.fm(E.old)))
        return Ptr(self.F, x, ZERO)

    @method
    def h_delete(self, E, st, args, I):
        self.event(st, 'delete', args[0])

    @method
    def h_problem_clear(self, E, st, args, I):
        self.event(st, 'clear')
        E.oblige(st, 'the problem of this object', BoolVal(args[0].r is self.o))
        o = E.offs['OFF_IP_problem'] + E.offs['OFF_CP_problem']
        st.mem[(self.o.name, ('f', o + 8))] = Ptr(self.cls.r, None, ZERO)

    @method
    def h_read(self, E, st, args, I):
        h, a, z = args[:3]
        self.event(st, 'read')
        E.oblige(st, 'the whole clause is read', And(E.pidx(a) == 0, E.pidx(z) == self.cl.len(st), E.forall(ZERO, self.cl.len(self.E.old), lambda k: self.cl.get(st, k) == self.cl.get(self.E.old, k)),
                 self.cl.len(st) == self.cl.len(E.old)) if h.r is self.o and a.r is self.cl.r and z.r is self.cl.r else BoolVal(False))
        n = Int(fresh_name('vars'))
        st.assume(n >= self.var(st))
        E.wr(st, self.o, None, ('f', self.V), None, n)

    def kept(self, st, *vs):
        for v in vs:
            yield '%s unchanged' % v.r.name, And(v.len(st) == v.len(self.E.old), self.E.forall(ZERO, v.len(st), lambda k: v.get(st, k) == v.get(self.E.old, k)))


H = [(r'^indirect$', Ip.h_virtual, 'CandySolverInterface behaves as stated there'),
     (r'^_Znam$|operator new\[\]', Ip.h_new, 'operator new[] returns memory of its own'),
     (r'^_ZdaPv$|operator delete\[\]', Ip.h_delete, 'operator delete[]'),
     (r'CNFProblem::clear', Ip.h_problem_clear, 'CNFProblem::clear removes the clauses and keeps the number of variables'),
     (r'CNFProblem::readClause', Ip.h_read, 'CNFProblem::readClause does not make the number of variables smaller')]


@contract
class Val(Ip):
    name = 'ipasir.val'
    root = 'ipasir_val'
    says = 'ipasir_val(l): 0 without a model; l or -l, whichever the model satisfies; 0 if the model does not determine it; nothing changes'
    handlers = H

    def sat(self, st, q):
        m = self.m
        return And(q / 2 < m.len(st), m.get(st, q / 2) == q % 2)

    def args(self, st):
        st.assume(self.l != 0)
        return [self.l]

    def post(self, c):
        st, o, q = c.st, self.E.old, self.lit()
        yield 'without a model the answer is 0', Implies(self.nomodel(o), c.ret == 0)
        yield 'the literal itself if it is satisfied', Implies(And(Not(self.nomodel(o)), self.sat(o, q)), c.ret == self.l)
        yield 'its negation if that is satisfied', Implies(And(Not(self.nomodel(o)), self.sat(o, neg(q)), Not(self.sat(o, q))), c.ret == -self.l)
        yield 'otherwise 0', Implies(And(Not(self.sat(o, q)), Not(self.sat(o, neg(q)))), c.ret == 0)
        yield from self.kept(st, self.as_, self.cl, self.m)
        yield 'the model stays valid', self.nomodel(st) == self.nomodel(o)


@contract
class Failed(Ip):
    name = 'ipasir.failed'
    root = 'ipasir_failed'
    says = 'ipasir_failed(l) exactly if the variable of l is in the conflict, also when the table of the failed assumptions exists already; the table that is made says so for every variable'
    handlers = H

    def args(self, st):
        st.assume(And(self.l != 0, self.lit() / 2 < self.n))
        return [self.l]

    def inv(self, c):
        st, E = c.st, self.E
        fm = self.fm(st)
        yield 'there is a table', And(fm > 0, Not(fm == self.fm(E.old)))
        for l, x, _ in c.scalars():
            if z3.is_int(x):
                yield 'index ' + l, And(x >= 0, x <= self.c.len(st))
                yield 'marked so far ' + l, E.forall(ZERO, self.n, lambda v: (E.rd(st, self.F, fm, ('a', 0), v) != 0) == E.exists(ZERO, x, lambda k: self.c.get(st, k) / 2 == v))

    def post(self, c):
        st, E, o = c.st, self.E, self.E.old
        v = self.lit() / 2
        yield 'one if the variable is in the conflict', Implies(self.inconf(o, v), c.ret == 1)
        yield 'zero if it is not', Implies(Not(self.inconf(o, v)), c.ret == 0)
        yield 'there is a table now', self.fm(st) > 0
        yield 'the table is right', E.forall(ZERO, self.n, lambda v: (E.rd(st, self.F, self.fm(st), ('a', 0), v) != 0) == self.inconf(o, v))
        yield from self.kept(st, self.as_, self.cl, self.m, self.c)


class Edit(Ip):
    def common(self, st):
        o = self.E.old
        yield 'there is no model any more', self.nomodel(st)
        yield 'the table of failed assumptions is gone', self.fm(st) == 0


@contract
class Add(Edit):
    name = 'ipasir.add'
    root = 'ipasir_add'
    says = '''ipasir_add(l) appends the literal of l to the clause; ipasir_add(0) gives all literals of the clause, in order, to the problem once and starts an empty clause; either drops the model and the failed
    assumptions of the last call'''
    handlers = H

    def post(self, c):
        st, E, o, l = c.st, self.E, self.E.old, self.l
        n = self.cl.len(o)
        reads = [x for x in self.events(st) if x[0] == 'read']
        yield 'a literal is appended', Implies(l != 0, And(self.cl.len(st) == n + 1, self.cl.get(st, n) == self.lit(), E.forall(ZERO, n, lambda k: self.cl.get(st, k) == self.cl.get(o, k))))
        yield 'the clause is read exactly at its end', (l == 0) == BoolVal(len(reads) == 1)
        yield 'at the end of the clause a new one starts', Implies(l == 0, self.cl.len(st) == 0)
        yield from self.common(st)
        yield from self.kept(st, self.as_, self.m, self.c)


@contract
class Assume(Edit):
    name = 'ipasir.assume'
    root = 'ipasir_assume'
    says = 'ipasir_assume(l) appends the literal of l to the assumptions, makes the problem have its variable, and drops the model and the failed assumptions of the last call'
    handlers = H

    def args(self, st):
        st.assume(self.l != 0)
        return [self.l]

    def inv(self, c):
        st, o = c.st, self.E.old
        a = If(self.l < 0, -self.l, self.l)
        yield 'variables', And(self.var(st) >= self.var(o), Or(self.var(st) == self.var(o), self.var(st) <= a))

    def post(self, c):
        st, E, o, l = c.st, self.E, self.E.old, self.l
        n = self.as_.len(o)
        a = If(l < 0, -l, l)
        yield 'the assumption is appended', And(self.as_.len(st) == n + 1, self.as_.get(st, n) == self.lit(), E.forall(ZERO, n, lambda k: self.as_.get(st, k) == self.as_.get(o, k)))
        yield 'the variable exists', self.var(st) == If(self.var(o) < a, a, self.var(o))
        yield from self.common(st)
        yield from self.kept(st, self.cl, self.m, self.c)


@contract
class Solve(Ip):
    name = 'ipasir.solve'
    root = 'ipasir_solve'
    says = '''ipasir_solve() gives the problem with the clauses since the last call to the solver, sets exactly the current assumptions, solves, and answers 10, 20 or 0 for true, false and undefined; afterwards there are
    no assumptions and no pending clauses, a model exactly after 10, and no failed assumptions from before'''
    handlers = H + [(r'Candy::Trail::setAssumptions', None, '')]

    def args(self, st):
        self.res = Int('result')
        st.assume(Or(*[self.res == k for k in (0, 1, 2)]))
        return []

    def same_as_entry(self, st, v):
        return And(v.len(st) == v.len(self.E.old), self.E.forall(ZERO, v.len(st), lambda k: v.get(st, k) == v.get(self.E.old, k)))

    def v_init(self, E, st, args):
        self.event(st, 'init')
        E.oblige(st, 'the problem with all new clauses is given to the solver', And(args[1].off == E.offs['OFF_IP_problem'] if args[1].r is self.o else BoolVal(False), self.same_as_entry(st, self.cls)))
        return None

    @method
    def h_assumptions(self, E, st, args, I):
        self.event(st, 'assume')
        E.oblige(st, 'the assumptions of this call', self.same_as_entry(st, self.as_) if args[0].r is self.trail and args[1].r is self.o else BoolVal(False))
        E.oblige(st, 'it is the list of the assumptions', args[1].off == E.offs['OFF_IP_assumptions'])

    def v_solve(self, E, st, args):
        self.event(st, 'solve')
        return self.res

    def post(self, c):
        st, E, o = c.st, self.E, self.E.old
        ev = [x[0] for x in self.events(st) if x[0] != 'delete']
        yield 'the solver gets the clauses, then the assumptions, and then solves, once', BoolVal([x for x in ev if x != 'clear'] == ['init', 'assume', 'solve'])
        yield 'the clauses are dropped after the solver has them', And(BoolVal('clear' in ev and ev.index('clear') > ev.index('init')), self.cls.len(st) == 0)
        yield 'no assumption is left', self.as_.len(st) == 0
        yield 'a model exactly if satisfiable', self.nomodel(st) == (self.res != 0)
        yield 'the answer', c.ret == If(self.res == 0, IntVal(10), If(self.res == 1, IntVal(20), IntVal(0)))
        yield 'the table of failed assumptions is gone', self.fm(st) == 0
        yield 'the number of variables stays', self.var(st) == self.var(o)
        yield from self.kept(st, self.cl)


Solve.handlers = H + [(r'Candy::Trail::setAssumptions', Solve.h_assumptions, 'by contract trail.setAssumptions')]
