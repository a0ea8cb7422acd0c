from lib import *
from contract import Contract, contract, method
from shapes import TrailShape


def inh(c, st, v):
    return c.E.rd(st, c.heap, None, ('a', 0), v) == 1


@method
def h_empty(c, E, st, args, I):
    b = z3.Bool(fresh_name('empty'))
    w = Int(fresh_name('member'))
    st.assume(Implies(b, E.forall(ZERO, c.t.V, lambda v: Not(inh(c, st, v)))))
    st.assume(Implies(Not(b), And(w >= 0, w < c.t.V, inh(c, st, w))))
    return b


def setin(c, E, st, v, val):
    E.wr(st, c.heap, None, ('a', 0), v, IntVal(val))


@method
def h_removeMin(c, E, st, args, I):
    x = Int(fresh_name('min'))
    E.oblige(st, 'removeMin only on a heap that is not empty', E.exists(ZERO, c.t.V, lambda v: inh(c, st, v)))
    st.assume(And(x >= 0, x < c.t.V, inh(c, st, x)))
    setin(c, E, st, x, 0)
    return x


@method
def h_inHeap(c, E, st, args, I):
    return inh(c, st, args[1])


@method
def h_insert(c, E, st, args, I):
    E.oblige(st, 'only variables that are not in the heap are inserted', And(args[1] >= 0, args[1] < c.t.V, Not(inh(c, st, args[1]))))
    setin(c, E, st, args[1], 1)


@method
def h_decrease(c, E, st, args, I):
    E.oblige(st, 'only the key of variables in the heap is changed', inh(c, st, args[1]))


@method
def h_build(c, E, st, args, I):
    p = args[1]
    b, e, _ = hdr_parts(E, st, p)
    new = z3.Const(fresh_name('heap.built'), st.cell(c.heap, ('a', 0)).sort())
    st.setcell(c.heap, ('a', 0), new)
    st.assume(E.forall(ZERO, c.t.V, lambda v: And(new[v] >= 0, new[v] <= 1)))
    if b.r is None or e.r is None:
        st.assume(E.forall(ZERO, c.t.V, lambda v: new[v] == 0))
        return
    n = E.pidx(e)
    g = lambda k: E.rd(st, e.r, None, ('a', 0), k)
    st.assume(E.forall(ZERO, n, lambda k: new[g(k)] == 1))
    st.assume(E.forall(ZERO, c.t.V, lambda v: Implies(new[v] == 1, E.exists(ZERO, n, lambda k: g(k) == v))))


H = r'Glucose::Heap<Candy::(VSIDS|LRB|VSIDSC)::VarOrderLt>::'
HEAP = [(H + r'empty\(', h_empty, 'by contract heap.empty'), (H + r'removeMin\(', h_removeMin, 'by contract heap.removeMin (membership)'), (H + r'inHeap\(', h_inHeap, 'by contract heap.inHeap'),
        (H + r'insert\(', h_insert, 'by contract heap.insert (membership)'), (H + r'decrease\(', h_decrease, 'by contract heap.decrease (membership)'), (H + r'build\(', h_build, 'by contract heap.build (membership)')]


class Br(Contract):
    prop = 'C20'
    tu = 'branching'
    noinline = [h[0] for h in HEAP]
    handlers = HEAP
    K = None

    def setup(self, st):
        E, K = self.E, self.K
        b = B(E, st)
        self.t = TrailShape(E, st)
        t = self.t
        st.assume(t.decision.len(st) == t.V)
        self.fam = t.reasons
        self.heap = E.region('heap', start=0, stride=1, fields={0: I8})
        self.heap.length = lambda s, id: t.V
        st.assume(E.forall(ZERO, t.V, lambda v: And(E.rd(st, self.heap, None, ('a', 0), v) >= 0, E.rd(st, self.heap, None, ('a', 0), v) <= 1)))
        self.db = b.obj('db')
        self.db.fixed[E.offs['OFF_DB_result'] + E.offs['OFF_AR_level']] = I32
        self.db.fixed[E.offs['OFF_DB_result'] + E.offs['OFF_AR_nConflicts']] = I64
        self.db.fixed[E.offs['OFF_DB_result'] + E.offs['OFF_AR_lbd']] = I32
        self.inv_ = b.vec(self.db, E.offs['OFF_DB_result'] + E.offs['OFF_AR_involved'], 'involved', stride=8, fields={0: (8, PK(self.fam))})
        self.o = b.obj('branch')
        for k, p in (('clause_db', Ptr(self.db)), ('trail', t.ptr())):
            o = E.offs['OFF_%s_%s' % (K, k)]
            self.o.fixed[o] = (8, 'ptr')
            st.mem[('branch', ('f', o))] = p
        self.pol = b.vec(self.o, 'OFF_%s_polarity' % K, 'polarity', stride=1, fields={0: I8}, n=t.V)
        so = E.offs['OFF_%s_stamp' % K]
        self.st_ = b.vec(self.o, so + E.offs['OFF_S_stamped'], 'marks', n=t.V)
        self.o.fixed[so + E.offs['OFF_S_stamp']] = I32
        F = {0: (8, 'f64')}
        if K != 'LRB':
            b.vec(self.o, 'OFF_%s_activity' % K, 'activity', stride=8, fields=F, n=t.V)
        else:
            b.vec(self.o, 'OFF_LRB_weight', 'weight', stride=8, fields=F, n=t.V)
            b.vec(self.o, 'OFF_LRB_interval_assigned', 'interval', n=t.V)
            b.vec(self.o, 'OFF_LRB_participated', 'participated', n=t.V)
        self.more(st)
        return [Ptr(self.o)]

    def more(self, st):
        st.assume(self.I(st))

    def dec(self, st, v):
        return self.t.decision.get(st, v) != 0

    def I(self, st, but=None):
        E, t = self.E, self.t
        return E.forall(ZERO, t.V, lambda v: Implies(And(self.dec(st, v), t.val(st, v) >= 2, *([v != but] if but is not None else [])), inh(self, st, v)))

    def range(self, st):
        return E_range(self, st)

    def frame(self, st):
        t, o = self.t, self.E.old
        yield 'trail size unchanged', And(t.size(st) == t.size(o), t.qhead(st) == t.qhead(o))
        yield from t.unchanged(st, ['trail', 'assigns', 'vardata', 'lim', 'decision'])


class Pick(Br):
    def inv(self, c):
        st, t = c.st, self.t
        for l, x, _ in c.scalars():
            yield 'all unassigned decision variables but %s are in the heap' % l, self.I(st, x)
            yield 'range ' + l, Or(x == -1, And(x >= 0, x < t.V))
        yield 'all unassigned decision variables are in the heap', self.I(st)
        yield 'heap cells', self.E.forall(ZERO, t.V, lambda v: And(self.E.rd(st, self.heap, None, ('a', 0), v) >= 0, self.E.rd(st, self.heap, None, ('a', 0), v) <= 1))

    def post(self, c):
        st, t, r, E, o = c.st, self.t, c.ret, self.E, self.E.old
        yield 'answer is no decision or a literal', Or(r == -2, And(r >= 0, r < 2 * t.V))
        yield 'no decision only if every decision variable is assigned', Implies(r == -2, E.forall(ZERO, t.V, lambda v: Implies(self.dec(o, v), t.val(o, v) < 2)))
        yield 'the literal is of an unassigned decision variable', Implies(r >= 0, And(self.dec(o, r / 2), t.val(o, r / 2) >= 2))
        yield 'all other unassigned decision variables stay in the heap', Implies(r >= 0, self.I(st, r / 2))
        yield from self.frame(st)


class Reset(Br):
    def more(self, st):
        pass

    def inv(self, c):
        E, st, t = self.E, c.st, self.t
        for k, r in list(E.regions.items()):
            if r.name.startswith('data.'):
                w = r.vec
                for l, x, _ in c.scalars():
                    yield 'decision variables below %s are listed' % l, E.forall(ZERO, x, lambda v: Implies(And(v < t.V, self.dec(st, v)), E.exists(ZERO, w.len(st), lambda k: w.get(st, k) == v)))
                yield 'listed are variables', E.forall(ZERO, w.len(st), lambda k: And(w.get(st, k) >= 0, w.get(st, k) < t.V))

    def post(self, c):
        E, st, t = self.E, c.st, self.t
        yield 'every decision variable is in the heap', E.forall(ZERO, t.V, lambda v: Implies(self.dec(st, v), inh(self, st, v)))
        yield from self.frame(st)


BUMP = r'Candy::VSIDSC?::varBumpActivity\(Candy::Var\)'


class Conflict(Br):
    noinline = Br.noinline + [BUMP]
    handlers = Br.handlers + [(BUMP, lambda E, st, args, I: None, 'by contract varBumpActivity (which variables are in the heap is unchanged)')]

    def more(self, st):
        E, t, f = self.E, self.t, Fam(self.E, self.fam)
        st.assume(self.I(st))
        self.bl = fld(E, st, self.db, E.offs['OFF_DB_result'] + E.offs['OFF_AR_level'])
        st.assume(And(self.bl >= 0, self.bl < t.lim.len(st)))
        n = self.inv_.len(st)
        st.assume(E.forall(ZERO, n, lambda k: self.inv_.get(st, k) > 0))
        # literals of the involved clauses are literals of the problem's variables
        if E.bounded is None:
            st.assume(E.forall(ZERO, n, lambda k: E.forall(ZERO, f.len(st, self.inv_.get(st, k)), lambda j: And(f.get(st, self.inv_.get(st, k), j) >= 0, f.get(st, self.inv_.get(st, k), j) < 2 * t.V))))
        else:
            N = E.bounded
            for k in range(N):
                st.assume(Implies(k < n, f.len(st, self.inv_.get(st, IntVal(k))) <= N))
            st.assume(E.forall(ZERO, n, lambda k: E.forall(ZERO, f.len(st, self.inv_.get(st, k)), lambda j: And(f.get(st, self.inv_.get(st, k), j) >= 0, f.get(st, self.inv_.get(st, k), j) < 2 * t.V))))

    def inv(self, c):
        E, st, t, o = self.E, c.st, self.t, self.E.old
        yield 'heap only grows', E.forall(ZERO, t.V, lambda v: Implies(inh(self, o, v), inh(self, st, v)))
        lim = t.lim.get(o, self.bl)
        for l, x, _ in c.scalars():
            yield 'within the trail: ' + l, x <= t.size(o)
            yield 'to be unassigned, in the heap: ' + l, E.forall(lim, x, lambda k: Implies(And(k < t.size(o), self.dec(o, t.lit(o, k) / 2)), inh(self, st, t.lit(o, k) / 2)))

    def post(self, c):
        E, st, t, o = self.E, c.st, self.t, self.E.old
        yield 'all unassigned decision variables stay in the heap', self.I(st)
        yield 'all decision variables that the backtrack will unassign are in the heap', E.forall(t.lim.get(o, self.bl), t.size(o), lambda k: Implies(self.dec(o, t.lit(o, k) / 2), inh(self, st, t.lit(o, k) / 2)))
        yield from self.frame(st)


class Bump(Br):
    says = 'raising the activity of a variable (rescaling included) leaves the set of variables in the heap and the trail as they are'

    def setup(self, st):
        a = super().setup(st)
        self.v = Int('v')
        st.assume(And(self.v >= 0, self.v < self.t.V))
        return a + [self.v]

    def post(self, c):
        E, st, t, o = self.E, c.st, self.t, self.E.old
        yield 'heap membership unchanged', E.forall(ZERO, t.V, lambda v: inh(self, st, v) == inh(self, o, v))
        yield from self.frame(st)


@contract
class BumpV(Bump):
    K = 'VSIDS'
    name = 'vsids.varBumpActivity'
    root = 'w_vsids_bump'


@contract
class BumpC(Bump):
    K = 'VSIDSC'
    name = 'vsidsc.varBumpActivity'
    root = 'w_vsidsc_bump'

    def setup(self, st):
        return super().setup(st) + [z3.Real('inc')]


def reg(base, k, nm, words):
    @contract
    class C(base):
        K = k
        name = '%s.%s' % (k.lower(), nm)
        root = 'w_%s_%s' % (k.lower(), {'pickBranchLit': 'pick', 'reset': 'reset', 'process_conflict': 'conflict'}[nm])
        says = words


for k in ('VSIDS', 'LRB', 'VSIDSC'):
    reg(Pick, k, 'pickBranchLit', '''given that every unassigned decision variable is in the heap, pickBranchLit answers no decision only if every decision variable is assigned, and otherwise a literal of an
    unassigned decision variable, all others staying in the heap; the trail is not touched''')
    reg(Reset, k, 'reset', 'after reset every decision variable is in the heap')
    reg(Conflict, k, 'process_conflict', '''process_conflict keeps every unassigned decision variable in the heap and puts every decision variable into it that backtracking to the level found will unassign;
    the trail is not touched''')
