from lib import *
from contract import Contract, contract, method

lt = z3.Function('lt', z3.IntSort(), z3.IntSort(), z3.BoolSort())
par = lambda k: (k - 1) / 2


@method
def h_lt(self, E, st, args, I):
    return lt(args[0], args[1])


ORDER = (r'^ext_lt$', h_lt, 'the comparator is a strict weak order that does not change while an operation runs')


def owise():
    a, b, c = z3.Ints('oa ob oc')
    return [z3.ForAll([a], Not(lt(a, a)), patterns=[lt(a, a)]),
            z3.ForAll([a, b, c], Implies(And(Not(lt(a, b)), Not(lt(b, c))), Not(lt(a, c))), patterns=[z3.MultiPattern(lt(a, b), lt(b, c))]),
            z3.ForAll([a, b], Implies(lt(a, b), Not(lt(b, a))), patterns=[lt(a, b)])]


class Heap(Contract):
    prop = 'C13'
    tu = 'mtl'
    handlers = [ORDER]
    needs_order = True
    bound = 4

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.o = b.obj('H')
        self.h = b.vec(self.o, 'OFF_H_heap', 'H.heap', maxlen=1 << 30)
        self.x = b.vec(self.o, 'OFF_H_indices', 'H.indices', maxlen=1 << 30)
        E.axioms = owise() if E.bounded is None else self.finite_axioms(E.bounded)
        for _, f in self.member(st):
            st.assume(f)
        if self.needs_order:
            st.assume(self.order(st))
        return [Ptr(self.o)] + self.args(st)

    def finite_axioms(self, N):
        # strict weak order given by an integer rank
        rank = z3.Function('rank', z3.IntSort(), z3.IntSort())
        return [lt(IntVal(a), IntVal(b)) == (rank(IntVal(a)) < rank(IntVal(b))) for a in range(N + 2) for b in range(N + 2)]

    def args(self, st):
        return []

    def n(self, st):
        return self.h.len(st)

    def H(self, st, k):
        return self.h.get(st, k)

    def ix(self, st, v):
        return self.x.get(st, v)

    def member(self, st):
        E = self.E
        n, m = self.n(st), self.x.len(st)
        yield 'every slot\'s element knows its slot', E.forall(ZERO, n, lambda k: And(self.H(st, k) >= 0, self.H(st, k) < m, self.ix(st, self.H(st, k)) == k))
        yield 'every index is -1 or points at its element', E.forall(ZERO, m, lambda v: Or(self.ix(st, v) == -1, And(self.ix(st, v) >= 0, self.ix(st, v) < n, self.H(st, self.ix(st, v)) == v)))

    def order(self, st, lo=ZERO, n=None):
        n = self.n(st) if n is None else n
        return self.E.forall(IntVal(1), n, lambda k: Implies(par(k) >= lo, Not(lt(self.H(st, k), self.H(st, par(k))))))

    def inh(self, st, v):
        return And(v >= 0, v < self.x.len(st), self.ix(st, v) >= 0)

    def same_members(self, st, o=None, but=None):
        o = o or self.E.old
        return self.E.forall(ZERO, self.x.len(o), lambda v: Implies(v != but if but is not None else BoolVal(True), (self.ix(st, v) >= 0) == (self.ix(o, v) >= 0)))

    # loop invariants of the two sift loops: i is the hole, x the element on its way
    def holeinv(self, c, x, lo, o):
        st, E = c.st, self.E
        n, m = self.n(st), self.x.len(st)
        yield 'lengths', And(n == self.n(o), m == self.x.len(o))
        for l, i, _ in c.scalars():
            Hk = lambda k: If(k == i, x, self.H(st, k))
            inr = And(i >= 0, i < n)
            yield 'hole in range ' + l, inr
            yield 'hole slots ' + l, E.forall(ZERO, n, lambda k: Implies(k != i, And(self.H(st, k) >= 0, self.H(st, k) < m, self.H(st, k) != x, self.ix(st, self.H(st, k)) == k)))
            yield 'hole indices ' + l, E.forall(ZERO, m, lambda v: Implies(v != x, Or(self.ix(st, v) == -1, And(self.ix(st, v) >= 0, self.ix(st, v) < n, self.ix(st, v) != i, self.H(st, self.ix(st, v)) == v))))
            yield 'hole members ' + l, E.forall(ZERO, m, lambda v: (self.ix(st, v) >= 0) == (self.ix(o, v) >= 0))
            for l2, j, _ in c.scalars():
                if l2 != l:
                    yield 'parent %s %s' % (l, l2), Implies(i > 0, j == par(i))
                    yield 'child %s %s' % (l, l2), j == 2 * i + 1
            # sifting up: order everywhere except below the hole's parent
            yield 'up order ' + l, E.forall(IntVal(1), n, lambda k: Implies(And(k != i, par(k) >= lo), Not(lt(Hk(k), Hk(par(k))))))
            yield 'grand order ' + l, E.forall(IntVal(1), n, lambda k: Implies(And(par(k) == i, i > 0, par(i) >= lo), Not(lt(self.H(st, k), self.H(st, par(i))))))
            # sifting down: order everywhere except between the hole and its children
            yield 'down order ' + l, E.forall(IntVal(1), n, lambda k: Implies(And(par(k) != i, par(k) >= lo), Not(lt(Hk(k), Hk(par(k))))))
        yield 'x index', And(x >= 0, x < m)

    def post_common(self, st):
        yield from self.member(st)
        yield 'no element precedes its parent', self.order(st)

    def ind_lemma(self, st, name='root is minimal'):
        """induction on the slot: no element precedes the root"""
        E = self.E
        if E.bounded is not None:
            return
        n = self.n(st)
        k = Int(fresh_name('ind'))
        s = st.copy()
        s.assume(And(k >= 1, k < n, E.forall(ZERO, k, lambda j: Not(lt(self.H(st, j), self.H(st, ZERO))))))
        E.oblige(s, 'lemma: %s (induction step)' % name, Not(lt(self.H(st, k), self.H(st, ZERO))))
        s = st.copy()
        E.oblige(s, 'lemma: %s (base)' % name, Not(lt(self.H(st, ZERO), self.H(st, ZERO))))
        st.assume(E.forall(ZERO, n, lambda j: Not(lt(self.H(st, j), self.H(st, ZERO)))))


def pre_up(self, st, i, E):
    n = self.n(st)
    return And(i >= 0, i < n,
               E.forall(IntVal(1), n, lambda k: Implies(k != i, Not(lt(self.H(st, k), self.H(st, par(k)))))),
               E.forall(IntVal(1), n, lambda k: Implies(And(par(k) == i, i > 0), Not(lt(self.H(st, k), self.H(st, par(i)))))))


def pre_down(self, st, i, lo, E):
    n = self.n(st)
    return And(i >= lo, i < n,
               E.forall(IntVal(1), n, lambda k: Implies(And(par(k) != i, par(k) >= lo), Not(lt(self.H(st, k), self.H(st, par(k)))))),
               E.forall(IntVal(1), n, lambda k: Implies(And(par(k) == i, i > 0, par(i) >= lo), Not(lt(self.H(st, k), self.H(st, par(i)))))))


@contract
class Up(Heap):
    name = 'heap.percolateUp'
    root = 'w_heap_up'
    says = 'percolateUp(i) restores the order when only slot i may precede its parent; members stay'
    needs_order = False

    def args(self, st):
        self.i = Int('i')
        st.assume(pre_up(self, st, self.i, self.E))
        return [self.i]

    def inv(self, c):
        yield from self.holeinv(c, self.H(self.E.old, self.i), ZERO, self.E.old)

    def post(self, c):
        st, o = c.st, self.E.old
        yield 'size', And(self.n(st) == self.n(o), self.x.len(st) == self.x.len(o))
        yield from self.post_common(st)
        yield 'same members', self.same_members(st)


@contract
class Down(Heap):
    name = 'heap.percolateDown'
    root = 'w_heap_down'
    says = 'percolateDown(i) restores the order below slot lo when only the children of slot i may precede it; members stay'
    needs_order = False

    def args(self, st):
        self.i, self.lo = Int('i'), Int('lo')
        st.assume(self.lo >= 0)
        st.assume(pre_down(self, st, self.i, self.lo, self.E))
        return [self.i]

    def inv(self, c):
        yield from self.holeinv(c, self.H(self.E.old, self.i), self.lo, self.E.old)

    def post(self, c):
        st, o = c.st, self.E.old
        yield 'size', And(self.n(st) == self.n(o), self.x.len(st) == self.x.len(o))
        yield from self.member(st)
        yield 'no element below lo precedes its parent', self.order(st, self.lo)
        yield 'same members', self.same_members(st)


def sift_effect(self, E, st, lo):
    """the postcondition of the sift contracts, assumed at the call"""
    pre = st.copy()
    for v in (self.h, self.x):
        a = st.cell(v.r, ('a', 0))
        st.setcell(v.r, ('a', 0), z3.Const(fresh_name(v.r.name), a.sort()))
    for _, f in self.member(st):
        st.assume(f)
    st.assume(self.order(st, lo))
    st.assume(self.E.forall(ZERO, self.x.len(pre), lambda v: (self.ix(st, v) >= 0) == (self.ix(pre, v) >= 0)))


def h_up(self, E, st, args, I):
    for nm, f in self.member(st):
        E.oblige(st, 'pre of percolateUp: ' + nm, f)
    E.oblige(st, 'pre of percolateUp: order except at the slot', pre_up(self, st, args[1], E))
    sift_effect(self, E, st, ZERO)


def h_down(self, E, st, args, I):
    lo = self.lo_for(st, args[1])
    for nm, f in self.member(st):
        E.oblige(st, 'pre of percolateDown: ' + nm, f)
    E.oblige(st, 'pre of percolateDown: order except below the slot', pre_down(self, st, args[1], lo, E))
    sift_effect(self, E, st, lo)


method(h_up)
method(h_down)
SIFT = [(r'::percolateUp\(', h_up, 'by contract heap.percolateUp'), (r'::percolateDown\(', h_down, 'by contract heap.percolateDown')]


class Modular(Heap):
    noinline = [r'::percolate(Up|Down)\(']
    handlers = [ORDER] + SIFT

    def lo_for(self, st, i):
        return ZERO


@contract
class Insert(Modular):
    name = 'heap.insert'
    root = 'w_heap_insert'
    says = 'insert(n) of an absent element adds exactly n and keeps the order'

    def args(self, st):
        self.e = Int('n')
        st.assume(And(self.e >= 0, self.e < self.x.len(st), self.ix(st, self.e) < 0))
        return [self.e]

    def post(self, c):
        st, o = c.st, self.E.old
        yield 'one more', self.n(st) == self.n(o) + 1
        yield from self.post_common(st)
        yield 'contained', self.inh(st, self.e)
        yield 'other members unchanged', self.same_members(st, but=self.e)


@contract
class RemoveMin(Modular):
    name = 'heap.removeMin'
    root = 'w_heap_removeMin'
    says = 'removeMin returns a contained element no other contained element precedes, and removes exactly it'

    def args(self, st):
        st.assume(self.n(st) >= 1)
        self.ind_lemma(st)
        return []

    def post(self, c):
        st, o, E = c.st, self.E.old, self.E
        yield 'one less', self.n(st) == self.n(o) - 1
        yield from self.post_common(st)
        yield 'was contained', self.inh(o, c.ret)
        yield 'is gone', Not(self.inh(st, c.ret))
        yield 'other members unchanged', self.same_members(st, but=c.ret)
        yield 'nothing precedes it', E.forall(ZERO, self.n(o), lambda k: Not(lt(self.H(o, k), c.ret)))


class KeyChanged(Modular):
    """one element's key has changed: the order holds for all others, among themselves and across its slot"""
    needs_order = False
    direction = None

    def args(self, st):
        E = self.E
        self.e = e = Int('n')
        st.assume(And(e >= 0, e < self.x.len(st)))
        i = self.ix(st, e)
        n = self.n(st)
        H = lambda k: self.H(st, k)
        st.assume(Implies(i >= 0, And(
            E.forall(IntVal(1), n, lambda k: Implies(And(k != i, par(k) != i), Not(lt(H(k), H(par(k)))))),
            E.forall(IntVal(1), n, lambda k: Implies(And(par(k) == i, i > 0), Not(lt(H(k), H(par(i)))))))))
        st.assume(Implies(i < 0, self.order(st)))
        if self.direction:
            st.assume(i >= 0)
        if self.direction == 'decrease':
            st.assume(E.forall(IntVal(1), n, lambda k: Implies(par(k) == i, Not(lt(H(k), H(i))))))
        if self.direction == 'increase':
            st.assume(Implies(i > 0, Not(lt(H(i), H(par(i))))))
        return [self.e]

    def post(self, c):
        st, o = c.st, self.E.old
        yield from self.post_common(st)
        yield 'contained', self.inh(st, self.e)
        yield 'other members unchanged', self.same_members(st, but=self.e)
        yield 'size', self.n(st) == If(self.ix(o, self.e) >= 0, self.n(o), self.n(o) + 1)


@contract
class Decrease(KeyChanged):
    name = 'heap.decrease'
    root = 'w_heap_decrease'
    says = 'decrease(n) restores the order after the key of n moved forward'
    direction = 'decrease'


@contract
class Increase(KeyChanged):
    name = 'heap.increase'
    root = 'w_heap_increase'
    says = 'increase(n) restores the order after the key of n moved back'
    direction = 'increase'


def weak(self, st, i, E):
    """order everywhere except between slot i and its parent and children"""
    n = self.n(st)
    H = lambda k: self.H(st, k)
    return And(i >= 0, i < n,
               E.forall(IntVal(1), n, lambda k: Implies(And(k != i, par(k) != i), Not(lt(H(k), H(par(k)))))),
               E.forall(IntVal(1), n, lambda k: Implies(And(par(k) == i, i > 0), Not(lt(H(k), H(par(i)))))))


@contract
class UpAny(Heap):
    name = 'heap.percolateUp.any'
    root = 'w_heap_up'
    says = 'percolateUp(i) when slot i may be out of order both ways: afterwards at most the children of the moved element precede it'
    needs_order = False

    def args(self, st):
        self.i = Int('i')
        st.assume(weak(self, st, self.i, self.E))
        return [self.i]

    def inv(self, c):
        o = self.E.old
        x = self.H(o, self.i)
        yield from self.holeinv(c, x, ZERO, o)
        st, E = c.st, self.E
        n = self.n(st)
        for l, i, _ in c.scalars():
            Hk = lambda k: If(k == i, x, self.H(st, k))
            yield 'untouched or in order ' + l, Or(i == self.i, E.forall(IntVal(1), n, lambda k: Implies(k != i, Not(lt(Hk(k), Hk(par(k)))))))
            yield 'weak order ' + l, E.forall(IntVal(1), n, lambda k: Implies(And(k != i, par(k) != i), Not(lt(self.H(st, k), self.H(st, par(k))))))

    def post(self, c):
        st, o = c.st, self.E.old
        yield 'size', And(self.n(st) == self.n(o), self.x.len(st) == self.x.len(o))
        yield from self.member(st)
        yield 'at most the children are out of order', pre_down(self, st, self.ix(st, self.H(o, self.i)), ZERO, self.E)
        yield 'same members', self.same_members(st)


def h_upany(self, E, st, args, I):
    for nm, f in self.member(st):
        E.oblige(st, 'pre of percolateUp: ' + nm, f)
    E.oblige(st, 'pre of percolateUp: order except around the slot', weak(self, st, args[1], E))
    pre = st.copy()
    x = self.H(pre, args[1])
    for v in (self.h, self.x):
        a = st.cell(v.r, ('a', 0))
        st.setcell(v.r, ('a', 0), z3.Const(fresh_name(v.r.name), a.sort()))
    for _, f in self.member(st):
        st.assume(f)
    st.assume(pre_down(self, st, self.ix(st, x), ZERO, E))
    # when the order was only broken towards the parent it is restored completely (heap.percolateUp)
    st.assume(Implies(pre_up(self, pre, args[1], E), self.order(st)))
    st.assume(E.forall(ZERO, self.x.len(pre), lambda v: (self.ix(st, v) >= 0) == (self.ix(pre, v) >= 0)))


method(h_upany)


@contract
class Update(KeyChanged):
    name = 'heap.update'
    root = 'w_heap_update'
    says = 'update(n) inserts n if absent and otherwise restores the order after any change of its key'
    handlers = [ORDER, (r'::percolateUp\(', h_upany, 'by contract heap.percolateUp.any and heap.percolateUp'), SIFT[1]]


@contract
class Grow(Modular):
    name = 'heap.grow'
    root = 'w_heap_grow'
    says = 'grow(n) admits more elements and leaves the content as it is'

    def args(self, st):
        self.m = Int('n')
        st.assume(And(self.m >= 0, self.m < (1 << 30)))
        return [self.m]

    def post(self, c):
        st, o, E = c.st, self.E.old, self.E
        yield 'range', self.x.len(st) == If(self.m > self.x.len(o), self.m, self.x.len(o))
        yield 'same slots', And(self.n(st) == self.n(o), E.forall(ZERO, self.n(o), lambda k: self.H(st, k) == self.H(o, k)))
        yield from self.post_common(st)
        yield 'same members', self.same_members(st)
        yield 'new ones absent', E.forall(self.x.len(o), self.x.len(st), lambda v: self.ix(st, v) == -1)


class ClearInv(Modular):
    def inv(self, c):
        st, E, o = c.st, self.E, self.E.old
        n, m = self.n(o), self.x.len(o)
        for l, i, _ in c.scalars():
            yield 'cleared ' + l, E.forall(ZERO, i, lambda k: Implies(k < n, self.ix(st, self.H(o, k)) == -1))
            yield 'rest ' + l, E.forall(ZERO, m, lambda v: Or(self.ix(st, v) == -1, And(self.ix(st, v) >= i, self.ix(st, v) == self.ix(o, v))))


@contract
class Clear(ClearInv):
    name = 'heap.clear'
    root = 'w_heap_clear'
    says = 'clear leaves the queue empty'

    def post(self, c):
        st, o = c.st, self.E.old
        yield 'empty', self.n(st) == 0
        yield 'nothing contained', self.E.forall(ZERO, self.x.len(o), lambda v: self.ix(st, v) == -1)


@contract
class Build(ClearInv):
    name = 'heap.build'
    root = 'w_heap_build'
    says = 'build(ns) makes the queue contain exactly the (distinct) elements of ns, in order'
    needs_order = False
    budget = 240

    def args(self, st):
        E = self.E
        b = B(E, st)
        self.no = b.obj('NSO')
        self.ns = b.vec(self.no, 0, 'NS', maxlen=1 << 30)
        self.where = z3.Function('where', z3.IntSort(), z3.IntSort())
        st.assume(E.forall(ZERO, self.ns.len(st), lambda k: And(self.ns.get(st, k) >= 0, self.ns.get(st, k) < self.x.len(st), self.where(self.ns.get(st, k)) == k)))
        return [Ptr(self.no)]

    def lo_for(self, st, i):
        return i

    def inv(self, c):
        yield from super().inv(c)
        st, E, o = c.st, self.E, self.E.old
        m = self.x.len(o)
        N = self.ns.len(o)
        ns = lambda k: self.ns.get(o, k)
        yield 'indices length', self.x.len(st) == m
        yield 'index range', E.forall(ZERO, m, lambda v: And(self.ix(st, v) >= -1))
        yield 'size = N', self.n(st) == N
        for l, i, _ in c.scalars():
            yield 'size ' + l, self.n(st) == i
            yield 'N ' + l, i <= N
            yield 'filled ' + l, E.forall(ZERO, i, lambda k: Implies(k < N, And(self.H(st, k) == ns(k), self.ix(st, ns(k)) == k)))
            yield 'unfilled ' + l, E.forall(ZERO, m, lambda v: Or(self.ix(st, v) == -1, And(self.ix(st, v) >= 0, self.ix(st, v) < i, ns(self.ix(st, v)) == v)))
            yield 'order from ' + l, self.order(st, i + 1)
            yield 'order after ' + l, self.order(st, i)
        for nm, f in self.member(st):
            yield nm, f
        yield 'members', E.forall(ZERO, m, lambda v: (self.ix(st, v) >= 0) == And(self.where(v) >= 0, self.where(v) < N, ns(self.where(v)) == v))

    def post(self, c):
        st, o, E = c.st, self.E.old, self.E
        N = self.ns.len(o)
        yield 'size', self.n(st) == N
        yield from self.post_common(st)
        yield 'every given element is contained', E.forall(ZERO, N, lambda k: self.ix(st, self.ns.get(o, k)) >= 0)
        yield 'nothing else is contained', E.forall(ZERO, self.x.len(o), lambda v: Implies(self.ix(st, v) >= 0, And(self.where(v) >= 0, self.where(v) < N, self.ns.get(o, self.where(v)) == v)))


def q(nm, root_, words, arg, pf):
    @contract
    class K(Heap):
        name = 'heap.' + nm
        root = root_
        says = words

        def args(self, st):
            if not arg:
                return []
            self.a = Int('n')
            st.assume(arg(self, st, self.a))
            return [self.a]

        def post(self, c):
            st, o = c.st, self.E.old
            yield 'answer', pf(self, o, c.ret)
            yield 'content unchanged', And(self.n(st) == self.n(o), self.E.forall(ZERO, self.n(o), lambda k: self.H(st, k) == self.H(o, k)), self.same_members(st))


q('inHeap', 'w_heap_in', 'inHeap(n) exactly if n is contained', lambda s, st, a: And(a >= 0, a < (1 << 31)), lambda s, o, r: r == s.inh(o, s.a))
q('empty', 'w_heap_empty', 'empty exactly if nothing is contained', None, lambda s, o, r: r == (s.n(o) == 0))
q('size', 'w_heap_size', 'size is the number of contained elements', None, lambda s, o, r: r == s.n(o))
q('at', 'w_heap_at', 'heap[i] is the element in slot i', lambda s, st, a: And(a >= 0, a < s.n(st)), lambda s, o, r: r == s.H(o, s.a))
