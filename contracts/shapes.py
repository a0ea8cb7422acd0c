"""Shapes shared by several contracts."""
from lib import *


class TrailShape:
    """A well-formed trail, with a ghost position pos(v) for every assigned variable."""

    def __init__(self, E, st, name='T', wf=True, levels=True, reasons=None, heavy=False):
        self.E = E
        b = B(E, st)
        self.o = b.obj(name, OFF_T_trail_size='i32', OFF_T_qhead='i32', OFF_T_variables='i32')
        self.V = Int('V!' + name)
        st.assume(And(self.V >= 0, self.V < (1 << 30)))
        if E.bounded is not None:
            st.assume(self.V <= E.bounded)
        if reasons is None:
            reasons = E.region(name + '.reasons', fam=True, fixed={0: I16, 2: I16}, start=4, stride=4, fields={0: I32})
            reasons.length = lambda s, id: E.rd(s, reasons, id, ('f', 0))
        self.reasons = reasons
        self.trail = b.vec(self.o, 'OFF_T_trail', name + '.trail', n=self.V)
        self.assigns = b.vec(self.o, 'OFF_T_assigns', name + '.assigns', stride=1, fields={0: I8}, n=self.V)
        self.RO, self.LO = E.offs['OFF_VD_reason'], E.offs['OFF_VD_level']
        self.vardata = b.vec(self.o, 'OFF_T_vardata', name + '.vardata', stride=E.offs['SZ_VarData'],
                             fields={self.RO: (8, PK(reasons)), self.LO: I32}, n=self.V)
        self.decision = b.vec(self.o, 'OFF_T_decision', name + '.decision', stride=1, fields={0: I8}, n=self.V)
        self.lim = b.vec(self.o, 'OFF_T_trail_lim', name + '.lim', maxlen=1 << 30)
        self.assum = b.vec(self.o, 'OFF_T_assumptions', name + '.assumptions', maxlen=1 << 30)
        so = E.offs['OFF_T_stamp']
        self.stamped = b.vec(self.o, so + E.offs['OFF_S_stamped'], name + '.stamped', n=None, maxlen=1 << 31)
        self.stampoff = so + E.offs['OFF_S_stamp']
        self.o.fixed[self.stampoff] = I32
        st.assume(fld(E, st, self.o, 'OFF_T_variables') == self.V)
        self.pos = z3.Function('pos!' + name, z3.IntSort(), z3.IntSort())
        if wf:
            for n, f in self.wf(st, lambda v: self.pos(v), levels):
                if heavy:
                    E.heavy(st, f)
                else:
                    st.assume(f)

    def ptr(self):
        return Ptr(self.o)

    def size(self, st):
        return fld(self.E, st, self.o, 'OFF_T_trail_size')

    def qhead(self, st):
        return fld(self.E, st, self.o, 'OFF_T_qhead')

    def val(self, st, v):
        return self.assigns.get(st, v)

    def lit(self, st, i):
        return self.trail.get(st, i)

    def level(self, st, v):
        return self.vardata.get(st, v, self.LO)

    def reason(self, st, v):
        return self.vardata.get(st, v, self.RO)

    def ltrue(self, st, p):
        return self.val(st, p / 2) == p % 2

    def lfalse(self, st, p):
        return self.val(st, p / 2) == 1 - p % 2

    def lundef(self, st, p):
        return self.val(st, p / 2) >= 2

    def wf(self, st, pos, levels=True):
        E, V = self.E, self.assigns.len(st)
        n, q = self.size(st), self.qhead(st)
        yield 'sizes agree', And(self.trail.len(st) == V, self.vardata.len(st) == V, n >= 0, n <= V)
        yield 'queue head within the trail', And(q >= 0, q <= n)
        yield 'trail literals are in range and true', E.forall(ZERO, n, lambda i: And(self.lit(st, i) >= 0, self.lit(st, i) < 2 * V, self.ltrue(st, self.lit(st, i)), pos(self.lit(st, i) / 2) == i))
        yield 'exactly the variables on the trail have a value', E.forall(ZERO, V, lambda v: And(
            self.val(st, v) >= 0, self.val(st, v) <= 3,
            Implies(self.val(st, v) < 2, And(pos(v) >= 0, pos(v) < n, self.lit(st, pos(v)) / 2 == v))))
        if levels:
            L = self.lim.len(st)
            yield 'level limits ordered', And(
                E.forall(ZERO, L, lambda a: And(self.lim.get(st, a) >= 0, self.lim.get(st, a) <= n)),
                E.forall(ZERO, L, lambda a: E.forall(a, L, lambda c: self.lim.get(st, a) <= self.lim.get(st, c))))
            yield 'recorded levels are the levels at which the literals were set', E.forall(ZERO, V, lambda v: Implies(self.val(st, v) < 2, And(
                self.level(st, v) >= 0, self.level(st, v) <= L,
                E.forall(ZERO, L, lambda a: (self.level(st, v) > a) == (pos(v) >= self.lim.get(st, a))))))

    def unchanged(self, st, what, old=None):
        """frame: the named parts are as they were"""
        E, o = self.E, old or self.E.old
        d = dict(trail=(self.trail, [0]), assigns=(self.assigns, [0]), vardata=(self.vardata, [self.RO, self.LO]), lim=(self.lim, [0]), decision=(self.decision, [0]),
                 assumptions=(self.assum, [0]), stamped=(self.stamped, [0]))
        for w in what:
            v, fs = d[w]
            yield '%s unchanged' % w, And(v.len(st) == v.len(o), *[E.forall(ZERO, v.len(o), lambda k: v.get(st, k, f) == v.get(o, k, f)) for f in fs])
