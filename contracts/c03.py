"""Contracts of unit propagation (C03)."""
from lib import *
import ir
from lib import h_push_back as lib_push
from contract import Contract, contract, method
from shapes import TrailShape
from sym import Undecided


PIGEON = 'pigeonhole principle: a trail of distinct variables below V that misses one of them is shorter than V'


class Prop(Contract):
    prop = 'C03'
    tu = 'propagate'
    assumes = (PIGEON,)

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.b = b
        E.auto = False
        self.f = f = b.clauses('clauses')
        self.pr = E.region('pos', start=0, stride=1, fields={0: I32})
        self.t = t = TrailShape(E, st, reasons=f.r, wf=False)
        self.pr.length = lambda s, id: t.V
        for n, g in t.wf(st, lambda v: self.pos(st, v)):
            E.heavy(st, g)
        self.o = b.obj('prop')
        self.db = b.obj('db', OFF_DB_variables='i32')
        for k, p in (('db', Ptr(self.db)), ('trail', t.ptr())):
            o = E.offs['OFF_P_' + k]
            self.o.fixed[o] = (8, 'ptr')
            st.mem[('prop', ('f', o))] = p
        self.p = p = Int('p')
        st.assume(And(p >= 0, p < 2 * t.V, t.ltrue(st, p)))
        self.member = z3.Function('member', z3.IntSort(), z3.BoolSort())
        return [Ptr(self.o)] + self.args(st)

    def pos(self, st, v):
        return self.E.rd(st, self.pr, None, ('a', 0), v)

    @method
    def h_propagate(self, E, st, args, I):
        """trail.propagate of an unassigned literal"""
        t, l, c = self.t, args[1], args[2]
        if args[0].r is not t.o or c.r is not self.f.r:
            raise Undecided('trail')
        n = t.size(st)
        E.oblige(st, 'the literal is in range and unassigned', And(l >= 0, l < 2 * t.V, t.lundef(st, l)))
        E.oblige_all(st, [('the trail is well-formed: ' + nm, g) for nm, g in t.wf(st, lambda v: self.pos(st, v))])
        st.assume(n < t.V)
        self.implying(st, l, c.id)
        v = z3.simplify(l / 2)
        E.wr(st, t.trail.r, None, ('a', 0), n, l)
        E.wr(st, t.assigns.r, None, ('a', 0), v, l % 2)
        E.wr(st, t.vardata.r, None, ('a', t.RO), v, c.id)
        E.wr(st, t.vardata.r, None, ('a', t.LO), v, t.lim.len(st))
        E.wr(st, t.o, None, ('f', E.offs['OFF_T_trail_size']), None, n + 1)
        E.wr(st, self.pr, None, ('a', 0), v, n)
        return BoolVal(True)

    def implying(self, st, l, c):
        pass

    def grown(self, st, sound):
        """what propagation may do to the trail"""
        t, E, o = self.t, self.E, self.E.old
        n0, n = t.size(o), t.size(st)
        yield 'the trail only grows', And(n >= n0, E.forall(ZERO, n0, lambda k: t.lit(st, k) == t.lit(o, k)))
        yield 'assigned variables keep value, level and reason', E.forall(ZERO, t.V, lambda v: Implies(t.val(o, v) < 2, And(t.val(st, v) == t.val(o, v), t.level(st, v) == t.level(o, v), t.reason(st, v) == t.reason(o, v))))
        yield 'new literals have the current level', E.forall(ZERO, t.V, lambda v: Implies(And(t.val(o, v) >= 2, t.val(st, v) < 2), t.level(st, v) == t.lim.len(o)))
        for nm, s in (sound if isinstance(sound, dict) else {'a reason that implies it': sound}).items():
            yield 'every new literal has ' + nm, E.forall(ZERO, t.V, lambda v: Implies(And(t.val(o, v) >= 2, t.val(st, v) < 2), s(st, t.reason(st, v), 2 * v + t.val(st, v))))
        for nm, g in t.wf(st, lambda v: self.pos(st, v)):
            yield 'trail: ' + nm, g
        yield 'queue head and level limits unchanged', And(t.qhead(st) == t.qhead(o), *[g for _, g in t.unchanged(st, ['lim'])])


PROP = (r'Candy::Trail::propagate', Prop.h_propagate, 'by contract trail.propagate')


@contract
class Binary(Prop):
    name = 'propagate.binary'
    root = 'w_pr_binary'
    says = '''propagate_binary_clauses(p) of a true literal p: without a conflict all literals implied by p over a clause of two literals are true; a conflict is a clause of the database of two literals that are
    both false; every newly assigned literal has the current level and as its reason a clause of the database that consists of it and of the negation of p; what was assigned stays'''
    noinline = [r'Candy::Trail::propagate']
    handlers = [PROP]

    def args(self, st):
        E, t, f, p = self.E, self.t, self.f, self.p
        self.CO, self.OO = E.offs['OFF_BW_clause'], E.offs['OFF_BW_other']
        self.bin = self.b.nested(self.db, 'OFF_DB_bin', 'bin', E.offs['SZ_BW'], {self.CO: (8, PK(f.r)), self.OO: I32}, n=None)
        st.assume(And(self.bin.len(st) >= 2 * t.V, self.cnt(st) >= 0))
        E.heavy(st, E.forall(ZERO, self.cnt(st), lambda k: And(self.cl(st, k) > 0, self.member(self.cl(st, k)), self.ot(st, k) >= 0, self.ot(st, k) < 2 * t.V,
                self.pair(st, self.cl(st, k), self.ot(st, k)))))
        return [p]

    def cnt(self, st):
        return self.bin.count(st, self.p)

    def cl(self, st, k):
        return self.bin.item(st, self.p, k, self.CO)

    def ot(self, st, k):
        return self.bin.item(st, self.p, k, self.OO)

    def pair(self, st, c, q):
        f = self.f
        a, b = f.get(st, c, ZERO), f.get(st, c, IntVal(1))
        return And(f.len(st, c) == 2, Or(And(a == q, b == neg(self.p)), And(b == q, a == neg(self.p))))

    def sound(self, st, c, q):
        return And(c > 0, self.member(c), self.pair(st, c, q))

    def inv(self, c):
        st, E, t = c.st, self.E, self.t
        yield from self.grown(st, self.sound)
        for l, x in c.vals():
            if isinstance(x, Ptr) and x.r is self.bin.data:
                i = E.pidx(x)
                yield 'position ' + l, And(i >= 0, i <= self.cnt(st))
                yield 'done ' + l, E.forall(ZERO, i, lambda k: t.ltrue(st, self.ot(st, k)))
        for l, x, _ in c.scalars():
            if z3.is_int(x):
                yield 'index ' + l, And(x >= 0, x <= self.cnt(st))
                yield 'done to ' + l, E.forall(ZERO, x, lambda k: t.ltrue(st, self.ot(st, k)))

    def post(self, c):
        st, E, t, f = c.st, self.E, self.t, self.f
        yield from self.grown(st, self.sound)
        r = c.ret
        if r.r is None:
            yield 'no conflict: everything p implies is true', E.forall(ZERO, self.cnt(E.old), lambda k: t.ltrue(st, self.ot(E.old, k)))
        else:
            yield 'the conflict is a clause of two false literals', And(r.id > 0, self.member(r.id), f.len(st, r.id) == 2, *[t.lfalse(st, f.get(st, r.id, IntVal(z))) for z in (0, 1)]) if r.r is f.r else BoolVal(False)
        d = self.bin.data
        i, k = z3.Int('list'), z3.Int('at')
        yield 'lists unchanged', And(self.bin.len(st) == self.bin.len(E.old), Implies(And(i >= 0, i < self.bin.len(st)), And(self.bin.count(st, i) == self.bin.count(E.old, i),
            Implies(And(k >= 0, k < self.bin.count(st, i)), And(*[self.bin.item(st, i, k, z) == self.bin.item(E.old, i, k, z) for z in (self.CO, self.OO)])))))
        yield 'clauses unchanged', And(f.len(st, i) == f.len(E.old, i), f.get(st, i, k) == f.get(E.old, i, k))


def u16(x):
    return If(x < 0, x + 65536, x)


class WatchLists(Prop):
    """the watch lists, and what a call of std::vector does to them"""

    def lists(self, st):
        E, f, t = self.E, self.f, self.t
        self.CO, self.BO = E.offs['OFF_W_cref'], E.offs['OFF_W_blocker']
        self.w = self.b.nested(self.o, 'OFF_P_watchers', 'watch', E.offs['SZ_W'], {self.CO: (8, PK(f.r)), self.BO: I32}, n=None)
        q = self.w.len(st)
        st.assume(q < (1 << 31))
        E.heavy(st, E.forall(ZERO, q, lambda i: self.cnt(st, i) >= 0))
        self.moved = E.region('moved', start=0, stride=1, fields={0: I32})      # ghost: where the last appended entry of a clause is, plus one
        self.moved.length = lambda s, id: IntVal(1 << 40)
        self.mlist = E.region('movedto', start=0, stride=1, fields={0: I32})    # ghost: and in which list
        self.mlist.length = lambda s, id: IntVal(1 << 40)
        self.dst = E.region('dst', start=0, stride=1, fields={0: I32})          # ghost: where an entry of the list that is walked went
        self.dst.length = lambda s, id: IntVal(1 << 40)

    def cnt(self, st, i):
        return self.w.count(st, i)

    def cl(self, st, i, k):
        return self.w.item(st, i, k, self.CO)

    def bl(self, st, i, k):
        return self.w.item(st, i, k, self.BO)

    def mv(self, st, c):
        return self.E.rd(st, self.moved, None, ('a', 0), c)

    def ml(self, st, c):
        return self.E.rd(st, self.mlist, None, ('a', 0), c)

    def to(self, st, k):
        return self.E.rd(st, self.dst, None, ('a', 0), k)

    @method
    def h_emplace(self, E, st, args, I):
        h, pc, pl = args[:3]
        v, d = self.w, self.w.data
        if h.r is not v.r:
            return lib_push(E, st, args, I)
        i = E.pidx(h)
        E.oblige(st, 'the list exists', And(i >= 0, i < v.len(st)))
        c = E.load(st, pc, ir.PTR)
        l = E.load(st, pl, ir.IntTy(32))
        n = self.cnt(st, i)
        st.assume(And(n >= 0, n < (1 << 40)))
        if c.r is not self.f.r:
            raise Undecided('what is appended is not a clause')
        self.appending(st, i, c.id)
        E.wr(st, d, i + 1, ('a', self.CO), n, c.id)
        E.wr(st, d, i + 1, ('a', self.BO), n, l)
        E.wr(st, v.r, None, ('a', 8), i, n + 1)
        E.wr(st, self.moved, None, ('a', 0), c.id, n + 1)
        E.wr(st, self.mlist, None, ('a', 0), c.id, i)

    def appending(self, st, i, c):
        pass

    @method
    def h_erase(self, E, st, args, I):
        """vector::erase(first, last): the elements from last on move to first"""
        h, a, b = args[:3]
        v, d = self.w, self.w.data
        if h.r is not v.r or a.r is not d or b.r is not d:
            raise Undecided('erase')
        i = E.pidx(h)
        x, y = E.pidx(a), E.pidx(b)
        n = self.cnt(st, i)
        E.oblige(st, 'a range of the list is erased', And(a.id == i + 1, b.id == i + 1, x >= 0, x <= y, y <= n))
        for o in (self.CO, self.BO):
            cell = st.cell(d, ('a', o))
            old = z3.Select(cell, i + 1)
            na = z3.Const(fresh_name('erased'), old.sort())
            st.setcell(d, ('a', o), z3.Store(cell, i + 1, na))
            E.heavy(st, E.forall(ZERO, n - (y - x), lambda k: z3.Select(na, k) == z3.Select(old, If(k < x, k, k + (y - x)))))
        E.wr(st, v.r, None, ('a', 8), i, n - (y - x))
        J = st.cell(self.dst, ('a', 0))
        nj = z3.Const(fresh_name('dst'), J.sort())
        st.setcell(self.dst, ('a', 0), nj)
        E.heavy(st, E.forall(ZERO, n, lambda k: z3.Select(nj, k) == If(k < y, z3.Select(J, k), k - y + x)))
        return a


WL = [(r'std::vector<Candy::Watcher.*>::emplace_back', WatchLists.h_emplace, 'std::vector::push_back/emplace_back append one element and leave the others unchanged'),
      (r'std::vector<Candy::Watcher.*>::erase\(', WatchLists.h_erase, 'std::vector::erase(first, last) removes this range and keeps the order of the others')]


@contract
class Watched(WatchLists):
    name = 'propagate.watched'
    root = 'w_pr_watched'
    says = '''propagate_watched_clauses(p) of a true literal p whose list names each clause watched by the negation of p once: every newly assigned literal has the current level and as its reason a clause of
    the list of which it is the first literal and all other literals are false and on the trail before it; a conflict is a clause of the list with all literals false; without a conflict every clause of
    the list is either still in it, with a true literal as the blocker, or was moved to the list of its new second watch, which was not false before; clauses with a true first literal do not change'''
    noinline = [r'Candy::Trail::propagate', r'std::vector<Candy::Watcher.*>::erase\(', r'Candy::Clause::swap']
    budget = 900
    tier = 'thorough'
    bound = None        # the ghost code follows the loops of the proof, there is no bounded run
    cand_ms = 9000

    def args(self, st):
        E, t, f, p = self.E, self.t, self.f, self.p
        E.parallel = 3
        self.lists(st)
        f.r.length = lambda s, id: u16(E.rd(s, f.r, id, ('f', 0)))
        st.assume(self.w.len(st) >= 2 * t.V)
        self.NC = NC = Int('clauses')
        st.assume(NC > 0)
        if E.bounded is not None:
            st.assume(NC <= E.bounded)
        self.at = z3.Function('at', z3.IntSort(), z3.IntSort())
        n = self.n0 = self.cnt(st, p)
        E.heavy(st, E.forall(ZERO, n, lambda k: self.entry(st, k)))
        E.heavy(st, E.forall(IntVal(1), NC, lambda c: self.mv(st, c) == 0))
        return [p]

    def entry(self, st, k):
        t, f = self.t, self.f
        c = self.cl(st, self.p, k)
        b = self.bl(st, self.p, k)
        np = neg(self.p)
        return And(c > 0, c < self.NC, self.member(c), self.at(c) == k, u16(f.len(st, c)) >= 3, b >= 0, b < 2 * t.V,
                   Or(f.get(st, c, ZERO) == np, f.get(st, c, IntVal(1)) == np), Not(f.get(st, c, ZERO) == f.get(st, c, IntVal(1))),
                   self.E.forall(ZERO, u16(f.len(st, c)), lambda x: And(f.get(st, c, x) >= 0, f.get(st, c, x) < 2 * t.V)))

    def inlist(self, c, hi=None):
        k = self.at(c)
        return And(k >= 0, k < (self.n0 if hi is None else hi), self.cl(self.E.old, self.p, k) == c)

    @method
    def h_swap(self, E, st, args, I):
        c, i, j = args[:3]
        f = self.f
        if c.r is not f.r:
            raise Undecided('swap')
        n = u16(f.len(st, c.id))
        E.oblige(st, 'the positions are within the clause', And(i >= 0, i < n, j >= 0, j < n))
        a, b = f.get(st, c.id, i), f.get(st, c.id, j)
        E.wr(st, f.r, c.id, ('a', 0), i, b)
        E.wr(st, f.r, c.id, ('a', 0), j, a)

    def implying(self, st, l, c):
        """what makes the clause a reason for the literal"""
        t, f, E = self.t, self.f, self.E
        g = E.forall(IntVal(1), u16(f.len(st, c)), lambda x: self.before(st, f.get(st, c, x), t.size(st)))
        E.oblige(st, 'all literals but the first are false, on the trail', g)
        st.assume(g)

    def before(self, st, q, n):
        t = self.t
        return And(q >= 0, q < 2 * t.V, t.lfalse(st, q), self.pos(st, q / 2) < n)

    def appending(self, st, i, c):
        self.E.oblige(st, 'the list that is walked does not grow', Not(i == self.p))

    def sound_to(self, hi):
        t, f = self.t, self.f
        n = lambda st, r: u16(f.len(st, r))
        others = lambda g: lambda st, r, l: self.E.forall(IntVal(1), n(st, r), lambda x: g(st, f.get(st, r, x), l))
        return {'a clause of the list as reason, with the literal first': lambda st, r, l: And(r > 0, r < self.NC, self.inlist(r, hi), f.get(st, r, ZERO) == l),
                'a reason whose other literals are false and come earlier': others(lambda st, q, l: self.before(st, q, self.pos(st, l / 2)))}

    def inv(self, c):
        st, E, t, f, o, p = c.st, self.E, self.t, self.f, self.E.old, self.p
        n = self.n0
        D = E.deltas.get(c.header, {})
        ks = [(l, E.pidx(x)) for l, x in c.ptrs() if x.r is self.w.data]
        for l, x in ks:
            yield 'position ' + l, And(x >= 0, x <= n)
            if D.get(l, 1) != 1:
                continue                    # the position that is walked goes up by one each time
            yield from self.progress(st, x, l)
            for m, y in ks:
                if l != m and D.get(m) != 1:
                    yield 'kept %s %s' % (l, m), y <= x
                    yield from self.entries(st, x, y, l + m)
                    yield 'reach %s %s' % (l, m), self.to(st, x) == y
                    yield 'fate %s %s' % (l, m), E.forall(ZERO, x, lambda k: self.fate(st, k, y))
        if ks:
            yield 'literals in range', E.forall(ZERO, n, lambda k: E.forall(ZERO, u16(f.len(o, self.cl(o, p, k))), lambda x: And(f.get(st, self.cl(o, p, k), x) >= 0, f.get(st, self.cl(o, p, k), x) < 2 * t.V)))
            yield from self.frames(st)
            return
        for l, x in [(l, x) for l, x in c.vals() if z3.is_expr(x) and z3.is_int(x)]:
            for q in [x for _, x in c.vals() if isinstance(x, Ptr) and x.r is f.r] + [self.cur(st, c)]:
                if q is not None:
                    yield 'false so far ' + l, And(x >= 2, E.forall(IntVal(2), x, lambda z: t.lfalse(st, f.get(st, q if z3.is_expr(q) else q.id, z))))

    def cur(self, st, c):
        """the clause the walk is at"""
        for h in [x[0] for x in st.loops]:
            D = self.E.deltas.get(h, {})
            for I in self.E.phi_insts(h):
                x = st.regs.get(I.res)
                if isinstance(x, Ptr) and x.r is self.w.data and D.get('%' + I.res) == 1:
                    return self.cl(self.E.old, self.p, self.E.pidx(x))

    def progress(self, st, x, l=''):
        """the first x entries are done"""
        E, t, f, o, p = self.E, self.t, self.f, self.E.old, self.p
        for nm, g in self.grown(st, self.sound_to(x)):
            yield nm + ' ' + l, g
        yield 'clauses not reached, not in the list, or with a true first literal do not change ' + l, E.forall(IntVal(1), self.NC, lambda c: Implies(
            Or(Not(self.inlist(c, x)), t.ltrue(o, f.get(o, c, ZERO))), E.forall(ZERO, u16(f.len(o, c)), lambda k: f.get(st, c, k) == f.get(o, c, k))))
        yield 'only entries that were reached are moved ' + l, E.forall(IntVal(1), self.NC, lambda c: Implies(Not(self.inlist(c, x)), self.mv(st, c) == 0))
        yield 'entries not reached ' + l, And(self.cnt(st, p) == self.n0, E.forall(x, self.n0, lambda k: And(self.cl(st, p, k) == self.cl(o, p, k), self.bl(st, p, k) == self.bl(o, p, k))))

    def entries(self, st, x, y, l=''):
        """the entries before y are those kept among the first x"""
        E, t, o, p = self.E, self.t, self.E.old, self.p
        yield 'kept entries have a true blocker ' + l, E.forall(ZERO, y, lambda m: self.good(st, m, x))
        yield 'kept entries are in order ' + l, E.forall(ZERO, y, lambda m: E.forall(m + 1, y, lambda z: self.at(self.cl(st, p, m)) < self.at(self.cl(st, p, z))))

    def good(self, st, m, x):
        t, f, o, p = self.t, self.f, self.E.old, self.p
        c, b = self.cl(st, p, m), self.bl(st, p, m)
        return And(c > 0, c < self.NC, self.inlist(c, x), self.mv(st, c) == 0, b >= 0, b < 2 * t.V, t.ltrue(st, b), Or(b == self.bl(o, p, self.at(c)), b == f.get(st, c, ZERO)),
                   Or(f.get(st, c, ZERO) == neg(p), f.get(st, c, IntVal(1)) == neg(p)))

    def fate(self, st, k, y):
        """what became of entry k: kept before y, or moved"""
        c, j = self.cl(self.E.old, self.p, k), self.to(st, k)
        return Or(And(self.mv(st, c) == 0, j >= 0, j <= k, j < y, self.cl(st, self.p, j) == c), self.mv(st, c) > 0)

    def gone(self, st, c):
        t, f, o, p = self.t, self.f, self.E.old, self.p
        s = f.get(st, c, IntVal(1))
        q, k = self.ml(st, c), self.mv(st, c) - 1
        yield 'is in another list', And(Not(q == p), q >= 0, q < self.w.len(o), k >= self.cnt(o, q), k < self.cnt(st, q), self.cl(st, q, k) == c)
        yield 'is in the list of its second literal, which was not false', And(q == neg(s), s >= 0, s < 2 * t.V, Not(t.lfalse(o, s)), Not(f.get(st, c, ZERO) == neg(p)))
        yield 'has its first literal as blocker', self.bl(st, q, k) == f.get(st, c, ZERO)

    def frames(self, st):
        E, t, f, o, p = self.E, self.t, self.f, self.E.old, self.p
        yield 'other lists keep their entries', E.forall(ZERO, self.w.len(o), lambda i: Implies(Not(i == p), And(self.cnt(st, i) >= self.cnt(o, i), E.forall(ZERO, self.cnt(o, i), lambda k: And(
            self.cl(st, i, k) == self.cl(o, i, k), self.bl(st, i, k) == self.bl(o, i, k))))))
        yield 'what is appended to other lists is a moved clause', E.forall(ZERO, self.w.len(o), lambda i: Implies(Not(i == p), E.forall(self.cnt(o, i), self.cnt(st, i), lambda k: self.appended(st, i, k))))
        for nm, _ in self.gone(st, ZERO):
            yield 'a moved clause ' + nm, E.forall(IntVal(1), self.NC, lambda c: Implies(self.mv(st, c) != 0, dict(self.gone(st, c))[nm]))
        yield 'lengths unchanged', E.forall(IntVal(1), self.NC, lambda c: f.len(st, c) == f.len(o, c))
        yield 'number of lists', self.w.len(st) == self.w.len(o)

    def appended(self, st, i, k):
        c = self.cl(st, i, k)
        return And(c > 0, c < self.NC, self.mv(st, c) == k + 1, self.ml(st, c) == i)

    def at_loop(self, c):
        """note how far the kept entries reach when the walk is at an entry"""
        D = self.E.deltas.get(c.header, {})
        ks = [(l, self.E.pidx(x)) for l, x in c.ptrs() if x.r is self.w.data]
        xs, ys = [x for l, x in ks if D.get(l) == 1], [x for l, x in ks if D.get(l) != 1]
        if len(xs) == 1 and len(ys) == 1:
            self.E.wr(c.st, self.dst, None, ('a', 0), xs[0], ys[0])

    def post(self, c):
        st, E, t, f, o, p = c.st, self.E, self.t, self.f, self.E.old, self.p
        n = self.n0
        for nm, g in self.progress(st, n):
            if not nm.startswith('entries not'):
                yield nm, g
        yield from self.frames(st)
        r = c.ret
        m = self.cnt(st, p)
        if r.r is None:
            yield from self.entries(st, n, m)
            yield 'every clause of the list is kept or moved', E.forall(ZERO, n, lambda k: self.fate(st, k, m))
        else:
            ok = r.r is f.r
            yield 'the conflict is a clause of the list', And(r.id > 0, self.member(r.id), self.inlist(r.id)) if ok else BoolVal(False)
            if ok:
                yield 'the first literal of the conflict is false', t.lfalse(st, f.get(st, r.id, ZERO))
                yield 'the second literal of the conflict is false', t.lfalse(st, f.get(st, r.id, IntVal(1)))
                yield 'the other literals of the conflict are false', E.forall(IntVal(2), u16(f.len(st, r.id)), lambda x: t.lfalse(st, f.get(st, r.id, x)))
            yield 'kept entries are in order', E.forall(ZERO, m, lambda a: E.forall(a + 1, m, lambda z: self.at(self.cl(st, p, a)) < self.at(self.cl(st, p, z))))
            yield 'every clause of the list is kept or moved', E.forall(ZERO, n, lambda k: self.fate(st, k, m))


Watched.handlers = [PROP] + WL + [(r'Candy::Clause::swap', Watched.h_swap, 'by contract clause.swap')]
