from lib import *
from contract import Contract, contract, method


def h_sort(E, st, args, I):
    """std::sort: the range afterwards holds a permutation of what it held before (order by the comparator is not used)"""
    a, b = args[0], args[1]
    r = a.r
    if r is None:
        return None
    lo, hi = E.pidx(a), E.pidx(b)
    perm = z3.Function(fresh_name('perm'), z3.IntSort(), z3.IntSort())
    for f in r.fields:
        old = st.cell(r, ('a', f))
        new = z3.Const(fresh_name(r.name + '.sorted'), old.sort())
        if E.bounded is not None:
            N = E.bounded + 4
            st.assume(And([Implies(And(lo <= k, k < hi), And(perm(IntVal(k)) >= lo, perm(IntVal(k)) < hi, new[k] == old[perm(IntVal(k))])) for k in range(N)]))
            st.assume(And([Implies(Or(k < lo, k >= hi), new[k] == old[k]) for k in range(N)]))
        else:
            k = Int(fresh_name('k'))
            st.assume(z3.ForAll([k], If(And(lo <= k, k < hi), And(perm(k) >= lo, perm(k) < hi, new[k] == old[perm(k)]), new[k] == old[k]), patterns=[new[k]]))
        st.setcell(r, ('a', f), new)
    return None


@method
def h_remove(c, E, st, args, I):
    """ClauseDatabase::removeClause by its contract: marks this clause deleted and touches no other clause"""
    p = args[1]
    f = c.f
    w = f.weight(E.old, p.id)
    E.oblige(st, 'a clause is removed only if it is learnt, above the protected quality measure and was not deleted before',
             And(p.id > 0, c.u(w) > c.plbd, c.u(w) != 65535))
    E.oblige(st, 'a clause of two literals or fewer is never removed', f.len(E.old, p.id) >= 3)
    E.wr(st, f.r, p.id, ('f', 2), None, IntVal(-1))
    n = E.rd(st, c.g, None, ('f', 0))
    E.wr(st, c.g, None, ('f', 0), None, n + 1)
    return None


@contract
class Reduce(Contract):
    prop = 'C19'
    tu = 'reduce'
    name = 'reducedb.reduce'
    root = 'w_reduce'
    says = '''given a database in which clauses of two literals or fewer have weight 0, reduce() calls removeClause only on clauses of the database that are learnt, not deleted, longer than two
    literals and above the protected quality measure, on at most half (rounded up) of those, and changes no other clause'''
    noinline = [r'Candy::ClauseDatabase::removeClause', r'^void std::sort<']
    handlers = [(r'Candy::ClauseDatabase::removeClause', h_remove, 'by contract clausedb.removeClause'), (r'^void std::sort<', h_sort, 'std::sort permutes the range')]

    def u(self, w):
        return If(w < 0, w + 65536, w)

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.f = b.clauses('clauses')
        PKC = (8, PK(self.f.r))
        E.elems = {'Candy::Clause*': (8, {0: PKC})}
        self.db = b.obj('db')
        self.v = b.vec(self.db, 'OFF_DB_clauses', 'db.clauses', stride=8, fields={0: PKC})
        self.tr = b.obj('trail')
        self.o = b.obj('reducer', OFF_R_nReduced='i64', OFF_R_calls='i64', OFF_R_plbd='i32', OFF_R_median='i8')
        for k, t in (('OFF_R_db', self.db), ('OFF_R_trail', self.tr)):
            self.o.fixed[E.offs[k]] = (8, 'ptr')
            st.mem[(self.o.name, ('f', E.offs[k]))] = Ptr(t)
        self.g = E.region('ghost', fixed={0: I64})
        st.mem[('ghost', ('f', 0))] = ZERO
        pl = fld(E, st, self.o, 'OFF_R_plbd')
        self.plbd = If(pl < 0, pl + (1 << 32), pl)
        n = self.v.len(st)
        st.assume(E.forall(ZERO, n, lambda k: self.v.get(st, k) > 0))
        x = Int('x')
        st.assume(E.forall(ZERO, n, lambda k: Implies(self.f.len(st, self.v.get(st, k)) < 3, self.f.weight(st, self.v.get(st, k)) == 0)))
        return [Ptr(self.o)]

    def inv(self, c):
        E, s, f = self.E, c.st, self.f
        yield 'db untouched', E.forall(ZERO, self.v.len(E.old), lambda k: self.v.get(s, k) == self.v.get(E.old, k))
        for k, r in list(self.E.regions.items()):
            if not r.name.startswith('data.'):
                continue
            w = r.vec
            ok = lambda k: And(w.get(s, k) > 0, self.u(f.weight(E.old, w.get(s, k))) > self.plbd, self.u(f.weight(E.old, w.get(s, k))) != 65535,
                               E.exists(ZERO, self.v.len(E.old), lambda j: self.v.get(E.old, j) == w.get(s, k)))
            yield 'collected clauses qualify ' + r.name, E.forall(ZERO, w.len(s), ok)
            yield 'long ' + r.name, E.forall(ZERO, w.len(s), lambda k: f.len(E.old, w.get(s, k)) >= 3)
            g = E.rd(s, self.g, None, ('f', 0))
            yield 'nothing removed yet ', g == 0
            for l, x, x0 in c.scalars():
                yield 'count %s' % l, And(g <= x - w.len(s) / 2, g >= 0)
        yield 'weights unchanged before', BoolVal(True)

    def post(self, c):
        E, st, o = self.E, c.st, self.E.old
        yield 'database list unchanged', And(self.v.len(st) == self.v.len(o), E.forall(ZERO, self.v.len(o), lambda k: self.v.get(st, k) == self.v.get(o, k)))
        g = E.rd(st, self.g, None, ('f', 0))
        for k, r in list(E.regions.items()):
            if r.name.startswith('data.'):
                n = r.vec.len(st)
                yield 'at most half (rounded up) of the candidates are removed', 2 * g <= n + 1
