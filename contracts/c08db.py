"""Contracts of the clause database (C08)."""
from lib import *
import ir
from lib import h_push_back as lib_push
from contract import Contract, contract, method
from sym import Undecided


class DB(Contract):
    prop = 'C08'
    tu = 'database'

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.f = f = b.clauses('clauses')
        self.o = b.obj('DB', OFF_DB_variables='i32', OFF_DB_empty='i8')
        self.CO, self.OO = E.offs['OFF_BW_clause'], E.offs['OFF_BW_other']
        self.bin = b.nested(self.o, 'OFF_DB_bin', 'bin', E.offs['SZ_BW'], {self.CO: (8, PK(f.r)), self.OO: I32}, n=None)
        return [Ptr(self.o)] + self.args(st)

    def cl(self, st, i, k):
        return self.bin.item(st, i, k, self.CO)

    def ot(self, st, i, k):
        return self.bin.item(st, i, k, self.OO)

    def cnt(self, st, i):
        return self.bin.count(st, i)


def ranks(E, st, name, m, keep):
    """ghost: rank(k) is the number of kept entries before k"""
    r = z3.Function(name, z3.IntSort(), z3.IntSort())
    st.assume(r(ZERO) == 0)
    st.assume(E.forall(ZERO, m, lambda k: r(k + 1) == r(k) + If(keep(k), IntVal(1), ZERO)))
    st.assume(E.forall(ZERO, m + 1, lambda k: And(r(k) >= 0, r(k) <= k)))
    st.assume(E.forall(ZERO, m + 1, lambda k: E.forall(k, m + 1, lambda j: And(r(k) <= r(j), Implies(And(j > k, keep(k)), r(k) < r(j))))))
    return r


RANK = ('the rank of a position among the kept entries (a recursively defined count) is monotone: proved by induction on paper, used as a fact',)


def remove_if(which):
    @contract
    class K(Contract):
        prop = 'C08'
        tu = 'database'
        assumes = RANK
        name = 'clausedb.removeClause.filter%d' % (which + 1)
        root = r"~std::remove_if<.*removeClause.*'lambda%s'" % ('', '0')[which]
        says = 'the filter keeps exactly the list entries of other clauses, in order, and returns the new end'
        filter = which

        def setup(self, st):
            E = self.E
            b = B(E, st)
            f = b.clauses('clauses')
            self.CO, self.OO = E.offs['OFF_BW_clause'], E.offs['OFF_BW_other']
            self.r = r = E.region('list', start=0, stride=E.offs['SZ_BW'], fields={self.CO: (8, PK(f.r)), self.OO: I32})
            self.n, self.c = Int('n'), Int('c')
            st.assume(And(self.n >= 0, self.n < (1 << 31), self.c > 0))
            if E.bounded is not None:
                st.assume(self.n <= E.bounded)
            r.length = lambda s, id: self.n
            self.rank = ranks(E, st, 'rank', self.n, lambda k: self.keep(st, k))
            return [Ptr(r, None, 0), E.ptr_at(r, None, self.n) if hasattr(E, 'ptr_at') else Ptr(r, None, self.n * r.stride), Ptr(f.r, self.c, 0)]

        def cl(self, st, k):
            return self.E.rd(st, self.r, None, ('a', self.CO), k)

        def ot(self, st, k):
            return self.E.rd(st, self.r, None, ('a', self.OO), k)

        def keep(self, st, k):
            return self.cl(st, k) != self.c

        def moved(self, st, x):
            o, r = self.E.old, self.rank
            return self.E.forall(ZERO, x, lambda k: Implies(self.keep(o, k), And(self.cl(st, r(k)) == self.cl(o, k), self.ot(st, r(k)) == self.ot(o, k))))

        def inv(self, c):
            st, E, o, r = c.st, self.E, self.E.old, self.rank
            ps = [(l, E.pidx(p)) for l, p in c.vals() if isinstance(p, Ptr) and p.r is self.r]
            for l, x in ps:
                yield 'position ' + l, And(x >= 0, x <= self.n)
                yield 'nothing removed so far ' + l, r(x) == x
                yield 'no entry of c so far ' + l, E.forall(ZERO, x, lambda k: self.keep(o, k))
                yield 'rest untouched ' + l, E.forall(x, self.n, lambda k: And(self.cl(st, k) == self.cl(o, k), self.ot(st, k) == self.ot(o, k)))
                yield 'kept in order up to ' + l, self.moved(st, x)
                for l2, y in ps:
                    if l2 != l:
                        yield 'rank %s %s' % (l, l2), y == r(x)

        def post(self, c):
            st, E = c.st, self.E
            yield 'new end', And(BoolVal(c.ret.r is self.r), E.pidx(c.ret) == self.rank(self.n))
            yield 'kept entries in order', self.moved(st, self.n)


remove_if(0)
remove_if(1)


@contract
class Remove(DB):
    name = 'clausedb.removeClause'
    root = 'w_db_remove'
    says = '''removeClause(c) marks c deleted and changes no other clause and no literal; the certificate gets one deletion of exactly the literals of c; if c has two literals, the two lists it is
    watched in become the old lists without the entries of c, in order, and otherwise the lists stay as they are'''
    noinline = [r'void Candy::Certificate::removed<', r'std::remove_if<']
    assumes = RANK

    def args(self, st):
        E, f = self.E, self.f
        self.c = c = Int('c')
        n = f.len(st, c)
        self.a, self.b = a, b = f.get(st, c, ZERO), f.get(st, c, IntVal(1))
        N = self.bin.len(st)
        st.assume(And(c > 0, N >= 0))
        st.assume(Implies(n == 2, And(a >= 0, b >= 0, a / 2 != b / 2, a / 2 * 2 + 1 < N, b / 2 * 2 + 1 < N)))
        self.na, self.nb = a + 1 - 2 * (a % 2), b + 1 - 2 * (b % 2)
        st.assume(E.forall(ZERO, N, lambda i: self.cnt(st, i) >= 0))
        self.log = E.region('removed', fixed={0: I32})
        st.assume(E.rd(st, self.log, None, ('f', 0)) == 0)
        self.rank = {}
        for nm, i in (('a', self.na), ('b', self.nb)):
            keep = lambda k, i=i, s=None: self.cl(s or E.old or st, i, k) != c
            r = ranks(E, st, 'rank.' + nm, self.cnt(st, i), keep)
            self.rank[nm] = (i, r, keep)
        return [Ptr(f.r, c, 0)]

    @method
    def h_removed(self, E, st, args, I):
        b, e = args[1], args[2]
        E.oblige(st, 'the logged literals are those of the clause', And(BoolVal(b.r is self.f.r and e.r is self.f.r), b.id == self.c, e.id == self.c, E.pidx(b) == 0, E.pidx(e) == self.f.len(st, self.c)))
        E.wr(st, self.log, None, ('f', 0), None, E.rd(st, self.log, None, ('f', 0)) + 1)

    @method
    def h_filter(self, E, st, args, I):
        d, (b, e, c) = self.bin.data, args[:3]
        ok = b.r is d and e.r is d and c.r is self.f.r
        E.oblige(st, 'the filtered range is a whole list, the filtered clause is c', And(BoolVal(ok), b.id == e.id, E.pidx(b) == 0, E.pidx(e) == self.cnt(st, b.id - 1), c.id == self.c) if ok else BoolVal(False))
        i = z3.simplify(b.id - 1)
        m = self.cnt(st, i)
        for nm, (i0, r, keep) in self.rank.items():
            if E.entails(st, i == i0):
                break
        else:
            raise Undecided('a list that is not expected is filtered')
        o = E.old
        E.oblige(st, 'a list is filtered once', E.forall(ZERO, m, lambda k: And(self.cl(st, i, k) == self.cl(o, i, k), self.ot(st, i, k) == self.ot(o, i, k))))
        E.oblige(st, 'a list is filtered at its full length', m == self.cnt(o, i))
        for f, g in ((self.CO, self.cl), (self.OO, self.ot)):
            cur = st.cell(d, ('a', f))
            a = z3.Const(fresh_name('filtered'), z3.Select(cur, b.id).sort())
            st.setcell(d, ('a', f), z3.Store(cur, b.id, a))
        st.assume(E.forall(ZERO, m, lambda k: Implies(keep(k), And(self.cl(st, i, r(k)) == self.cl(o, i, k), self.ot(st, i, r(k)) == self.ot(o, i, k)))))
        return Ptr(d, b.id, z3.simplify(r(m) * d.stride))

    def post(self, c):
        st, E, o, f = c.st, self.E, self.E.old, self.f
        w = f.weight(st, self.c)
        yield 'marked deleted', If(w < 0, w + 65536, w) == 65535
        fn = z3.Int('other')
        yield 'other clauses keep their weight', Implies(fn != self.c, f.weight(st, fn) == f.weight(o, fn))
        k = z3.Int('pos')
        yield 'literals unchanged', And(f.len(st, fn) == f.len(o, fn), f.get(st, fn, k) == f.get(o, fn, k))
        yield 'one deletion logged', E.rd(st, self.log, None, ('f', 0)) == 1
        two = f.len(o, self.c) == 2
        for nm, (i, r, keep) in self.rank.items():
            m = self.cnt(o, i)
            yield 'list %s is the old one without c: length' % nm, Implies(two, self.cnt(st, i) == r(m))
            yield 'list %s is the old one without c: entries' % nm, Implies(two, E.forall(ZERO, m, lambda k: Implies(keep(k), And(self.cl(st, i, r(k)) == self.cl(o, i, k), self.ot(st, i, r(k)) == self.ot(o, i, k)))))
        j = z3.Int('list')
        same = And(self.cnt(st, j) == self.cnt(o, j), self.cl(st, j, k) == self.cl(o, j, k), self.ot(st, j, k) == self.ot(o, j, k))
        yield 'other lists unchanged', Implies(And(j >= 0, j < self.bin.len(o), Or(Not(two), And(j != self.na, j != self.nb)), k >= 0, k < self.cnt(o, j)), same)
        yield 'other lists keep their length', Implies(And(j >= 0, j < self.bin.len(o), Or(Not(two), And(j != self.na, j != self.nb))), self.cnt(st, j) == self.cnt(o, j))


Remove.handlers = [(r'Candy::Certificate::removed<', Remove.h_removed, 'by contract certificate.removed'),
                   (r"std::remove_if<.*removeClause.*'lambda'", Remove.h_filter, 'by contract clausedb.removeClause.filter1'),
                   (r"std::remove_if<.*removeClause.*'lambda0'", Remove.h_filter, 'by contract clausedb.removeClause.filter2')]


def s16(x):
    return If(x > 32767, x - 65536, x)


def neg(p):
    return p + 1 - 2 * (p % 2)


class Lists(DB):
    """appending to the list of a literal by the contract of std::vector, with a ghost record at(list, clause) of where the last entry of a clause went"""

    def ghost(self, st):
        self.at = self.E.region('at', start=0, stride=1, fields={0: I32}, fam=True)
        self.at.length = lambda s, id: IntVal(1 << 40)

    def where(self, st, i, c):
        return self.E.rd(st, self.at, i + 1, ('a', 0), c)

    @method
    def h_emplace(self, E, st, args, I):
        h, pc, pl = args[:3]
        v, d = self.bin, self.bin.data
        if h.r is not v.r:
            return lib_push(E, st, args, I)
        i = E.pidx(h)
        E.oblige(st, 'the list exists', And(i >= 0, i < v.len(st)))
        c = E.load(st, pc, ir.PTR)
        l = E.load(st, pl, ir.IntTy(32))
        n = self.cnt(st, i)
        st.assume(n < (1 << 40))
        cv = c.id if c.r is self.f.r else None
        if cv is None:
            raise Undecided('what is appended is not a clause')
        E.wr(st, d, i + 1, ('a', self.CO), n, cv)
        E.wr(st, d, i + 1, ('a', self.OO), n, l)
        E.wr(st, v.r, None, ('a', 8), i, n + 1)
        E.wr(st, self.at, i + 1, ('a', 0), cv, n)


EMPLACE = (r'std::vector<Candy::BinaryWatcher.*>::emplace_back', Lists.h_emplace, 'std::vector::push_back/emplace_back append one element and leave the others unchanged')


@contract
class Create(Lists):
    name = 'clausedb.createClause'
    root = 'w_db_create'
    says = '''createClause(range, quality, lemma) builds a new clause of exactly the literals of the range in order, of weight 0 if it has fewer than three literals and of the given weight otherwise, and
    appends it to the list of clauses; it is logged as added exactly if it is not part of the input; an empty clause is noted; a clause of two literals is appended to the lists of the negations of both, each
    time with the other literal; nothing else changes'''
    noinline = [r'void Candy::Certificate::added<', r'Candy::ClauseAllocator::allocate', r'Candy::Clause::Clause<']

    def args(self, st):
        E, f = self.E, self.f
        b = B(E, st)
        self.ghost(st)
        self.cls = b.vec(self.o, 'OFF_DB_clauses', 'DB.clauses', stride=8, fields={0: (8, PK(f.r))}, maxlen=1 << 30)
        self.vo = b.obj('V')
        self.v = b.vec(self.vo, 0, 'V.data', maxlen=65536)
        self.new, self.q, self.lemma = Int('new'), Int('quality'), z3.Bool('lemma')
        n, N = self.v.len(st), self.bin.len(st)
        st.assume(And(self.new > 0, self.q >= 0, self.q < 65536, N >= 0))
        st.assume(E.forall(ZERO, n, lambda k: And(self.v.get(st, k) >= 0, self.v.get(st, k) / 2 * 2 + 1 < N)))
        st.assume(E.forall(ZERO, N, lambda i: self.cnt(st, i) >= 0))
        self.log = E.region('added', fixed={0: I32})
        st.assume(E.rd(st, self.log, None, ('f', 0)) == 0)
        return [Ptr(self.vo), self.q, self.lemma]

    @method
    def h_alloc(self, E, st, args, I):
        n = self.v.len(E.old)
        E.oblige(st, 'memory for as many literals as the range has', args[1] == n)
        return Ptr(self.f.r, self.new, 0)

    @method
    def h_make(self, E, st, args, I):
        p, b, e, w = args[:4]
        f, v, n = self.f, self.v, self.v.len(st)
        ok = p.r is f.r and b.r is v.r and e.r is v.r
        E.oblige(st, 'the clause is made of the whole range, in the new memory', And(p.id == self.new, E.pidx(b) == 0, E.pidx(e) == n) if ok else BoolVal(False))
        E.wr(st, f.r, self.new, ('f', 0), None, s16(n))
        E.wr(st, f.r, self.new, ('f', 2), None, s16(w))
        cur = st.cell(f.r, ('a', 0))
        a = z3.Const(fresh_name('made'), z3.Select(cur, self.new).sort())
        st.setcell(f.r, ('a', 0), z3.Store(cur, self.new, a))
        st.assume(E.forall(ZERO, n, lambda k: f.get(st, self.new, k) == v.get(st, k)))

    @method
    def h_added(self, E, st, args, I):
        b, e = args[1], args[2]
        f, n = self.f, self.v.len(E.old)
        ok = b.r is f.r and e.r is f.r
        E.oblige(st, 'the logged literals are those of the new clause', And(b.id == self.new, e.id == self.new, E.pidx(b) == 0, E.pidx(e) == n) if ok else BoolVal(False))
        E.wr(st, self.log, None, ('f', 0), None, E.rd(st, self.log, None, ('f', 0)) + 1)

    def inv(self, c):
        return []

    def post(self, c):
        st, E, o, f, v, new = c.st, self.E, self.E.old, self.f, self.v, self.new
        n = v.len(o)
        yield 'result is the new clause', c.ret.id == new if c.ret.r is f.r else BoolVal(False)
        u = lambda x: If(x < 0, x + 65536, x)
        yield 'length', u(f.len(st, new)) == n
        yield 'weight', u(f.weight(st, new)) == If(n < 3, ZERO, self.q)
        yield 'literals', E.forall(ZERO, n, lambda k: f.get(st, new, k) == v.get(o, k))
        m = self.cls.len(o)
        yield 'appended to the clauses', And(self.cls.len(st) == m + 1, self.cls.get(st, m) == new, E.forall(ZERO, m, lambda k: self.cls.get(st, k) == self.cls.get(o, k)))
        yield 'logged exactly if it is not of the input', E.rd(st, self.log, None, ('f', 0)) == If(self.lemma, ZERO, IntVal(1))
        em = lambda s: fld(E, s, self.o, 'OFF_DB_empty')
        yield 'an empty clause is noted', em(st) == If(n == 0, IntVal(1), em(o))
        x = z3.Int('other')
        k = z3.Int('pos')
        yield 'other clauses unchanged', Implies(x != new, And(f.len(st, x) == f.len(o, x), f.weight(st, x) == f.weight(o, x), f.get(st, x, k) == f.get(o, x, k)))
        i = z3.Int('list')
        p, q = v.get(o, ZERO), v.get(o, IntVal(1))
        here = And(i >= 0, i < self.bin.len(o))
        grow = If(n == 2, If(i == neg(p), IntVal(1), ZERO) + If(i == neg(q), IntVal(1), ZERO), ZERO)
        yield 'lists keep what they had', Implies(And(here, k >= 0, k < self.cnt(o, i)), And(self.cl(st, i, k) == self.cl(o, i, k), self.ot(st, i, k) == self.ot(o, i, k)))
        yield 'lists grow by the watches of the new clause', Implies(here, self.cnt(st, i) == self.cnt(o, i) + grow)
        for nm, a, b in (('first', p, q), ('second', q, p)):
            w = neg(a)
            yield 'watched by the %s literal' % nm, Implies(And(n == 2, p != q), And(self.cl(st, w, self.cnt(o, w)) == new, self.ot(st, w, self.cnt(o, w)) == b))


Create.handlers = [(r'Candy::Certificate::added<', Create.h_added, 'by contract certificate.added'), (r'Candy::ClauseAllocator::allocate', Create.h_alloc, 'ClauseAllocator::allocate returns memory of no existing clause'),
                   (r'Candy::Clause::Clause<', Create.h_make, 'by contract clause.construct'), EMPLACE]


@contract
class Reinit(Lists):
    name = 'clausedb.reinitBinaryWatchers'
    root = 'w_db_reinit'
    says = '''after reinitBinaryWatchers every entry of a list belongs to a clause of two literals of the database, is in the list of the negation of one of its literals and names the other one, and every
    clause of two literals is in the lists of the negations of both; no clause changes'''
    noinline = [r'std::vector<std::vector<Candy::BinaryWatcher.*>::(clear|resize)\(']

    def args(self, st):
        E, f = self.E, self.f
        b = B(E, st)
        self.ghost(st)
        self.cls = b.vec(self.o, 'OFF_DB_clauses', 'DB.clauses', stride=8, fields={0: (8, PK(f.r))}, maxlen=1 << 30)
        V = fld(E, st, self.o, 'OFF_DB_variables')
        self.V = V
        st.assume(And(V >= 0, V < (1 << 29)))
        m = self.cls.len(st)
        st.assume(E.forall(ZERO, m, lambda j: self.cls.get(st, j) > 0))
        st.assume(E.forall(ZERO, m, lambda j: Implies(self.two(st, self.cls.get(st, j)), And(*[And(f.get(st, self.cls.get(st, j), IntVal(z)) >= 0, f.get(st, self.cls.get(st, j), IntVal(z)) < 2 * V) for z in (0, 1)]))))
        self.member = z3.Function('member', z3.IntSort(), z3.BoolSort())
        st.assume(E.forall(ZERO, m, lambda j: self.member(self.cls.get(st, j))))
        return []

    def two(self, st, c):
        return self.f.len(st, c) == 2

    @method
    def h_clear(self, E, st, args, I):
        E.oblige(st, 'the lists are cleared', BoolVal(args[0].r is self.o))
        E.wr(st, self.o, None, ('f', E.offs['OFF_DB_bin'] + 8), None, ZERO) if False else self.setlen(st, ZERO)

    def setlen(self, st, n):
        E = self.E
        E.store(st, Ptr(self.o, None, E.offs['OFF_DB_bin'] + 8), Ptr(self.bin.r, None, z3.simplify(24 * n)), ir.PTR)

    @method
    def h_resize(self, E, st, args, I):
        n0, n = self.bin.len(st), args[1]
        E.oblige(st, 'the lists are made from scratch', And(n0 == 0, n >= 2 * self.V))
        a = st.cell(self.bin.r, ('a', 8))
        st.setcell(self.bin.r, ('a', 8), z3.Const(fresh_name('empty.lists'), a.sort()))
        self.setlen(st, n)
        st.assume(E.forall(ZERO, n, lambda i: self.cnt(st, i) == 0))

    def entries(self, st):
        E, f = self.E, self.f

        def ok(i, k):
            c, x = self.cl(st, i, k), self.ot(st, i, k)
            l = lambda z: f.get(st, c, IntVal(z))
            return And(self.member(c), self.two(st, c), Or(And(i == neg(l(0)), x == l(1)), And(i == neg(l(1)), x == l(0))))
        return E.forall(ZERO, self.bin.len(st), lambda i: E.forall(ZERO, self.cnt(st, i), lambda k: ok(i, k)))

    def listed(self, st, x):
        E, f = self.E, self.f

        def there(c, z):
            i = neg(f.get(st, c, IntVal(z)))
            k = self.where(st, i, c)
            return And(k >= 0, k < self.cnt(st, i), self.cl(st, i, k) == c, self.ot(st, i, k) == f.get(st, c, IntVal(1 - z)))
        distinct = lambda c: f.get(st, c, ZERO) != f.get(st, c, IntVal(1))
        return E.forall(ZERO, x, lambda j: Implies(And(self.two(st, self.cls.get(st, j)), distinct(self.cls.get(st, j))), And(there(self.cls.get(st, j), 0), there(self.cls.get(st, j), 1))))

    def inv(self, c):
        st, E = c.st, self.E
        yield 'as many lists as literals', self.bin.len(st) >= 2 * self.V
        yield 'lengths', E.forall(ZERO, self.bin.len(st), lambda i: self.cnt(st, i) >= 0)
        yield 'entries belong to clauses of the database', self.entries(st)
        for l, p in c.vals():
            if isinstance(p, Ptr) and p.r is self.cls.r:
                yield 'clauses listed up to ' + l, self.listed(st, E.pidx(p))
                yield 'position ' + l, And(E.pidx(p) >= 0, E.pidx(p) <= self.cls.len(st))

    def post(self, c):
        st, E, o, f = c.st, self.E, self.E.old, self.f
        yield 'entries belong to clauses of the database', self.entries(st)
        yield 'every clause of two literals is listed twice', self.listed(st, self.cls.len(st))
        x, k = z3.Int('c'), z3.Int('pos')
        yield 'clauses unchanged', And(f.len(st, x) == f.len(o, x), f.weight(st, x) == f.weight(o, x), f.get(st, x, k) == f.get(o, x, k), self.cls.len(st) == self.cls.len(o), self.cls.get(st, k) == self.cls.get(o, k))


Reinit.handlers = [(r'std::vector<std::vector<Candy::BinaryWatcher.*>::clear\(', Reinit.h_clear, 'std::vector::clear leaves no element'),
                   (r'std::vector<std::vector<Candy::BinaryWatcher.*>::resize\(', Reinit.h_resize, 'std::vector::resize from empty gives empty elements'), EMPLACE]


@contract
class Strengthen(DB):
    name = 'clausedb.strengthenClause'
    root = 'w_db_strengthen'
    says = '''strengthenClause(c, l) creates, by createClause, the clause of exactly the literals of c other than l, in order, with a quality not above that of c nor above its length, logged (not as input),
    before it removes c, and returns the new clause'''
    noinline = [r'Candy::Clause\* Candy::ClauseDatabase::createClause<', r'Candy::ClauseDatabase::removeClause']
    assumes = RANK

    def args(self, st):
        E, f = self.E, self.f
        self.c, self.p, self.new = c, p, new = Int('c'), Int('p'), Int('new')
        n = f.len(st, c)
        st.assume(And(c > 0, new > 0, new != c, n >= 2, p >= 0))
        self.rank = ranks(E, st, 'rank', n, lambda k: self.keep(st, k))
        self.log = E.region('calls', fixed={0: I32, 4: I32})
        st.assume(And(E.rd(st, self.log, None, ('f', 0)) == 0, E.rd(st, self.log, None, ('f', 4)) == 0))
        self.seen = []
        return [Ptr(f.r, c, 0), p]

    def keep(self, st, k):
        return self.f.get(st, self.c, k) != self.p

    def count(self, st, w):
        return self.E.rd(st, self.log, None, ('f', w))

    @method
    def h_create(self, E, st, args, I):
        o, f, r = E.old, self.f, self.rank
        b, e, q = args[1:4]
        lemma = args[4] if len(args) > 4 else BoolVal(False)
        n = f.len(o, self.c)
        if b.r is not e.r or b.r is None or b.r.start is None:
            raise Undecided('range')
        at = lambda k: E.rd(st, b.r, b.id, ('a', 0), k)
        m = r(n)
        E.oblige(st, 'as many literals as c has besides l', And(E.pidx(b) == 0, E.pidx(e) == m))
        E.oblige(st, 'the literals of c besides l, in order', E.forall(ZERO, n, lambda k: Implies(self.keep(o, k), at(r(k)) == f.get(o, self.c, k))))
        w = f.weight(o, self.c)
        w = If(w < 0, w + 65536, w)
        E.oblige(st, 'quality', And(q <= w, q <= m, q >= 0, Or(q == w, q == m)))
        E.oblige(st, 'the new clause is logged', Not(lemma) if z3.is_bool(lemma) else lemma == 0)
        E.oblige(st, 'the new clause is created before the old one is removed', self.count(st, 4) == 0)
        E.wr(st, self.log, None, ('f', 0), None, self.count(st, 0) + 1)
        return Ptr(f.r, self.new, 0)

    @method
    def h_remove(self, E, st, args, I):
        E.oblige(st, 'the old clause is removed', And(args[1].id == self.c, BoolVal(args[1].r is self.f.r)))
        E.wr(st, self.log, None, ('f', 4), None, self.count(st, 4) + 1)
        E.wr(st, self.f.r, self.c, ('f', 2), None, IntVal(-1))

    def inv(self, c):
        st, E, o, f, r = c.st, self.E, self.E.old, self.f, self.rank
        ps = [(l, E.pidx(p)) for l, p in c.vals() if isinstance(p, Ptr) and p.r is f.r]
        local = [x.vec for x in E.regions.values() if x.name.startswith('data.') and getattr(x, 'vec', None)]
        for l, x in ps:
            yield 'position ' + l, And(x >= 0, x <= f.len(o, self.c))
            for v in local:
                yield 'collected %s %s' % (v.r.name, l), v.len(st) == r(x)
                yield 'in order %s %s' % (v.r.name, l), E.forall(ZERO, x, lambda k: Implies(self.keep(o, k), v.get(st, r(k)) == f.get(o, self.c, k)))

    def post(self, c):
        st, o, f = c.st, self.E.old, self.f
        yield 'result is the new clause', c.ret.id == self.new if c.ret.r is f.r else BoolVal(False)
        yield 'one clause created, one removed', And(self.count(st, 0) == 1, self.count(st, 4) == 1)


Strengthen.handlers = [(r'Candy::ClauseDatabase::createClause<', Strengthen.h_create, 'by contract clausedb.createClause'), (r'Candy::ClauseDatabase::removeClause', Strengthen.h_remove, 'by contract clausedb.removeClause')]
