"""Shapes of the C++ data the contracts talk about, and assumed contracts for the standard library."""
import re
import z3
from z3 import Int, IntVal, And, Or, Not, Implies, If, BoolVal
import sym
from sym import Region, PK, VK, Ptr, NULL, Unsupported, UNDEF, num, exdiv, lin, fresh_name, Packed
import ir

I8, I16, I32, I64 = (1, 'i8'), (2, 'i16'), (4, 'i32'), (8, 'i64')
LIT = {0: I32}
ZERO = IntVal(0)


def neg(x):
    return If(x % 2 == 0, x + 1, x - 1)


def var(x):
    return x / 2


class Vec:
    """a std::vector whose header lies at (hdr, off) of a non-family region"""

    def __init__(self, E, hdr, off, data):
        self.E, self.hdr, self.off, self.r = E, hdr, off, data

    def len(self, st):
        p = st.cell(self.hdr, ('f', self.off + 8))
        if p.r is None:
            return ZERO
        return exdiv(p.off, self.r.stride)

    def get(self, st, k, f=0):
        return self.E.rd(st, self.r, None, ('a', f), k)

    def arr(self, st, f=0):
        return st.cell(self.r, ('a', f))


    def has(self, st, x, lo=ZERO, hi=None):
        """x occurs at an index in [lo, hi) (the last one singled out, for the solver's sake)"""
        n = self.len(st) if hi is None else hi
        return Or(And(n > lo, self.get(st, z3.simplify(n - 1)) == x), self.E.exists(lo, n, lambda k: self.get(st, k) == x))


class View:
    """the vector whose header lies at (hdr, off) now (after a swap or a move it may use other storage)"""

    def __init__(self, E, st, hdr, off):
        self.E, self.st = E, st
        off = E.offs[off] if isinstance(off, str) else off
        self.b, self.e = st.cell(hdr, ('f', off)), st.cell(hdr, ('f', off + 8))

    def len(self):
        if self.e.r is None:
            return ZERO
        return exdiv(z3.simplify(self.e.off - self.b.off), self.e.r.stride)

    def get(self, k, f=0):
        return self.E.rd(self.st, self.e.r, None, ('a', f), k)


class Clause:
    def __init__(self, E, r):
        self.E, self.r = E, r

    def len(self, st):
        return self.E.rd(st, self.r, None, ('f', 0))

    def get(self, st, k, f=0):
        return self.E.rd(st, self.r, None, ('a', 0), k)

    def has(self, st, x):
        return self.E.exists(ZERO, self.len(st), lambda j: self.get(st, j) == x)


class Fam:
    """a family of clauses: cells indexed by an object id (> 0)"""

    def __init__(self, E, r):
        self.E, self.r = E, r

    def len(self, st, id):
        return self.E.rd(st, self.r, id, ('f', 0))

    def weight(self, st, id):
        return self.E.rd(st, self.r, id, ('f', 2))

    def get(self, st, id, k):
        return self.E.rd(st, self.r, id, ('a', 0), k)

    def has(self, st, id, x):
        return self.E.exists(ZERO, self.len(st, id), lambda j: self.get(st, id, j) == x)


class B:
    def __init__(self, E, st, offs=None):
        self.E, self.st, self.offs = E, st, offs or E.offs

    def obj(self, name, **kw):
        """object with scalar fields OFFSETNAME=kind; anything else is typed on first access"""
        E = self.E
        fixed = {}
        for o, k in kw.items():
            fixed[self.offs[o]] = ({'bool': 1, 'f64': 8}.get(k) or int(k[1:]) // 8, k)
        return E.region(name, fixed=fixed, lazy=True)

    def vec(self, hdr, off, name, stride=4, fields=None, n=None, maxlen=1 << 31):
        E, st = self.E, self.st
        fields = fields or {0: I32}
        r = E.region(name, start=0, stride=stride, fields=fields)
        off = self.offs[off] if isinstance(off, str) else off
        if n is None:
            n = Int('len!' + name)
            st.assume(And(n >= 0, n < maxlen))
        cap = Int('cap!' + name)
        st.assume(And(cap >= n, cap < (1 << 40)))
        for i, e in ((0, ZERO), (8, stride * n), (16, stride * cap)):
            hdr.fixed[off + i] = (8, 'ptr')
            st.mem[(hdr.name, ('f', off + i))] = Ptr(r, None, z3.simplify(e) if z3.is_expr(e) else e)
        v = Vec(E, hdr, off, r)
        r.length = lambda s, id: v.len(s)
        r.vec = v
        if E.bounded is not None:
            st.assume(n <= E.bounded)
        return v

    def nested(self, hdr, off, name, stride, fields, n):
        """a vector of n vectors of plain elements"""
        E, st = self.E, self.st
        d = E.region(name + '[]', start=0, stride=stride, fields=fields, fam=True)
        idf = lambda id, i: i + 1
        v = self.vec(hdr, off, name, stride=24, fields={o: (8, VK(d, w, stride, idf)) for o, w in ((0, 'begin'), (8, 'end'), (16, 'cap'))}, n=n)
        d.length = lambda s, id: E.rd(s, v.r, None, ('a', 8), z3.simplify(id - 1))
        v.data = d
        v.count = lambda s, i: E.rd(s, v.r, None, ('a', 8), i)
        v.item = lambda s, i, k, f: E.rd(s, d, i + 1, ('a', f), k)
        return v

    def clause(self, name, minlen=0):
        E, st = self.E, self.st
        r = E.region(name, fixed={0: I16, 2: I16}, start=4, stride=4, fields={0: I32})
        r.length = lambda s, id: E.rd(s, r, None, ('f', 0))
        n = E.rd(st, r, None, ('f', 0))
        st.assume(n >= minlen)
        if E.bounded is not None:
            st.assume(n <= E.bounded)
        c = Clause(E, r)
        st.assume(E.forall(ZERO, n, lambda k: And(c.get(st, k) >= 0, c.get(st, k) < (1 << 31))))
        return c

    def clauses(self, name):
        """all clauses in memory (one family)"""
        E, st = self.E, self.st
        r = E.region(name, fixed={0: I16, 2: I16}, start=4, stride=4, fields={0: I32}, fam=True)
        r.length = lambda s, id: E.rd(s, r, id, ('f', 0))
        return Fam(E, r)

    def field(self, r, off):
        off = self.offs[off] if isinstance(off, str) else off
        return self.E.rd(self.st, r, None, ('f', off))


def fld(E, st, r, off):
    off = E.offs[off] if isinstance(off, str) else off
    return E.rd(st, r, None, ('f', off))


# ---------------------------------------------------------------- assumed contracts of the standard library
def elem_layout(dn, E=None):
    """element layout from the demangled vector type"""
    m = re.search(r'std::vector<(.*)', dn)
    if not m:
        raise Unsupported('vector type of ' + dn)
    s = m.group(1)
    d, out = 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if d < 0 or (d == 0 and ch == ','):
            break
        out += ch
    t = out.strip()
    tab = {'Candy::Lit': (4, {0: I32}), 'int': (4, {0: I32}), 'unsigned int': (4, {0: I32}), 'unsigned long': (8, {0: I64}), 'long': (8, {0: I64}),
           'Candy::lbool': (1, {0: I8}), 'char': (1, {0: I8}), 'unsigned char': (1, {0: I8}), 'double': (8, {0: (8, 'f64')})}
    if E is not None and t in getattr(E, 'elems', {}):
        return E.elems[t]
    if t in tab:
        return tab[t]
    raise Unsupported('vector element type ' + t)


def hdr_parts(E, st, p):
    """the three pointers of the vector header p points to"""
    out = []
    for o in (0, 8, 16):
        out.append(E.load(st, Ptr(p.r, p.id, z3.simplify(p.off + o)), ir.PTR))
    return out


def hdr_set(E, st, p, which, v):
    E.store(st, Ptr(p.r, p.id, z3.simplify(p.off + 8 * which)), v, ir.PTR)


def materialise(E, st, p, dn):
    """a vector that still has null pointers gets its (empty) storage"""
    b, e, c = hdr_parts(E, st, p)
    if b.r is None or e.r is None or c.r is None:
        stride, fields = elem_layout(dn, E)
        r = E.region('data.%s.%s' % (p.r.name, num(p.off)), start=0, stride=stride, fields=fields)
        v = Vec(E, p.r, num(p.off), r)
        r.length = lambda s, id: v.len(s)
        r.vec = v
        for i in range(3):
            hdr_set(E, st, p, i, Ptr(r, None, 0))
        b, e, c = hdr_parts(E, st, p)
    return b, e, c


def fty(kind_size, kind):
    if kind in ('f64', 'f32'):
        return ir.F64
    return ir.IntTy(8 * kind_size)


def h_push_back(E, st, args, I):
    dn = E.demangle.get(I.x[0][1], I.x[0][1])
    p = args[0]
    b, e, c = materialise(E, st, p, dn)
    r = e.r
    n = E.pidx(e)
    st.assume(And(n >= 0, n < getattr(E, 'vec_limit', 1 << 40)))     # memory is finite
    vals = []
    for f, (sz, kind) in sorted(r.fields.items()):
        if isinstance(kind, PK):
            vals.append((f, ir.PTR, E.load(st, Ptr(args[1].r, args[1].id, z3.simplify(args[1].off + f)), ir.PTR)))
        else:
            ty = fty(sz, kind)
            vals.append((f, ty, E.load(st, Ptr(args[1].r, args[1].id, z3.simplify(args[1].off + f)), ty)))
    end = Ptr(r, e.id, z3.simplify(e.off + r.stride))
    hdr_set(E, st, p, 1, end)
    # capacity: at least the size afterwards
    cap = Int(fresh_name('cap'))
    st.assume(And(cap >= n + 1, cap < (1 << 41)))
    hdr_set(E, st, p, 2, Ptr(r, e.id, r.stride * cap))
    for f, ty, v in vals:
        E.store(st, Ptr(r, e.id, z3.simplify(e.off + f)), v, ty)
    if I.res:
        return Ptr(r, e.id, e.off)
    return None


def h_resize(E, st, args, I):
    """resize(n) / resize(n, value): length is n, old elements kept, new ones equal to value (zero / default)"""
    dn = E.demangle.get(I.x[0][1], I.x[0][1])
    p, n = args[0], args[1]
    b, e, c = materialise(E, st, p, dn)
    r = e.r
    n0 = E.pidx(e)
    n = E.unsigned(st, n, 64)
    st.assume(n < (1 << 40))
    val = {}
    if len(args) > 2:
        for f, (sz, kind) in r.fields.items():
            val[f] = E.load(st, Ptr(args[2].r, args[2].id, z3.simplify(args[2].off + f)), fty(sz, kind))
    if r.fam:
        raise Unsupported('resize of nested vector')
    for f, (sz, kind) in r.fields.items():
        a = st.cell(r, ('a', f))
        na = z3.Const(fresh_name('%s.resized' % r.name), a.sort())
        v = val.get(f)
        if v is None:
            v = BoolVal(False) if kind == 'bool' else z3.RealVal(0) if kind == 'f64' else IntVal(0)
        k = Int(fresh_name('rz'))
        if E.bounded is not None:
            N = E.bounded + 4
            st.assume(And([na[i] == If(IntVal(i) < n0, a[i], v) for i in range(0, N)]))
        else:
            st.assume(z3.ForAll([k], na[k] == If(k < n0, a[k], v), patterns=[na[k]]))
        st.setcell(r, ('a', f), na)
    hdr_set(E, st, p, 1, Ptr(r, e.id, z3.simplify(r.stride * n)))
    cap = Int(fresh_name('cap'))
    st.assume(And(cap >= n, cap < (1 << 41)))
    hdr_set(E, st, p, 2, Ptr(r, e.id, r.stride * cap))
    return None


def h_nop(E, st, args, I):
    return None


def h_retfirst(E, st, args, I):
    return args[0]


STL = [
    (r'^(void|auto|decltype|.*&)?\s*std::vector<.*>::(push_back|emplace_back)', h_push_back, 'std::vector::push_back/emplace_back append one element and leave the others unchanged'),
    (r'std::vector<.*>::resize\(', h_resize, 'std::vector::resize keeps the common prefix and fills with the given (or zero) value'),
    (r'^(operator delete|_ZdlPv)', h_nop, 'operator delete has no visible effect'),
    (r'^std::vector<.*>::~vector', h_nop, 'destructors of vectors of plain data have no visible effect'),
    (r'operator<< ?(<.*)?\(std::(basic_)?ostream|^std::(basic_)?ostream(<.*>)?::(operator<<|flush|put|write)|std::endl<|^std::flush<', h_retfirst, 'stream output has no effect on solver data'),
]
STL_NOINLINE = [r'operator<< ?(<.*)?\(std::(basic_)?ostream', r'std::vector<.*>::(push_back|emplace_back)', r'std::vector<[^()]*>::resize\(', r'^std::vector<.*>::~vector\(']
