import z3
from z3 import BitVec, BitVecVal, And, Or, Not, If, Implies, ULE, Extract, Bool
from contract import Contract, contract


class Bits(Contract):
    prop = 'C12'
    tu = 'lits'
    bv = True
    params = ()       # (name, bits) ; 1 = bool

    def setup(self, st):
        self.a = [Bool(n) if w == 1 else BitVec(n, w) for n, w in self.params]
        for f in self.pre(*self.a):
            st.assume(f)
        return list(self.a)

    def pre(self, *a):
        return []

    def post(self, c):
        r = c.ret
        for n, f in self.says_post(r, *self.a):
            yield n, f


def make(nm, root_, words, params_, prefn, postfn):
    @contract
    class K(Bits):
        name = nm
        root = root_
        says = words
        params = params_

        def pre(self, *a):
            return prefn(*a)

        def says_post(self, r, *a):
            return postfn(r, *a)
    return K


V = [('v', 32)]
MAXV = (1 << 30) - 1
b1 = lambda s: If(s, BitVecVal(1, 32), BitVecVal(0, 32))
inr = lambda v: And(v >= 0, v <= MAXV)
X = [('x', 32)]

make('lit.make', 'w_lit_make', 'Lit(v, s) for every variable 0..2^30-1 encodes v and s, injectively', V + [('s', 1)], lambda v, s: [inr(v)],
     lambda r, v, s: [('variable recoverable', r >> 1 == v), ('sign recoverable', (r & 1) == b1(s)), ('not a sentinel', r >= 0)])
make('lit.make1', 'w_lit_make1', 'Lit(v) is the positive literal', V, lambda v: [inr(v)], lambda r, v: [('variable', r >> 1 == v), ('positive', (r & 1) == 0)])
make('lit.var', 'w_lit_var', 'var() is the variable of every literal', X, lambda x: [], lambda r, x: [('variable', r == x >> 1)])
make('lit.sign', 'w_lit_sign', 'sign() is the sign of every literal', X, lambda x: [], lambda r, x: [('sign', r == ((x & 1) == 1))])
make('lit.neg', 'w_lit_neg', 'negation keeps the variable and flips the sign (so it is an involution)', X, lambda x: [],
     lambda r, x: [('same variable', r >> 1 == x >> 1), ('other sign', (r & 1) != (x & 1))])
make('lit.xor', 'w_lit_xor', 'p ^ b keeps the variable and flips the sign exactly if b', X + [('b', 1)], lambda x, b: [],
     lambda r, x, b: [('same variable', r >> 1 == x >> 1), ('sign', ((r & 1) != (x & 1)) == b)])
make('lit.cmp', 'w_lit_cmp', 'equality is identity; the order is total and keeps a variable and its negation adjacent', X + [('y', 32)], lambda x, y: [],
     lambda r, x, y: [('equality', ((r & 1) == 1) == (x == y)), ('inequality', ((r & 2) == 2) == (x != y)),
                      ('order', ((r & 4) == 4) == Or(x >> 1 < y >> 1, And(x >> 1 == y >> 1, (x & 1) == 0, (y & 1) == 1)))])
make('lit.int', 'w_lit_int', 'the index of a literal is its encoding', X, lambda x: [], lambda r, x: [('index', r == x)])
make('lit.undef', 'w_lit_undef', 'lit_Undef is not a literal of any variable', [], lambda: [], lambda r: [('negative', r < 0), ('value', r == -2)])
make('lit.error', 'w_lit_error', 'lit_Error is not a literal of any variable and differs from lit_Undef', [], lambda: [], lambda r: [('negative', r < 0), ('value', r == -1)])

# truth values: 1 true, 2 false, 4 undefined; encodings 0 true, 1 false, 2 and 3 undefined
T, F, U = [BitVecVal(k, 32) for k in (1, 2, 4)]
A = [('a', 8)]
dom = lambda *a: [ULE(x, 3) for x in a]
tv = lambda a: If(a == 0, T, If(a == 1, F, U))
make('lbool.enc', 'w_lb_enc', 'each encoding equals exactly one of true, false, undefined', A, dom, lambda r, a: [('one of three', r == tv(a))])
make('lbool.bool', 'w_lb_bool', 'lbool(b) is true or false as b', [('b', 1)], lambda b: [], lambda r, b: [('value', r == If(b, T, F))])
make('lbool.eq', 'w_lb_eq', 'equality of truth values, undefined equal to undefined for every encoding', A + [('b', 8)], dom,
     lambda r, a, b: [('equal', ((r & 1) == 1) == (tv(a) == tv(b))), ('unequal', ((r & 2) == 2) == (tv(a) != tv(b)))])
make('lbool.xor', 'w_lb_xor', 'exclusive or with a sign', A + [('b', 1)], lambda a, b: dom(a), lambda r, a, b: [('table', r == If(tv(a) == U, U, If((tv(a) == T) != b, T, F)))])
make('lbool.and', 'w_lb_and', 'three-valued conjunction for every encoding', A + [('b', 8)], dom,
     lambda r, a, b: [('table', r == If(Or(tv(a) == F, tv(b) == F), F, If(And(tv(a) == T, tv(b) == T), T, U)))])
make('lbool.or', 'w_lb_or', 'three-valued disjunction for every encoding', A + [('b', 8)], dom,
     lambda r, a, b: [('table', r == If(Or(tv(a) == T, tv(b) == T), T, If(And(tv(a) == F, tv(b) == F), F, U)))])
