from lib import *
from contract import Contract, contract


class SV(Contract):
    """every word of the vectors, bit-precise (64-bit vectors); the loops run over the fixed number of words of a vector and are unrolled completely"""
    prop = 'C16'
    tu = 'simvec'
    bv = True
    unroll = {'*': 260}
    args = 'oab'

    def setup(self, st):
        E = self.E
        self.W = E.offs['SZ_SV'] // 8
        self.r = {}
        for a in self.args:
            r = self.r[a] = E.region(a, fixed={8 * i: I64 for i in range(self.W)})
            for i in range(self.W):
                E.rd(st, r, None, ('f', 8 * i))
        return [Ptr(self.r[a]) for a in self.args]

    def w(self, st, a, i):
        return self.E.rd(st, self.r[a], None, ('f', 8 * i))

    def frame(self, c, but):
        for a in self.args:
            if a != but:
                yield 'argument unchanged', And([self.w(c.st, a, i) == self.w(self.E.old, a, i) for i in range(self.W)])


def reg(nm, words, args_, but, fn):
    @contract
    class K(SV):
        name = 'simvector.' + nm
        root = 'w_sv_' + nm
        says = words
        args = args_

        def post(self, c):
            o, g = self.E.old, lambda a, i: self.w(self.E.old, a, i)
            if but is None:
                yield 'answer', c.ret == And([g('a', i) == g('b', i) for i in range(self.W)])
            else:
                yield 'every bit', And([self.w(c.st, but, i) == fn(lambda a: g(a, i)) for i in range(self.W)])
            yield from self.frame(c, but)


reg('not', 'the negation of a vector negates every bit', 'oa', 'o', lambda g: ~g('a'))
reg('bang', 'the negation of a vector negates every bit', 'oa', 'o', lambda g: ~g('a'))
reg('or', 'the disjunction is taken bit by bit', 'oab', 'o', lambda g: g('a') | g('b'))
reg('xor', 'the difference is taken bit by bit', 'oab', 'o', lambda g: g('a') ^ g('b'))
reg('oreq', 'the disjunction is taken bit by bit', 'ab', 'a', lambda g: g('a') | g('b'))
reg('andeq', 'the conjunction is taken bit by bit', 'ab', 'a', lambda g: g('a') & g('b'))
reg('eq', 'vectors are equal exactly if all bits are', 'ab', None, None)
