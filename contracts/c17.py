"""Contracts of the circuits of the minimiser (C17)."""
from lib import *
import ir
from contract import Contract, contract, method
from sym import Undecided


class Adder(Contract):
    """M is an arbitrary assignment; ok is whether it satisfies the clauses that were added"""
    prop = 'C17'
    tu = 'minim'
    noinline = [r'Candy::CNFProblem::readClause\(']
    ins = ('a', 'b')

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.o, self.pb = b.obj('min'), b.obj('problem')
        self.l = {k: Int(k) for k in self.ins + ('sum', 'carry')}
        for x in self.l.values():
            st.assume(And(x >= 0, x < (1 << 31) - 2))
        self.M = z3.Function('M', z3.IntSort(), z3.BoolSort())
        self.log = E.region('added', fixed={0: I32, 4: I32})
        E.wr(st, self.log, None, ('f', 0), None, IntVal(1))
        return [Ptr(self.o), Ptr(self.pb)] + [self.l[k] for k in self.ins + ('sum', 'carry')]

    def t(self, l):
        return self.M(l / 2) == (l % 2 == 0)

    @method
    def h_read(self, E, st, args, I):
        if args[0].r is not self.pb or len(args) != 3:
            raise Undecided('which problem')
        p, n = args[1], num(z3.simplify(args[2])) if z3.is_expr(args[2]) else args[2]
        if n is None:
            raise Undecided('length of the clause')
        ls = [E.load(st, Ptr(p.r, p.id, z3.simplify(p.off + 4 * i)), ir.IntTy(32)) for i in range(n)]
        ok = E.rd(st, self.log, None, ('f', 0))
        E.wr(st, self.log, None, ('f', 0), None, If(And(ok == 1, Or(*[self.t(x) for x in ls])), IntVal(1), ZERO))

    handlers = None

    def post(self, c):
        ok = self.E.rd(c.st, self.log, None, ('f', 0)) == 1
        xs = [self.t(self.l[k]) for k in self.ins]
        n = z3.Sum(*[If(x, IntVal(1), ZERO) for x in xs])
        s, k = self.t(self.l['sum']), self.t(self.l['carry'])
        v = If(s, IntVal(1), ZERO) + If(k, IntVal(2), ZERO)
        yield 'an odd number of true inputs makes the sum true', Implies(And(ok, n % 2 == 1), s)
        yield 'two true inputs make the carry true', Implies(And(ok, n >= 2), k)
        yield 'the exact sum and carry satisfy the clauses', Implies(v == n, ok)


Adder.handlers = [(r'Candy::CNFProblem::readClause\(', Adder.h_read, 'CNFProblem::readClause adds the clause of the given literals (C10)')]


@contract
class Half(Adder):
    name = 'minimizer.genHalfAdder'
    root = 'w_min_half'
    says = 'the clauses of genHalfAdder make the sum true if exactly one input is true and the carry true if both are, and are satisfied by the exact sum and carry: under them sum + 2 carry is an upper bound of the number of true inputs'


@contract
class Full(Adder):
    name = 'minimizer.genFullAdder'
    root = 'w_min_full'
    says = 'the clauses of genFullAdder make the sum true if an odd number of inputs is true and the carry true if two are, and are satisfied by the exact sum and carry'
    ins = ('a', 'b', 'c')
