"""The proof text (C09)."""
from lib import *
import ir
from contract import Contract, contract, method
from sym import Undecided


def text_of(E, p):
    """the characters of a constant string"""
    if not isinstance(p, Ptr) or p.r is None or p.r.const is None or num(p.off) is None:
        raise Undecided('a text that is not constant is written')
    out, i = '', num(p.off)
    while True:
        c = p.r.const.get(i)
        if c is None or num(c) is None:
            raise Undecided('a text that is not constant is written')
        if num(c) == 0:
            return out
        out += chr(num(c) % 256)
        i += 1


class Out(Contract):
    """what is written, as a reader of lines of numbers sees it: finished lines, deletion mark and numbers of the current line, whether the last number can still grow"""
    FIELDS = dict(lines=0, cnt=4, open=8, dels=12)

    def out(self, st):
        E = self.E
        self.w = E.region('text', fixed={v: I32 for v in self.FIELDS.values()})
        self.nums = E.region('numbers', start=0, stride=4, fields={0: I32})
        self.nums.length = lambda s, id: IntVal(1 << 40)
        for v in self.FIELDS.values():
            st.assume(E.rd(st, self.w, None, ('f', v)) == 0)

    def f(self, st, n):
        return self.E.rd(st, self.w, None, ('f', self.FIELDS[n]))

    def put(self, st, n, v):
        self.E.wr(st, self.w, None, ('f', self.FIELDS[n]), None, v)

    def num(self, st, k):
        return self.E.rd(st, self.nums, None, ('a', 0), k)

    def number(self, st, v):
        E = self.E
        E.oblige(st, 'numbers do not run into each other', self.f(st, 'open') == 0)
        E.oblige(st, 'one line is written', self.f(st, 'lines') == 0)
        E.wr(st, self.nums, None, ('a', 0), self.f(st, 'cnt'), v)
        self.put(st, 'cnt', z3.simplify(self.f(st, 'cnt') + 1))
        self.put(st, 'open', IntVal(1))

    def text(self, st, s):
        E = self.E
        for ch in s:
            if ch in ' \t':
                self.put(st, 'open', ZERO)
            elif ch == '\n':
                self.put(st, 'open', ZERO)
                self.put(st, 'lines', z3.simplify(self.f(st, 'lines') + 1))
            elif ch == '0':
                self.number(st, ZERO)
            elif ch == 'd':
                E.oblige(st, 'the deletion mark comes first', And(self.f(st, 'cnt') == 0, self.f(st, 'open') == 0, self.f(st, 'dels') == 0, self.f(st, 'lines') == 0))
                self.put(st, 'dels', IntVal(1))
                self.put(st, 'open', IntVal(1))
            else:
                raise Undecided('character %r is written' % ch)

    @method
    def h_str(self, E, st, args, I):
        self.text(st, text_of(E, args[1]))
        return args[0]

    @method
    def h_chr(self, E, st, args, I):
        c = num(args[1])
        if c is None:
            raise Undecided('a character that is not constant is written')
        self.text(st, chr(c % 256))
        return args[0]

    @method
    def h_int(self, E, st, args, I):
        self.number(st, args[1])
        return args[0]

    @method
    def h_fun(self, E, st, args, I):
        if 'endl' in str(getattr(args[1], 'name', args[1])):
            self.text(st, '\n')
        elif 'flush' not in str(getattr(args[1], 'name', args[1])):
            raise Undecided('unknown stream operation')
        return args[0]

    @method
    def h_nothing(self, E, st, args, I):
        return args[0]


WRITES = [(r'operator<< ?<.*>\(std::(basic_)?ostream.*char const\*\)', Out.h_str, 'stream output writes its argument'),
          (r'operator<< ?<.*>\(std::(basic_)?ostream.*, (signed |unsigned )?char\)', Out.h_chr, 'stream output writes its argument'),
          (r'^std::(basic_)?ostream(<.*>)?::operator<<\((int|long|unsigned int|unsigned long)\)', Out.h_int, 'stream output writes its argument'),
          (r'^std::(basic_)?ostream(<.*>)?::operator<<\(.*\(\*\)\(', Out.h_fun, 'stream output writes its argument'),
          (r'^std::(basic_)?ostream(<.*>)?::put\(', Out.h_chr, 'stream output writes its argument'),
          (r'^std::(basic_)?ostream(<.*>)?::flush\(', Out.h_nothing, 'flushing writes nothing')]


class Cert(Out):
    prop = 'C09'
    tu = 'cert'
    dels = 0
    noinline = [r'operator<< ?<.*>\(std::(basic_)?ostream', r'^std::(basic_)?ostream(<.*>)?::(operator<<|put|flush)\(']
    handlers = WRITES

    def setup(self, st):
        E = self.E
        b = B(E, st)
        self.o = b.obj('certificate', OFF_CE_active='i8')
        self.c = C = b.clause('C')
        self.out(st)
        st.assume(E.forall(ZERO, C.len(st), lambda k: C.get(st, k) < (1 << 31) - 2))
        a = fld(E, st, self.o, 'OFF_CE_active')
        st.assume(And(a >= 0, a <= 1))
        return [Ptr(self.o), Ptr(C.r)]

    def ext(self, p):
        return If(p % 2 == 0, p / 2 + 1, -(p / 2 + 1))

    def wrote(self, st, x):
        return self.E.forall(ZERO, x, lambda k: self.num(st, k) == self.ext(self.c.get(self.E.old, k)))

    def inv(self, c):
        st, E, C = c.st, self.E, self.c
        yield 'one line', self.f(st, 'lines') == 0
        yield 'deletion mark', self.f(st, 'dels') == self.dels
        yield 'separated', self.f(st, 'open') == 0
        for l, p in c.vals():
            if isinstance(p, Ptr) and p.r is C.r:
                x = E.pidx(p)
                yield 'position ' + l, And(x >= 0, x <= C.len(st))
                yield 'as many numbers as literals up to ' + l, self.f(st, 'cnt') == x
                yield 'written up to ' + l, self.wrote(st, x)

    def post(self, c):
        st, E, C, o = c.st, self.E, self.c, self.E.old
        on = fld(E, o, self.o, 'OFF_CE_active') != 0
        n = C.len(o)
        z = lambda k: self.f(st, k)
        yield 'nothing is written without a proof file', Implies(Not(on), And(z('lines') == 0, z('cnt') == 0, z('open') == 0, z('dels') == 0))
        yield 'one finished line', Implies(on, And(z('lines') == 1, z('open') == 0))
        yield 'deletion mark', Implies(on, z('dels') == self.dels)
        yield 'the literals and a zero', Implies(on, And(z('cnt') == n + 1, self.num(st, n) == 0))
        yield 'the numbers are those of the literals, in order', Implies(on, self.wrote(st, n))


@contract
class Added(Cert):
    name = 'certificate.added'
    root = 'w_cert_added'
    says = 'with a proof file, added(c) writes one line: the DIMACS numbers of the literals of c in order, separated, and a zero; without one it writes nothing'


@contract
class Removed(Cert):
    name = 'certificate.removed'
    root = 'w_cert_removed'
    says = 'with a proof file, removed(c) writes one line: d, the DIMACS numbers of the literals of c in order, separated, and a zero; without one it writes nothing'
    dels = 1


@contract
class Proof(Cert):
    name = 'certificate.proof'
    root = 'w_cert_proof'
    says = 'with a proof file, proof() writes the empty clause as a line; without one it writes nothing'

    def setup(self, st):
        a = super().setup(st)
        st.assume(self.c.len(st) == 0)
        return a[:1]
