import math
from lib import *
from contract import Contract, contract, method
from z3 import BitVecVal, RotateLeft, Concat, Extract, LShR, ZeroExt

K = [int(abs(math.sin(i + 1)) * 2 ** 32) & 0xffffffff for i in range(64)]
R = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]


def rotl(x, r):
    return (x << r) | LShR(x, 32 - r)


def rfc1321(s, X):
    """the compression function as RFC 1321 states it"""
    a, b, c, d = s
    for i in range(64):
        if i < 16:
            f, g = (b & c) | (~b & d), i
        elif i < 32:
            f, g = (b & d) | (c & ~d), (5 * i + 1) % 16
        elif i < 48:
            f, g = b ^ c ^ d, (3 * i + 5) % 16
        else:
            f, g = c ^ (b | ~d), (7 * i) % 16
        a, b, c, d = d, b + rotl(a + f + X[g] + BitVecVal(K[i], 32), R[i // 16][i % 4]), b, c
    return [x + y for x, y in zip(s, (a, b, c, d))]


class Md(Contract):
    prop = 'C18'
    tu = 'md5'
    bv = True
    unroll = {'*': 70}

    def setup(self, st):
        E = self.E
        o = E.offs
        self.o = E.region('md5', lazy=True, fixed={o['OFF_M_' + n] + k: I32 for n, k in (('A', 0), ('B', 0), ('C', 0), ('D', 0), ('message_length', 0), ('message_length', 4), ('stored_size', 0))})
        for k in self.o.fixed:
            E.rd(st, self.o, None, ('f', k))
        return [Ptr(self.o)] + self.more(st)

    def more(self, st):
        return []

    def f(self, st, n, k=0):
        return self.E.rd(st, self.o, None, ('f', self.E.offs['OFF_M_' + n] + k))

    def state(self, st):
        return [self.f(st, n) for n in 'ABCD']

    def count(self, st):
        return Concat(self.f(st, 'message_length', 4), self.f(st, 'message_length', 0))


@contract
class Init(Md):
    name = 'md5.initialise'
    root = 'w_md5_init'
    says = 'a new digest has the chaining values of RFC 1321, length 0, nothing stored and is not finished'

    def post(self, c):
        st = c.st
        yield 'chaining values', And([x == v for x, v in zip(self.state(st), (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476))])
        yield 'empty', And(self.count(st) == 0, self.f(st, 'stored_size') == 0)
        v = st.mem.get(('md5', ('f', self.E.offs['OFF_M_finished'])))
        yield 'not finished', v == 0 if z3.is_bv(v) else Not(v)


@contract
class Block(Md):
    name = 'md5.process_block'
    root = 'w_md5_block'
    says = 'processing a block of 64 bytes applies exactly the compression function of RFC 1321 to the chaining values, counts 64 bytes (64-bit count) and leaves the block and the stored bytes alone'

    def more(self, st):
        E = self.E
        self.x = E.region('block', fixed={4 * i: I32 for i in range(16)})
        for k in self.x.fixed:
            E.rd(st, self.x, None, ('f', k))
        return [Ptr(self.x)]

    def X(self, st):
        return [self.E.rd(st, self.x, None, ('f', 4 * i)) for i in range(16)]

    def post(self, c):
        st, o = c.st, self.E.old
        for n, a, b in zip('ABCD', self.state(st), rfc1321(self.state(o), self.X(o))):
            yield 'chaining value %s as RFC 1321 computes it' % n, a == b
        yield '64 bytes counted', self.count(st) == self.count(o) + 64
        yield 'stored bytes untouched', self.f(st, 'stored_size') == self.f(o, 'stored_size')
        yield 'block unchanged', And([a == b for a, b in zip(self.X(st), self.X(o))])


class Stream(Contract):
    """the bytes fed so far are G[0 .. total); blocks passed on are consecutive 64-byte pieces of G, the rest is stored"""
    prop = 'C18'
    tu = 'md5'
    noinline = [r'md5::md5_t::process_block']
    bound = 140

    def setup(self, st):
        E = self.E
        E.array_allocas = True
        o = E.offs
        so = o['OFF_M_stored']
        fx = {o['OFF_M_' + n] + k: I32 for n, k in (('A', 0), ('B', 0), ('C', 0), ('D', 0), ('message_length', 0), ('message_length', 4), ('stored_size', 0))}
        fx[o['OFF_M_finished']] = (1, 'i8')
        assert all(k < so or k >= so + 128 for k in fx)
        self.o = E.region('md5', fixed=fx, start=so, stride=1, fields={0: I8})
        self.o.length = lambda s, id: IntVal(128)
        self.g = E.region('ghost', fixed={0: I64})
        self.G = z3.Function('G', z3.IntSort(), z3.IntSort())
        self.ss = fld(E, st, self.o, 'OFF_M_stored_size')
        self.nb0 = E.rd(st, self.g, None, ('f', 0))
        st.assume(And(self.ss >= 0, self.ss < 64, self.nb0 >= 0, self.nb0 < (1 << 50)))
        st.assume(fld(E, st, self.o, 'OFF_M_finished') == 0)
        st.assume(self.held(st))
        return [Ptr(self.o)] + self.more(st)

    def nb(self, st):
        return self.E.rd(st, self.g, None, ('f', 0))

    def stored(self, st, i):
        return self.E.rd(st, self.o, None, ('a', 0), i)

    def held(self, st):
        s = fld(self.E, st, self.o, 'OFF_M_stored_size')
        return self.E.forall(ZERO, s, lambda i: self.stored(st, i) == self.G(64 * self.nb(st) + i))

    @method
    def h_block(self, E, st, args, I):
        p = args[1]
        i0 = E.pidx(p)
        if i0 is None:
            raise Unsupported('block pointer')
        E.oblige(st, 'each block processed is the next 64 bytes of the message', And(i0 >= 0, i0 + 64 <= p.r.length(st, None), self.block_ok(st, lambda k: E.rd(st, p.r, None, ('a', 0), i0 + k))))
        E.wr(st, self.g, None, ('f', 0), None, self.nb(st) + 1)
        return None

    def block_ok(self, st, byte):
        return self.E.forall(ZERO, IntVal(64), lambda k: byte(k) == self.G(64 * self.nb(st) + k))


Stream.handlers = [(r'md5::md5_t::process_block', Stream.h_block, 'by contract md5.process_block')]


@contract
class Process(Stream):
    name = 'md5.process'
    root = 'w_md5_process'
    says = '''process(input, n) passes on exactly the blocks that become complete, each the next 64 bytes of the concatenation of everything fed, and stores the remaining bytes (fewer than 64),
    for every length (empty included) below 2^31 - 64 and every number of bytes already stored'''

    def more(self, st):
        E = self.E
        self.n = Int('n')
        st.assume(And(self.n >= 0, self.n < (1 << 31) - 64))
        self.x = E.region('input', start=0, stride=1, fields={0: I8})
        self.x.length = lambda s, id: self.n
        st.assume(E.forall(ZERO, self.n, lambda i: E.rd(st, self.x, None, ('a', 0), i) == self.G(64 * self.nb0 + self.ss + i)))
        if E.bounded is not None:
            st.assume(self.n <= E.bounded)
        return [Ptr(self.x), self.n]

    def inv(self, c):
        st, E = c.st, self.E
        s = fld(E, st, self.o, 'OFF_M_stored_size')
        if s is not None:
            u = lambda x: x
            for l, x, _ in c.scalars():
                yield 'bytes consumed ' + l, 64 * self.nb(st) + s == 64 * self.nb0 + self.ss + x
                yield 'range ' + l, And(x >= 0, x <= self.n)
            yield 'stored bytes', self.held(st)
            yield 'stored size', And(s >= 0, s < 64)

    def post(self, c):
        st, E = c.st, self.E
        s = fld(E, st, self.o, 'OFF_M_stored_size')
        yield 'fewer than 64 bytes stay stored', And(s >= 0, s < 64)
        yield 'all bytes are passed on or stored', 64 * self.nb(st) + s == 64 * self.nb0 + self.ss + self.n
        yield 'the stored bytes are the last ones of the message', self.held(st)
        yield 'not finished', fld(E, st, self.o, 'OFF_M_finished') == 0


@contract
class Finish(Stream):
    name = 'md5.finish'
    root = 'w_md5_finish'
    says = '''finish passes on the stored bytes followed by the padding of RFC 1321 (one bit, zeros, the length in bits as 64-bit number), exactly to the end of a block, then forms the result, and marks the
    digest as finished, for every number of stored bytes and every message length'''
    noinline = Stream.noinline + [r'md5::md5_t::get_result', r'md5::sig_to_string']

    def more(self, st):
        E = self.E
        E.fork_selects = True
        ml = [fld(E, st, self.o, E.offs['OFF_M_message_length'] + k) for k in (0, 4)]
        lo, hi = [If(x < 0, x + (1 << 32), x) for x in ml]
        # contract of md5.process_block: the 64-bit count is the number of bytes passed on
        st.assume(lo + (1 << 32) * hi == 64 * self.nb0)
        self.T = 64 * self.nb0 + self.ss
        self.nf = (self.T + 8) / 64 + 1
        self.done = E.region('ghost2', fixed={0: I64})
        st.mem[('ghost2', ('f', 0))] = ZERO
        r = E.region('result', start=0, stride=1, fields={0: I8})
        r.length = lambda s, id: IntVal(16)
        o = E.offs['OFF_M_signature']
        return [NULL]

    def G2(self, i):
        """the padded message of RFC 1321: the bytes fed, 0x80, zeros, the length in bits (64 bit, low byte first)"""
        T, nf = self.T, self.nf
        j = i - (64 * nf - 8)
        L = ZERO
        for k in range(7, -1, -1):
            L = If(j == k, ((8 * T) / (1 << (8 * k))) % 256, L)
        return If(i < T, self.G(i), If(i == T, IntVal(128), If(j < 0, ZERO, L)))

    def block_ok(self, st, byte):
        E, T = self.E, self.T
        lo, hi = [If(x < 0, x + (1 << 32), x) for x in (fld(E, st, self.o, E.offs['OFF_M_message_length'] + k) for k in (0, 4))]
        E.oblige(st, 'the length is counted in 64 bits', And(lo == T % (1 << 32), hi == T / (1 << 32)))
        d = 1 if E.entails(st, self.nb(st) == self.nb0 + 1) else 0
        two = E.entails(st, self.ss >= 56)
        E.oblige(st, 'number of blocks', And(self.nb(st) == self.nb0 + d, self.nf == self.nb0 + (2 if two else 1)))
        B = lambda k: byte(IntVal(k))
        for k in range(64):
            g = 64 * d + k
            j = g - (120 if two else 56)
            if j < 0:
                E.oblige(st, 'each byte processed is the next one of the padded message', B(k) == If(g < self.ss, self.G(64 * self.nb0 + g), If(self.ss == g, IntVal(128), ZERO)))
            elif j % 4 == 0:
                W = [8 * (lo % (1 << 29)), (8 * hi) % (1 << 32) + lo / (1 << 29)][j // 4]
                E.oblige(st, 'length words', W == (8 * T / (1 << (8 * j))) % (1 << 32))
                b = [z3.simplify(B(k + i)) for i in range(4)]
                X = b[1]
                while z3.is_app(X) and X.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV):
                    X = X.arg(0)
                x = Int('word')
                y = [z3.substitute(t, (X, x)) for t in b]
                self.split = [z3.simplify(t).sexpr() for t in y]
                r, _ = E.check([x >= 0, x < 1 << 32], And([t == (x / (1 << (8 * i))) % 256 for i, t in enumerate(y)]))
                if r == 'proved':  # the bytes are those of one word X
                    E.oblige(st, 'the length words are the last eight bytes of the padded message', X == W)
                else:
                    E.oblige(st, 'the length words are the last eight bytes of the padded message', And([t == (W / (1 << (8 * i))) % 256 for i, t in enumerate(b)]))
        return BoolVal(True)

    @method
    def h_result(self, E, st, args, I):
        E.oblige(st, 'the result is formed after the whole padded message', self.nb(st) == self.nf)
        return None

    def post(self, c):
        st, E = c.st, self.E
        yield 'exactly the padded message was processed', self.nb(st) == self.nf
        yield 'finished', fld(E, st, self.o, 'OFF_M_finished') == 1


Finish.handlers = Stream.handlers + [(r'md5::md5_t::get_result', Finish.h_result, 'md5::get_result writes the four chaining values only'),
                                     (r'md5::sig_to_string', lambda E, st, args, I: None, 'md5::sig_to_string writes the text only')]


@contract
class Result(Md):
    name = 'md5.get_result'
    root = 'w_md5_result'
    says = 'the signature consists of the chaining values A, B, C, D, each with its low-order byte first'
    bv = False

    def more(self, st):
        self.r = self.E.region('result', start=0, stride=1, fields={0: I8})
        self.r.length = lambda s, id: IntVal(16)
        return [Ptr(self.r)]

    def post(self, c):
        for n in range(4):
            x = self.state(self.E.old)[n]
            x = If(x < 0, x + (1 << 32), x)
            for k in range(4):
                yield 'byte %d' % (4 * n + k), self.E.rd(c.st, self.r, None, ('a', 0), IntVal(4 * n + k)) == (x / (1 << (8 * k))) % 256
        for n, a, b in zip('ABCD', self.state(c.st), self.state(self.E.old)):
            yield 'chaining value kept', a == b


@contract
class Text(Contract):
    prop = 'C18'
    tu = 'md5'
    name = 'md5.sig_to_string'
    root = 'w_md5_text'
    says = 'the text of a signature is its 16 bytes in lower-case hexadecimal, high digit first, and a final zero'
    unroll = {'*': 20}

    def setup(self, st):
        E = self.E
        self.s = E.region('signature', start=0, stride=1, fields={0: I8})
        self.s.length = lambda s, id: IntVal(16)
        self.t = E.region('text', start=0, stride=1, fields={0: I8})
        self.t.length = lambda s, id: IntVal(33)
        return [Ptr(self.s), Ptr(self.t)]

    def post(self, c):
        E, st = self.E, c.st
        for k in range(16):
            b = E.rd(E.old, self.s, None, ('a', 0), IntVal(k))
            for o, v in ((0, b / 16), (1, b % 16)):
                yield 'digit %d' % (2 * k + o), E.rd(st, self.t, None, ('a', 0), IntVal(2 * k + o)) == If(v < 10, v + 48, v + 87)
        yield 'end', E.rd(st, self.t, None, ('a', 0), IntVal(32)) == 0
