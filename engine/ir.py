"""A parser for the subset of LLVM IR text that clang-18/opt-18 print for this code base."""
import re

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
 | (?P<id>[a-zA-Z_.][-a-zA-Z0-9_.]*)
 | (?P<p>\.\.\.|[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ValueError('tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        t = m.group(k)
        out.append((k, t))
        i = m.end()
        while i < n and s[i] in ' \t':
            i += 1
    return out


class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return {'int': 'i%s' % self.a}.get(self.k, self.k + (':' + str(self.a) if self.a is not None else ''))


PTR, VOID, F64, F32, LABEL, META = Ty('ptr'), Ty('void'), Ty('double'), Ty('float'), Ty('label'), Ty('metadata')
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


def unq(name):
    n = name[1:]
    return n[1:-1] if n.startswith('"') else n


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}

    # ---- sizes
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            n = (t.a + 7) // 8
            for p in (1, 2, 4, 8):
                if n <= p:
                    return p
            return 16
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'fp80':
            return 16
        if t.k == 'arr':
            return self.align(t.b)
        if t.k == 'struct':
            if t.b:
                return 1
            return max([self.align(x) for x in t.a] or [1])
        raise ValueError('align ' + repr(t))

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            n = (t.a + 7) // 8
            al = self.align(t)
            return (n + al - 1) // al * al
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'fp80':
            return 16
        if t.k == 'arr':
            return t.a * self.size(t.b)
        if t.k == 'struct':
            o = 0
            for x in t.a:
                if not t.b:
                    al = self.align(x)
                    o = (o + al - 1) // al * al
                o += self.size(x)
            if not t.b and t.a:
                al = self.align(t)
                o = (o + al - 1) // al * al
            return o
        raise ValueError('size ' + repr(t))

    def field(self, t, i):
        """(offset, type) of field i of aggregate t"""
        t = self.resolve(t)
        if t.k == 'arr':
            return i * self.size(t.b), t.b
        o = 0
        for j, x in enumerate(t.a):
            if not t.b:
                al = self.align(x)
                o = (o + al - 1) // al * al
            if j == i:
                return o, x
            o += self.size(x)
        raise ValueError('field')

    def leaves(self, t, base=0):
        t = self.resolve(t)
        if t.k == 'struct':
            for i in range(len(t.a)):
                o, x = self.field(t, i)
                yield from self.leaves(x, base + o)
        elif t.k == 'arr':
            if t.a > 4096:
                return
            s = self.size(t.b)
            for i in range(t.a):
                yield from self.leaves(t.b, base + i * s)
        else:
            yield base, t


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'text')

    def __init__(self, op, res=None, ty=None, args=None, x=None):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, args or [], x

    def __repr__(self):
        return self.text


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks, self.order = {}, []


# operands:  ('l',name,ty) ('c',int,ty) ('g',name) ('null',) ('undef',ty) ('agg',[..],ty) ('zero',ty) ('fp',txt,ty) ('gep',...)
class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, d=0):
        return self.t[self.i + d][1] if self.i + d < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise ValueError('expected %s got %s in %s' % (x, self.peek(), ' '.join(t for _, t in self.t)))

    def type(self):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'id':
            m = re.match(r'i(\d+)$', x)
            if m:
                t = IntTy(int(m.group(1)))
            elif x == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    self.next(); self.need('('); self.next(); self.need(')')
            elif x == 'void':
                t = VOID
            elif x == 'double':
                t = F64
            elif x == 'float':
                t = F32
            elif x == 'x86_fp80':
                t = Ty('fp80')
            elif x == 'label':
                t = LABEL
            elif x == 'metadata':
                t = META
            elif x == 'opaque':
                t = Ty('opaque')
            elif x == 'token':
                t = Ty('token')
            else:
                raise ValueError('type ' + x + ' in ' + ' '.join(t for _, t in self.t))
        elif k == 'loc':
            t = Ty('named', unq(x))
        elif x == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']')
            t = Ty('arr', n, e)
        elif x == '{':
            t = self.structbody(False)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = self.structbody(True); self.need('>')
            else:
                n = int(self.next()); self.need('x'); e = self.type(); self.need('>')
                t = Ty('vec', n, e)
        else:
            raise ValueError('type ' + x)
        # function type
        if self.peek() == '(' and t.k != 'x' and self._isfn():
            d = 0
            while True:
                y = self.next()
                if y == '(':
                    d += 1
                if y == ')':
                    d -= 1
                    if d == 0:
                        break
            t = Ty('fn', t)
        while self.eat('*'):
            t = PTR
        return t

    def _isfn(self):
        return True

    def structbody(self, packed):
        fs = []
        if not self.eat('}'):
            while True:
                fs.append(self.type())
                if self.eat('}'):
                    break
                self.need(',')
        return Ty('struct', fs, packed)

    ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
             'inreg', 'returned', 'immarg', 'nofree', 'nest', 'noext', 'writable', 'dead_on_unwind', 'allocptr', 'allocalign',
             'swiftself', 'dso_local', 'inbounds', 'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg'}

    def attrs(self):
        got = set()
        while True:
            x = self.peek()
            if x in self.ATTRS:
                got.add(x); self.i += 1
            elif x == 'align':
                self.i += 1
                if self.eat('('):
                    self.next(); self.need(')')
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'allocsize', 'range', 'initializes', 'captures', 'preallocated', 'memory', 'inalloca', 'byref'):
                self.i += 1
                got.add(x)
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        if y == ')':
                            d -= 1
                            if d == 0:
                                break
            else:
                return got

    def value(self, ty):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('l', unq(x), ty)
        if k == 'glob':
            return ('g', unq(x), ty)
        if k == 'num':
            if ty.k == 'int':
                return ('c', int(x), ty)
            return ('fp', x, ty)
        if x in ('true', 'false'):
            return ('c', 1 if x == 'true' else 0, ty)
        if x == 'null':
            return ('null', None, ty)
        if x in ('undef', 'poison'):
            return ('undef', None, ty)
        if x == 'zeroinitializer':
            return ('zero', None, ty)
        if x == 'none':
            return ('undef', None, ty)
        if k == 'str':
            raw = x[2:-1]
            bs, i = [], 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        bs.append(92); i += 2
                    else:
                        bs.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    bs.append(ord(raw[i])); i += 1
            return ('agg', [('c', b, IntTy(8)) for b in bs], ty)
        if x in ('[', '{', '<'):
            if x == '<' and self.peek() == '{':
                self.next(); x = '<{'
            close = {'[': ']', '{': '}', '<': '>', '<{': '}'}[x]
            els = []
            if not self.eat(close):
                while True:
                    t = self.type(); els.append(self.value(t))
                    if self.eat(close):
                        break
                    self.need(',')
            if x == '<{':
                self.need('>')
            return ('agg', els, ty)
        if x == 'getelementptr':
            self.attrs()
            self.need('(')
            self.attrs()
            bt = self.type(); self.need(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.eat(','):
                self.attrs()
                it = self.type(); idx.append(self.value(it))
            self.need(')')
            return ('gep', (bt, base, idx), ty)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc'):
            self.need('('); t = self.type(); v = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('cexpr', (x, v, t2), ty)
        if x in ('sub', 'add', 'mul', 'xor', 'shl'):
            self.attrs(); self.need('('); t = self.type(); v = self.value(t); self.need(','); t2 = self.type(); v2 = self.value(t2); self.need(')')
            return ('cexpr2', (x, v, v2), ty)
        raise ValueError('value %s in %s' % (x, ' '.join(t for _, t in self.t)))

    def tv(self):
        t = self.type()
        self.attrs()
        return self.value(t)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}


def parse_inst(line, mod):
    p = P(tokenize(line), mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = unq(p.next()); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = Inst(op, res)
    if op in BIN:
        fl = p.attrs()
        t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        I.ty, I.args, I.x = t, [a, b], fl
    elif op in CAST:
        fl = p.attrs()
        t = p.type(); a = p.value(t); p.need('to'); t2 = p.type()
        I.ty, I.args, I.x = t2, [a], fl
    elif op == 'fneg':
        p.attrs(); t = p.type(); I.ty = t; I.args = [p.value(t)]
    elif op == 'freeze':
        t = p.type(); I.ty = t; I.args = [p.value(t)]
    elif op in ('icmp', 'fcmp'):
        p.attrs()
        pred = p.next(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        I.ty, I.args, I.x = IntTy(1), [a, b], (pred, t)
    elif op == 'alloca':
        p.eat('inalloca')
        t = p.type(); n = None
        if p.eat(','):
            if p.peek() != 'align':
                n = p.tv()
        I.ty, I.x, I.args = PTR, (t, n), []
    elif op == 'load':
        p.eat('atomic'); p.eat('volatile')
        t = p.type(); p.need(','); a = p.tv()
        I.ty, I.args = t, [a]
    elif op == 'store':
        p.eat('atomic'); p.eat('volatile')
        v = p.tv(); p.need(','); a = p.tv()
        I.args = [v, a]; I.ty = VOID
    elif op == 'getelementptr':
        p.attrs(); t = p.type(); p.need(','); base = p.tv(); idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            p.attrs()
            idx.append(p.tv())
        I.ty, I.args, I.x = PTR, [base] + idx, t
    elif op == 'select':
        p.attrs()
        c = p.tv(); p.need(','); a = p.tv(); p.need(','); b = p.tv()
        I.ty, I.args = a[2], [c, a, b]
    elif op == 'phi':
        p.attrs()
        t = p.type(); inc = []
        while True:
            p.need('['); v = p.value(t); p.need(','); l = unq(p.next()); p.need(']')
            inc.append((v, l))
            if not p.eat(','):
                break
            if p.kind() == 'meta':
                break
        I.ty, I.x = t, inc
    elif op == 'br':
        t = p.type()
        if t.k == 'label':
            I.x = [unq(p.next())]
        else:
            c = p.value(t); p.need(','); p.type(); a = unq(p.next()); p.need(','); p.type(); b = unq(p.next())
            I.args, I.x = [c], [a, b]
    elif op == 'switch':
        t = p.type(); v = p.value(t); p.need(','); p.type(); d = unq(p.next()); p.need('[')
        cases = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.need(','); p.type(); cases.append((cv[1], unq(p.next())))
        I.args, I.x = [v], (d, cases)
    elif op == 'ret':
        t = p.type()
        I.ty = t
        I.args = [] if t.k == 'void' else [p.value(t)]
    elif op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'coldcc', 'ccc', 'cc') or p.peek() in p.ATTRS:
            p.next()
        p.attrs()
        t = p.type()
        if t.k == 'fn':
            t = t.a
        k = p.kind()
        if k == 'glob':
            callee = ('g', unq(p.next()))
        elif k == 'loc':
            callee = ('l', unq(p.next()), PTR)
        else:
            callee = ('?', p.next())
        p.need('('); args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at.k == 'metadata':
                    # skip to matching , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        y = p.next()
                        d += (y in '([{') - (y in ')]}')
                    args.append(('undef', None, at))
                else:
                    fl = p.attrs()
                    args.append(p.value(at))
                if p.eat(')'):
                    break
                p.need(',')
        I.ty, I.args = t, args
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next(); p.type(); n = unq(p.next()); p.need('unwind'); p.type(); u = unq(p.next())
            I.x = (callee, n, u)
        else:
            I.x = (callee, None, None)
    elif op == 'extractvalue':
        v = p.tv(); idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        t = v[2]
        for i in idx:
            t = mod.field(t, i)[1]
        I.ty, I.args, I.x = t, [v], idx
    elif op == 'insertvalue':
        v = p.tv(); p.need(','); w = p.tv(); idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        I.ty, I.args, I.x = v[2], [v, w], idx
    elif op in ('unreachable', 'resume', 'landingpad', 'fence'):
        pass
    elif op in ('atomicrmw', 'cmpxchg', 'va_arg', 'extractelement', 'insertelement', 'shufflevector', 'indirectbr', 'catchpad', 'cleanuppad'):
        I.op = 'unsupported'
    else:
        raise ValueError('inst ' + line)
    return I


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    # types first
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            mm = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
            m.types[unq(mm.group(1))] = P(tokenize(mm.group(2)), m).type()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('@'):
            mm = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
            name = unq(mm.group(1))
            rest = mm.group(2)
            mg = re.search(r'\b(global|constant)\b', rest)
            if mg and 'alias' not in rest[:mg.start()]:
                p = P(tokenize(rest[mg.end():]), m)
                try:
                    t = p.type()
                    init = None
                    if 'external' not in rest[:mg.start()].split():
                        try:
                            init = p.value(t)
                        except Exception:
                            init = None
                    m.globals[name] = (t, init, mg.group(1) == 'constant')
                except Exception:
                    pass
            else:
                ma = re.search(r'alias .*?, ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
                if ma:
                    m.globals[name] = ('alias', unq(ma.group(1)), True)
        elif ln.startswith('define'):
            mm = re.match(r'define (.*?)(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            pre, name = mm.group(1), unq(mm.group(2))
            # return type: last type in pre
            toks = tokenize(pre)
            p = P(toks, m)
            ret = None
            for s in range(len(toks)):
                q = P(toks[s:], m)
                q._isfn = lambda: False
                try:
                    q.attrs()
                    r = q.type()
                    if q.i >= len(q.t):
                        ret = r
                        break
                except Exception:
                    continue
            d, j = 1, mm.end()
            inq = False
            while d:
                c = ln[j]
                if c == '"':
                    inq = not inq
                if not inq:
                    d += (c == '(') - (c == ')')
                j += 1
            ps = ln[mm.end():j - 1]
            params = []
            q = P(tokenize(ps), m)
            while q.i < len(q.t):
                if q.peek() == '...':
                    break
                t = q.type(); fl = q.attrs()
                params.append((unq(q.next()), t, fl))
                if not q.eat(','):
                    break
            f = Func(name, ret, params)
            i += 1
            cur = None
            unn = sum(1 for pn, _, _ in params if pn.isdigit())
            while lines[i] != '}':
                l = lines[i]
                s = l.strip()
                if s == '' or s.startswith(';'):
                    i += 1
                    continue
                if not l.startswith(' '):
                    mm = re.match(r'("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', l)
                    lab = mm.group(1)
                    lab = lab[1:-1] if lab.startswith('"') else lab
                    cur = lab
                    f.blocks[cur] = []
                    f.order.append(cur)
                    i += 1
                    continue
                if cur is None:
                    cur = str(len(params)) if all(pn.isdigit() for pn, _, _ in params) else '0'
                    cur = str(unn)
                    f.blocks[cur] = []
                    f.order.append(cur)
                if s.startswith('switch') and not s.rstrip().endswith(']'):
                    while not lines[i].strip().startswith(']'):
                        i += 1
                        s += ' ' + lines[i].strip()
                if s.startswith('invoke') or ' = invoke' in s:
                    if ' unwind label' not in s:
                        i += 1
                        s += ' ' + lines[i].strip()
                if 'landingpad' in s:
                    while lines[i + 1].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                        i += 1
                    res = re.match(r'(%\S+) =', s)
                    I = Inst('landingpad', unq(res.group(1)) if res else None)
                    I.text = s
                else:
                    # strip metadata tails
                    s2 = re.sub(r', !(?:tbaa|llvm|srcloc|noalias|alias|range|nonnull|prof|noundef|align|dbg|invariant|heapallocsite|tbaa\.struct)\S* ![0-9]+', '', s)
                    try:
                        I = parse_inst(s2, m)
                    except ValueError as e:
                        I = Inst('unsupported', None)
                        mm = re.match(r'(%\S+) =', s)
                        if mm:
                            I.res = unq(mm.group(1))
                        I.x = str(e)
                    I.text = s
                f.blocks[cur].append(I)
                i += 1
            m.funcs[name] = f
        elif ln.startswith('declare'):
            mm = re.match(r'declare (.*?)(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            m.decls[unq(mm.group(2))] = ln
        i += 1
    return m
