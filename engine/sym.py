"""Symbolic execution of LLVM IR with contracts, loop invariants (Houdini) and a bounded mode.

Values
  iN (N>1)   z3 Int in the canonical range (i8,i16 unsigned; i32,i64 signed) -- or z3 BitVec in bv mode
  i1         z3 Bool
  ptr        Ptr(region, id, off)  (region is a Python object: paths fork where it would be ambiguous)
"""
import concurrent.futures
import time, re, itertools, subprocess, tempfile
import z3
from z3 import Int, IntVal, And, Or, Not, Implies, If, BoolVal, Select, Store, ForAll, Solver
import ir

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    pass


class Undecided(Exception):
    pass


SIGNED = {8: False, 16: False, 32: True, 64: True, 128: True}


def rng(w):
    if SIGNED.get(w, True):
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


def S(e):
    return z3.simplify(e, som=True) if z3.is_expr(e) else e


def is_num(e):
    return z3.is_int_value(e) or z3.is_bv_value(e)


def num(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return None


def lin(e):
    """linear form: (const, {ast_id: (term, coef)})"""
    if isinstance(e, int):
        return e, {}
    e = z3.simplify(e, som=True)
    c, d = 0, {}

    def add(t, k):
        nonlocal c
        if z3.is_int_value(t):
            c += k * t.as_long()
        elif z3.is_add(t):
            for x in t.children():
                add(x, k)
        elif z3.is_sub(t):
            ch = t.children()
            add(ch[0], k)
            for x in ch[1:]:
                add(x, -k)
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            add(t.arg(0), -k)
        elif z3.is_mul(t) and t.num_args() >= 2 and z3.is_int_value(t.arg(0)):
            rest = t.children()[1:]
            r = rest[0] if len(rest) == 1 else z3.Product(*rest)
            add(r, k * t.arg(0).as_long())
        else:
            i = t.get_id()
            o = d.get(i)
            d[i] = (t, (o[1] if o else 0) + k)
    add(e, 1)
    d = {i: v for i, v in d.items() if v[1] != 0}
    return c, d


def unlin(c, d):
    r = IntVal(c)
    for t, k in d.values():
        r = r + (t if k == 1 else k * t)
    return z3.simplify(r)


def exdiv(e, s):
    """e/s when structurally divisible, else None"""
    if s == 1:
        return e
    c, d = lin(e)
    if c % s or any(k % s for _, k in d.values()):
        return None
    return unlin(c // s, {i: (t, k // s) for i, (t, k) in d.items()})


# ------------------------------------------------------------------ regions
class Region:
    """layout: fixed {off:(size,kind)} plus an optional array part.  fam: cells are indexed by an object id."""
    n = 0

    def __init__(self, name, fixed=None, start=None, stride=None, fields=None, length=None, fam=False, lazy=False, const=None):
        self.name, self.fixed, self.start, self.stride = name, fixed or {}, start, stride
        self.fields, self.length, self.fam, self.lazy = fields or {}, length, fam, lazy
        self.const = const      # constant global: list of cell values
        self.base = Int('addr!' + name)
        self.livecheck = None

    def __repr__(self):
        return 'R<%s>' % self.name


class PK:
    """pointer kind stored in arrays / family cells: an object id of the target family (0 = null)"""
    def __init__(self, target):
        self.target = target


class VK:
    """begin / end / cap pointer of a vector header stored in an array or family: data family id = idfn(...)"""
    def __init__(self, data, which, stride, idfn):
        self.data, self.which, self.stride, self.idfn = data, which, stride, idfn


class Ptr:
    __slots__ = ('r', 'id', 'off')

    def __init__(self, r, id=None, off=0):
        self.r, self.id = r, id
        self.off = IntVal(off) if isinstance(off, int) else off

    def __repr__(self):
        return '<%s %s +%s>' % (self.r.name if self.r else 'null', self.id, self.off)


NULL = Ptr(None)


class FnPtr:
    def __init__(self, name):
        self.name = name


class Packed:
    def __init__(self, parts):
        self.parts = parts  # [(reloff,size,val)]


class Agg:
    def __init__(self, vals):
        self.vals = vals


class Undef:
    pass


UNDEF = Undef()

_fresh = itertools.count()


def fresh_name(p):
    return '%s!%d' % (p, next(_fresh))


def sortof(kind):
    if kind == 'bool':
        return z3.BoolSort()
    if kind in ('f64', 'f32'):
        return z3.RealSort()
    return z3.IntSort()


class State:
    __slots__ = ('regs', 'mem', 'pc', 'quick', 'block', 'prev', 'loops', 'path', 'eng', 'allocs', 'unroll')

    def __init__(self, eng):
        self.eng = eng
        self.regs, self.mem, self.pc, self.quick = {}, {}, [], []
        self.block = self.prev = None
        self.loops = ()       # stack of (header, init_state)
        self.path = ()
        self.unroll = {}

    def copy(self):
        s = State(self.eng)
        s.regs, s.mem, s.pc, s.quick = dict(self.regs), dict(self.mem), list(self.pc), list(self.quick)
        s.block, s.prev, s.loops, s.path = self.block, self.prev, self.loops, self.path
        s.unroll = dict(self.unroll)
        return s

    def assume(self, f):
        if isinstance(f, bool):
            f = BoolVal(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for x in f.children():
                self.assume(x)
            return
        self.pc.append(f)
        if not has_quant(f):
            self.quick.append(f)

    # ---- raw cells
    def cell(self, r, key, kind=None):
        k = (r.name, key)
        if k in self.mem:
            return self.mem[k]
        o = self.eng.old
        if o is not None and k in o.mem:
            v = o.mem[k]
            self.eng.cell_range(self, r, key, v)
        else:
            v = self.eng.fresh_cell(self, r, key, kind)
            if o is not None:
                o.mem[k] = v
        self.mem[k] = v
        for (h, ini, _) in self.loops:
            if k not in ini.mem:
                ini.mem[k] = v
        return v

    def setcell(self, r, key, v):
        k = (r.name, key)
        if k not in self.mem:
            # materialise the pre-value so that old/init see it
            try:
                self.cell(r, key)
            except Unsupported:
                pass
        self.mem[k] = v
        for (h, ini, _) in self.loops:
            M = self.eng.modified.setdefault(h, {})
            if k not in M:
                M[k] = (r, key)
                raise Restart()


class Restart(Exception):
    pass


SIG = {}


def signature(e):
    """uninterpreted functions and arrays of a formula"""
    i = e.get_id()
    if i in SIG and SIG[i][0].eq(e):
        return SIG[i][1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() or z3.is_array(x)):
                out.add(x.decl().name())
            todo += x.children()
    SIG[i] = (e, out)
    return out


def has_quant(f, seen=None):
    stack = [f]
    seen = set()
    while stack:
        e = stack.pop()
        if z3.is_quantifier(e):
            return True
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(e.children())
    return False


# ------------------------------------------------------------------ CFG helpers
def succs(f, b):
    I = f.blocks[b][-1]
    if I.op == 'br':
        return list(dict.fromkeys(I.x))
    if I.op == 'switch':
        return list(dict.fromkeys([I.x[0]] + [l for _, l in I.x[1]]))
    if I.op == 'invoke':
        return [I.x[1], I.x[2]]
    return []


def loops_of(f):
    order, seen = [], set()

    def dfs(b):
        st = [(b, iter(succs(f, b)))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succs(f, y))))
                    break
            else:
                order.append(x)
                st.pop()
    entry = f.order[0]
    dfs(entry)
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f, b):
            preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while pos[a] > pos[c]:
                                a = idom[a]
                            while pos[c] > pos[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f, b):
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
            elif pos[s] <= pos[b]:
                raise Unsupported('irreducible loop in ' + f.name)
    return loops


class Failure:
    def __init__(self, name, result, detail, where):
        self.name, self.result, self.detail, self.where = name, result, detail, where


PROGRAMS = {'z3': lambda t: ['z3', '-T:%d' % t, 'smt.mbqi=false', '-in'], 'z3b': lambda t: ['z3', '-T:%d' % t, 'smt.mbqi=false', 'smt.arith.solver=2', 'smt.random_seed=5', '-in'],
            'cvc5': lambda t: ['cvc5', '--tlimit=%d' % (1000 * t), '--lang=smt2', '-']}


def external(hows, text, seconds):
    """one query for several solver programs at once; only an answer of unsat is used"""
    ps = []
    for how in hows:
        f = tempfile.TemporaryFile('w+')
        f.write(('(set-logic ALL)\n' if how == 'cvc5' else '') + text)
        f.flush()
        f.seek(0)
        try:
            ps.append((how, subprocess.Popen(PROGRAMS[how](seconds), stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        except OSError:
            pass
        f.close()
    end, won = time.time() + seconds + 2, None
    live = list(ps)
    while live and won is None and time.time() < end:
        for x in list(live):
            if x[1].poll() is not None:
                live.remove(x)
                if x[1].stdout.read().split('\n')[0].strip() == 'unsat':
                    won = x[0]
                    break
        else:
            time.sleep(0.01)
    for how, p in ps:
        if p.poll() is None:
            p.kill()
        p.wait()
        p.stdout.close()
    return won


AUTO = re.compile(r' lockstep$|^\S+[<>]=\S+$')


class Ctx:
    """what invariants and postconditions see"""
    def __init__(self, eng, st, init=None, ret=None, header=None):
        self.eng, self.st, self.init, self.old, self.ret, self.header = eng, st, init, eng.old, ret, header

    def scalars(self):
        return self.eng.scalars(self.st, self.init, self.header)

    def vals(self):
        """values of the phi nodes of this loop and the enclosing ones: (label, value)"""
        st, out = self.st, []
        for h in [x[0] for x in st.loops if x[0] != self.header] + [self.header]:
            out += [('%' + I.res, st.regs[I.res]) for I in self.eng.phi_insts(h) if I.res in st.regs]
        return out

    def ptrs(self):
        """pointers that change in the loop: (label, pointer)"""
        return [('%' + I.res, self.st.regs[I.res]) for I in self.eng.phi_insts(self.header) if isinstance(self.st.regs[I.res], Ptr) and self.st.regs[I.res].r is not None]

    def forall(self, lo, hi, fn, name='k'):
        return self.eng.forall(lo, hi, fn, name)


class Engine:
    def __init__(self, mod, fname, contract=None, timeout=8000, bounded=None, bv=False):
        self.mod = mod
        self.f = mod.funcs[fname]
        self.fname = fname
        self.timeout = timeout
        self.bv = bv
        self.bounded = bounded      # None or N: loops unrolled up to N iterations, forall expanded
        self.handlers = []          # (regex, fn)
        self.regions = {}
        self.modified = {}
        self.dropped = {}           # header -> set(candidate names)
        self.loopinfo = loops_of(self.f)
        self.obligations = {}       # name -> [count, solver_time]
        self.failures = []
        self.inv = lambda ctx: ()
        self.post = lambda ctx: ()
        self.on_throw = None
        self.old = None
        self.stats = {'queries': 0, 'time': 0.0, 'paths': 0, 'by': {}}
        self.axioms = []
        self.safety = True
        self.phi_region = {}
        self.reach = {}
        self.cov = []
        self.hit_handlers = {}
        self.demangle = {}
        self.qlog = []
        self.maxpaths = 20000
        self.deadline = None
        self.unwind_reached = False
        self.auto = True
        self.opens = {}
        self.cand_rlimit = 1500000
        self.shape_mode = False
        self.array_allocas = False
        self.fork_selects = False
        self.heavies = {}
        self.deltas = {}

    # ------------------------------------------------ logic helpers
    def forall(self, lo, hi, fn, name='k'):
        if self.bounded is not None:
            N = self.bounded
            l, h = num(lo), num(hi)
            a = l if l is not None else -1
            b = h if h is not None else N + 3
            return And([Implies(And(lo <= k, k < hi), fn(IntVal(k))) for k in range(a, b)] or [BoolVal(True)])
        k = Int(fresh_name(name))
        body = fn(k)
        return ForAll([k], Implies(And(lo <= k, k < hi), body))

    def exists(self, lo, hi, fn, name='k'):
        return Not(self.forall(lo, hi, lambda k: Not(fn(k)), name))

    def solver(self, facts, timeout):
        s = Solver()
        s.set('timeout', timeout)
        for a in self.axioms:
            s.add(a)
        s.add(facts)
        return s

    def heavy(self, st, f):
        """assume a fact that starts long chains of instances; queries are first tried without those"""
        n = len(st.pc)
        st.assume(f)
        for x in st.pc[n:]:
            self.heavies[x.get_id()] = x

    known = ()
    parallel = 0        # how many goals are given to the solver programs at a time

    def prefetch(self, facts, goals):
        """goals that have the same hypotheses, several at a time; self.known is the set of those that were proved"""
        self.known = set()
        if not self.parallel or self.bounded is not None or len(goals) < 2:
            return
        t0 = time.time()
        facts = list(facts)
        light = [f for f in facts if f.get_id() not in self.heavies]
        jobs = []
        for g in goals:
            h = z3.simplify(g) if z3.is_expr(g) else BoolVal(g)
            if z3.is_true(h):
                continue
            sig = signature(g)
            rel = [f for f in facts if not has_quant(f) or signature(f) & sig]
            texts = []
            for fs, secs in ([(light, 4)] if len(light) < len(facts) else []) + ([(rel, 25)] if len(rel) < len(facts) else []) + [(facts, 20)]:
                s = Solver()
                for a in self.axioms:
                    s.add(a)
                s.add(fs)
                s.add(Not(h))
                texts.append((s.to_smt2(), secs))
            jobs.append((g, texts))

        def run(job):
            for t, secs in job[1]:
                w = external(('z3', 'z3b', 'cvc5'), t, secs)
                if w:
                    return w
            return None
        with concurrent.futures.ThreadPoolExecutor(self.parallel) as ex:
            for (g, _), w in zip(jobs, ex.map(run, jobs)):
                self.stats['queries'] += 1
                if w:
                    w = {'z3b': 'z3'}.get(w, w)
                    self.stats['by'][w] = self.stats['by'].get(w, 0) + 1
                    self.known.add(g.get_id())
        self.held = goals       # keeps the identities valid
        self.stats['time'] += time.time() - t0

    def oblige_all(self, st, goals):
        goals = list(goals)
        if not self.shape_mode:
            self.prefetch(st.pc, [g for _, g in goals])
        for n, g in goals:
            self.oblige(st, n, g)
        self.known = ()

    def check(self, facts, goal, timeout=None, cand=False):
        """'proved' / 'refuted' / 'unknown'"""
        if self.known and z3.is_expr(goal) and goal.get_id() in self.known:
            return 'proved', None
        if self.relevance:
            # hypotheses without quantifiers, and those that share a function or an array with the goal
            g = signature(goal) if z3.is_expr(goal) else set()
            rel = [f for f in facts if not has_quant(f) or signature(f) & g]
            if g and len(rel) < len(facts):
                r, m = self.check1(rel, goal, timeout, 'rel')
                if r == 'proved':
                    return r, m
        elif self.heavies and cand != 'auto':
            less = [f for f in facts if f.get_id() not in self.heavies]
            if len(less) < len(facts):
                r, m = self.check1(less, goal, timeout, 'light')
                if r == 'proved':
                    return r, m
        return self.check1(facts, goal, timeout, cand)

    def check1(self, facts, goal, timeout=None, cand=False):
        g = z3.simplify(goal) if z3.is_expr(goal) else BoolVal(goal)
        if z3.is_true(g):
            return 'proved', None
        t0 = time.time()
        timeout = timeout or self.timeout
        r, m = 'unknown', None
        quant = has_quant(g) or any(has_quant(x) for x in facts)
        # back ends: the z3 library, the z3 4.8 and cvc5 programs; a query counts as proved when one of them answers unsat
        if not quant:
            plan = [('lib', timeout, 1, True)]
        elif cand == 'auto':
            plan = [('lib', 1000, 1, False)]
        elif cand == 'rel':
            plan = [('lib', 1000, 1, False), (('z3', 'z3b', 'cvc5'), 4, 1, False)]
        elif cand == 'light':
            plan = [('lib', 700, 1, False), (('z3', 'z3b', 'cvc5'), 2, 1, False)]
        elif cand:
            plan = [('lib', 1000, 1, False), (('z3', 'z3b', 'cvc5'), self.cand_ms // 1000 + 1, 1, False)]
        else:
            plan = [('lib', min(timeout, 2000), 1, False), (('z3', 'z3b', 'cvc5'), 10, 1, False), ('lib', timeout, 7, True)]
        text = None
        for how, tmo, seed, mbqi in plan:
            self.stats['queries'] += 1
            if how != 'lib':
                if text is None:
                    s = Solver()
                    for a in self.axioms:
                        s.add(a)
                    s.add(facts)
                    s.add(Not(g))
                    text = s.to_smt2()
                won = external(how, text, tmo)
                if won:
                    r = 'proved'
                    won = {'z3b': 'z3'}.get(won, won)
                    self.stats['by'][won] = self.stats['by'].get(won, 0) + 1
                    break
                continue
            s = self.solver(facts, tmo)
            s.set('random_seed', seed)
            s.set('smt.mbqi', mbqi)
            if cand:
                s.set('rlimit', self.cand_rlimit)
            s.add(Not(g))
            res = s.check()
            if res == z3.unsat:
                r = 'proved'
                self.stats['by']['z3 library'] = self.stats['by'].get('z3 library', 0) + 1
                break
            if res == z3.sat:
                r, m = 'refuted', s.model()
                break
        self.stats['time'] += time.time() - t0
        return r, m

    def quick(self, st, cond):
        """is cond certainly true / certainly false on the quantifier-free facts?"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = Solver()
        s.set('timeout', 300)
        for a in self.axioms:
            if not has_quant(a):
                s.add(a)
        s.add(st.quick)
        s.push()
        s.add(c)
        if s.check() == z3.unsat:
            return False
        s.pop()
        s.add(Not(c))
        if s.check() == z3.unsat:
            return True
        return None

    def feasible(self, st):
        s = Solver()
        s.set('timeout', 300)
        s.add(st.quick)
        if s.check() == z3.unsat:
            return False
        return True

    def entails(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = Solver()
        s.set('timeout', 300)
        s.add(st.quick)
        s.add(Not(c))
        return s.check() == z3.unsat

    def lemma(self, st, name, facts, goal):
        """prove goal from the given facts alone (each of which holds in st), then use it"""
        if not self.shape_mode:
            o = self.obligations.setdefault(name, [0, 0.0])
            o[0] += 1
            r, m = self.check(facts, goal)
            if r != 'proved':
                return self.oblige(st, name, goal)
        st.assume(goal)
        return True

    def oblige(self, st, name, goal):
        if self.shape_mode:
            st.assume(goal)
            return True
        o = self.obligations.setdefault(name, [0, 0.0])
        o[0] += 1
        t0 = time.time()
        r, m = self.check(st.pc, goal)
        o[1] += time.time() - t0
        if r != 'proved':
            self.failures.append(Failure(name, r, m, '%s:%s' % (self.fname, ' '.join(map(str, st.path[-6:])))))
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time')
            return False
        st.assume(goal)
        return True

    # ------------------------------------------------ values
    def const(self, v, w):
        if w == 1:
            return BoolVal(bool(v))
        if self.bv:
            return z3.BitVecVal(v, w)
        lo, hi = rng(w)
        v &= (1 << w) - 1
        if v > hi:
            v -= 1 << w
        return IntVal(v)

    def fresh(self, st, ty, name='v'):
        if ty.k == 'int':
            if ty.a == 1:
                return z3.Bool(fresh_name(name))
            if self.bv:
                return z3.BitVec(fresh_name(name), ty.a)
            v = Int(fresh_name(name))
            lo, hi = rng(ty.a)
            if st is not None:
                st.assume(And(v >= lo, v <= hi))
            return v
        if ty.k in ('double', 'float'):
            return z3.Real(fresh_name(name))
        if ty.k == 'ptr':
            return Ptr(Region(fresh_name('opaque')), None, 0)
        raise Unsupported('fresh ' + repr(ty))

    def region(self, *a, **k):
        r = Region(*a, **k)
        o = self.regions.get(r.name)
        if o is not None:
            o.__dict__.update(r.__dict__)
            return o
        self.regions[r.name] = r
        return r

    def wrap(self, st, e, w):
        lo, hi = rng(w)
        if isinstance(e, int):
            return self.const(e, w)
        n = num(e)
        if n is not None:
            return self.const(n, w)
        e = z3.simplify(e)
        if self.entails(st, And(e >= lo, e <= hi)):
            return e
        m = 1 << w
        if lo == 0:
            return z3.simplify(e % m)
        return z3.simplify((e - lo) % m + lo)

    def unsigned(self, st, e, w):
        if not SIGNED.get(w, True):
            return e
        n = num(e)
        if n is not None:
            return IntVal(n % (1 << w))
        if self.entails(st, e >= 0):
            return e
        return If(e >= 0, e, e + (1 << w))

    def signed(self, st, e, w):
        if SIGNED.get(w, True):
            return e
        n = num(e)
        h = 1 << (w - 1)
        if n is not None:
            return IntVal(n - (1 << w) if n >= h else n)
        if self.entails(st, e < h):
            return e
        return If(e < h, e, e - (1 << w))

    # ------------------------------------------------ cells
    def fresh_cell(self, st, r, key, kind):
        """key: ('f',off) or ('a',field)"""
        k, off = key
        if kind is None:
            kind = (r.fixed if k == 'f' else r.fields).get(off)
            kind = kind[1] if kind else None
        if kind is None:
            raise Unsupported('untyped cell %s %s' % (r.name, key))
        if isinstance(kind, PK):
            so = z3.IntSort()
        elif isinstance(kind, VK):
            so = z3.IntSort()
        elif kind == 'ptr':
            raise Unsupported('pointer cell without a shape: %s %s' % (r.name, key))
        else:
            so = sortof(kind)
        if self.bv and so == z3.IntSort() and not isinstance(kind, (PK, VK)):
            so = z3.BitVecSort(int(kind[1:]))
        n = '%s.%s%s' % (r.name, k, off)
        n = fresh_name(n)
        if k == 'a':
            so = z3.ArraySort(z3.IntSort(), so)
        if r.fam:
            so = z3.ArraySort(z3.IntSort(), so)
        v = z3.Const(n, so)
        self.cell_range(st, r, key, v)
        return v

    def cell_range(self, st, r, key, v):
        kind = (r.fixed if key[0] == 'f' else r.fields).get(key[1])
        kind = kind[1] if kind else None
        if key[0] == 'f' and not r.fam and not self.bv and isinstance(kind, str) and kind[0] == 'i' and z3.is_expr(v):
            lo, hi = rng(int(kind[1:]))
            st.assume(And(v >= lo, v <= hi))

    def rd(self, st, r, id, key, idx=None):
        v = st.cell(r, key)
        if r.fam:
            v = Select(v, id)
        if key[0] == 'a':
            v = Select(v, idx)
        return v

    def wr(self, st, r, id, key, idx, val):
        cur = st.cell(r, key)
        if key[0] == 'a':
            if r.fam:
                new = Store(cur, id, Store(Select(cur, id), idx, val))
            else:
                new = Store(cur, idx, val)
        elif r.fam:
            new = Store(cur, id, val)
        else:
            new = val
        st.setcell(r, key, new)

    def locate(self, st, p, size, what):
        """-> (key, idx, kind)"""
        r = p.r
        if r is None:
            self.safety_ob(st, 'null dereference', BoolVal(False))
            raise Dead()
        off = z3.simplify(p.off)
        n = num(off)
        if n is not None and (r.start is None or n < r.start or n in r.fixed):
            if n in r.fixed:
                sz, kind = r.fixed[n]
                return ('f', n), None, kind, sz
            if r.lazy:
                return ('f', n), None, None, None
            raise Unsupported('%s of %s at offset %d: no such field' % (what, r.name, n))
        if r.start is None:
            raise Unsupported('%s of %s at symbolic offset %s' % (what, r.name, off))
        rel = off - r.start
        c, d = lin(rel)
        if any(k % r.stride for _, k in d.values()):
            raise Unsupported('unaligned access to %s: %s' % (r.name, rel))
        f = c % r.stride
        idx = unlin((c - f) // r.stride, {i: (t, k // r.stride) for i, (t, k) in d.items()})
        L = r.length(st, p.id)
        self.safety_ob(st, 'in-bounds access to %s' % r.name, And(idx >= 0, idx < L))
        if f not in r.fields:
            if r.fields == {} :
                raise Unsupported('array %s has no field at %d' % (r.name, f))
            raise Unsupported('array %s: no field at %d' % (r.name, f))
        sz, kind = r.fields[f]
        return ('a', f), idx, kind, sz

    def safety_ob(self, st, name, g):
        if not self.safety or self.shape_mode:
            st.assume(g)
            return
        if self.entails(st, g):
            o = self.obligations.setdefault('safety: ' + name, [0, 0.0])
            o[0] += 1
            return
        self.oblige(st, 'safety: ' + name, g)

    def load(self, st, p, ty):
        if isinstance(p, Undef):
            raise Unsupported('load through undef')
        size = self.mod.size(ty)
        if p.r is not None and p.r.const is not None:
            return self.load_const(st, p, ty)
        key, idx, kind, sz = self.locate(st, p, size, 'load')
        r = p.r
        if p.r.fam and p.id is not None:
            self.safety_ob(st, 'non-null object', p.id != 0)
        if kind is None:   # lazy
            k = (r.name, key)
            if k in st.mem:
                v = st.mem[k]
                return self.coerce(st, v, ty)
            if ty.k == 'ptr':
                raise Unsupported('load of untyped pointer %s+%s' % (r.name, key))
            # overlapping packed parts
            o = self.old
            if o is not None and k in o.mem:
                v = o.mem[k]
            else:
                v = self.fresh(st, ty, '%s.%s' % (r.name, key[1]))
            st.mem[k] = v
            if o is not None:
                o.mem[k] = v
            for (h, ini, _) in st.loops:
                ini.mem.setdefault(k, v)
            return v
        if sz is not None and sz != size and ty.k == 'int':
            if size > sz:
                parts, o = [], 0
                while o < size:
                    k2, i2, kd2, s2 = self.locate(st, Ptr(p.r, p.id, z3.simplify(p.off + o)), None, 'load')
                    parts.append((o, s2, self.rd(st, r, p.id, k2, i2)))
                    o += s2
                return Packed(parts)
            raise Unsupported('partial load %s' % r.name)
        if isinstance(kind, PK):
            v = self.rd(st, r, p.id, key, idx)
            return Ptr(kind.target, v, 0)
        if isinstance(kind, VK):
            return self.vkload(st, r, p.id, key, idx, kind)
        v = self.rd(st, r, p.id, key, idx)
        if isinstance(v, (Ptr, Packed, FnPtr, Agg, Undef)):
            return v
        if ty.k == 'ptr':
            raise Unsupported('pointer load from scalar cell %s %s' % (r.name, key))
        if not self.bv and ty.k == 'int' and ty.a > 1 and isinstance(kind, str) and kind != 'bool' and num(v) is None:
            if key[0] == 'a' or r.fam:
                lo, hi = rng(ty.a)
                st.assume(And(v >= lo, v <= hi))
        if kind == 'bool' and ty.k == 'int' and ty.a != 1:
            if self.bv:
                return If(v, z3.BitVecVal(1, ty.a), z3.BitVecVal(0, ty.a))
            return If(v, IntVal(1), IntVal(0))
        return v

    def vkload(self, st, r, id, key, idx, kind):
        did = kind.idfn(id, idx)
        if kind.which == 'begin':
            return Ptr(kind.data, did, 0)
        ln = self.rd(st, r, id, key, idx)
        st.assume(And(ln >= 0, ln < (1 << 40)))
        return Ptr(kind.data, did, kind.stride * ln)

    def coerce(self, st, v, ty):
        return v

    def load_const(self, st, p, ty):
        r = p.r
        cells = r.const
        n = num(p.off)
        if n is not None:
            if n in cells:
                return cells[n]
            raise Unsupported('const load ' + r.name)
        size = self.mod.size(ty)
        offs = sorted(cells)
        v = None
        self.safety_ob(st, 'in-bounds access to constant table', Or([p.off == o for o in offs]))
        for o in offs:
            c = cells[o]
            v = c if v is None else If(p.off == o, c, v)
        return v

    def store(self, st, p, val, ty):
        size = self.mod.size(ty)
        if isinstance(p, Undef):
            raise Unsupported('store through undef')
        key, idx, kind, sz = self.locate(st, p, size, 'store')
        r = p.r
        if r.const is not None:
            raise Unsupported('store to constant')
        if r.fam and p.id is not None:
            self.safety_ob(st, 'non-null object', p.id != 0)
        if kind is None:
            st.setcell_lazy(r, key, val) if False else self._lazyset(st, r, key, val)
            return
        if isinstance(val, Undef):
            val = self.fresh(st, ty, 'undef') if ty.k != 'ptr' else val
        if sz is not None and sz != size and ty.k == 'int':
            if isinstance(val, Packed):
                for (o, s, v) in val.parts:
                    self.store(st, Ptr(p.r, p.id, z3.simplify(p.off + o)), v, ir.IntTy(8 * s))
                return
            if size > sz and num(val) is not None:
                n = num(val) % (1 << (8 * size))
                o = 0
                while o < size:
                    k2, i2, kd2, s2 = self.locate(st, Ptr(p.r, p.id, z3.simplify(p.off + o)), None, 'store')
                    self.store(st, Ptr(p.r, p.id, z3.simplify(p.off + o)), self.const((n >> (8 * o)) & ((1 << (8 * s2)) - 1), 8 * s2), ir.IntTy(8 * s2))
                    o += s2
                return
            if not self.bv and key[0] == 'a' and z3.is_expr(val) and z3.is_int(val) and size % sz == 0:
                u = self.unsigned(st, val, 8 * size)
                for o in range(0, size, sz):       # little endian
                    part = (u / (1 << (8 * o))) % (1 << (8 * sz)) if o + sz < size else u / (1 << (8 * o))
                    self.store(st, Ptr(p.r, p.id, z3.simplify(p.off + o)), self.wrap(st, part, 8 * sz), ir.IntTy(8 * sz))
                return
            raise Unsupported('partial store %s' % r.name)
        if isinstance(kind, PK):
            if isinstance(val, Undef):
                val = Ptr(kind.target, Int(fresh_name('undefptr')), 0)
            if val.r is None:
                v = IntVal(0)
            elif val.r is kind.target:
                if num(val.off) != 0:
                    raise Unsupported('interior pointer stored')
                v = val.id
            else:
                raise Unsupported('store of pointer into %s where %s is expected' % (val.r.name, kind.target.name))
            self.wr(st, r, p.id, key, idx, v)
            return
        if isinstance(kind, VK):
            if kind.which == 'begin':
                raise Unsupported('vector begin pointer overwritten')
            if val.r is not kind.data:
                raise Unsupported('vector pointer to foreign storage')
            self.safety_ob(st, 'vector pointers stay in their own storage', val.id == kind.idfn(p.id, idx))
            ln = exdiv(val.off, kind.stride)
            if ln is None:
                raise Unsupported('unaligned vector end')
            self.wr(st, r, p.id, key, idx, ln)
            return
        if kind == 'bool' and ty.k == 'int' and ty.a != 1:
            val = z3.simplify(val != 0)
        if isinstance(val, (Ptr, FnPtr)) and (r.fam or key[0] == 'a'):
            raise Unsupported('raw pointer stored in array cell of ' + r.name)
        self.wr(st, r, p.id, key, idx, val)

    def _lazyset(self, st, r, key, val):
        k = (r.name, key)
        st.mem[k] = val
        for (h, ini, _) in st.loops:
            M = self.modified.setdefault(h, {})
            if k not in M:
                M[k] = (r, key)
                raise Restart()

    # ------------------------------------------------ operands
    def op(self, st, o):
        k = o[0]
        if k == 'l':
            return st.regs[o[1]]
        if k == 'c':
            return self.const(o[1], o[2].a)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'g':
            return self.glob(st, o[1])
        if k == 'gep':
            bt, base, idx = o[1]
            return self.gep(st, bt, self.op(st, base), idx)
        if k == 'fp':
            try:
                t = o[1]
                if t.startswith('0x'):
                    import struct
                    return z3.RealVal(repr(struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]))
                return z3.RealVal(str(float(t)))
            except Exception:
                return z3.Real(fresh_name('fp'))
        if k == 'zero':
            t = self.mod.resolve(o[2])
            if t.k == 'int':
                return self.const(0, t.a)
            if t.k == 'struct':
                return Agg([self.op(st, ('zero', None, x)) for x in t.a])
            if t.k == 'ptr':
                return NULL
        if k == 'agg':
            return Agg([self.op(st, x) for x in o[1]])
        raise Unsupported('operand ' + str(o[0]))

    def glob(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        if name in self.regions and name.startswith('@'):
            return Ptr(self.regions[name], None, 0)
        rn = '@' + name
        if rn in self.regions:
            return Ptr(self.regions[rn], None, 0)
        g = self.mod.globals.get(name)
        if g and g[0] == 'alias':
            return self.glob(st, g[1])
        if g and g[1] is not None and g[2]:
            cells = {}

            def fill(t, v, base):
                t = self.mod.resolve(t)
                if t.k == 'struct' or t.k == 'arr':
                    cnt = len(t.a) if t.k == 'struct' else t.a
                    for i in range(cnt):
                        o, x = self.mod.field(t, i)
                        fill(x, ('zero', None, x) if v[0] in ('zero', 'undef') else v[1][i], base + o)
                else:
                    try:
                        cells[base] = self.op(st, v if v[0] != 'zero' else ('zero', None, t))
                    except Unsupported:
                        pass
            fill(g[0], g[1], 0)
            r = self.region(rn, const=cells)
            return Ptr(r, None, 0)
        if g:
            r = self.region(rn, lazy=True)
            return Ptr(r, None, 0)
        raise Unsupported('global ' + name)

    def toint(self, st, v, w=64):
        """index value as mathematical signed Int"""
        if self.bv:
            n = num(v)
            if n is None:
                return z3.BV2Int(v, True)
            return IntVal(n)
        return v

    def gep(self, st, bt, base, idx):
        if isinstance(base, Undef):
            return UNDEF
        off = base.off
        t = bt
        for j, ix in enumerate(idx):
            iv = self.op(st, ix)
            w = ix[2].a
            if not self.bv and not isinstance(iv, Undef):
                iv = self.signed(st, iv, w)
            elif self.bv:
                iv = self.toint(st, iv)
            if isinstance(iv, Undef):
                return UNDEF
            if j == 0:
                off = off + iv * self.mod.size(t)
            else:
                rt = self.mod.resolve(t)
                if rt.k == 'struct':
                    o, t = self.mod.field(rt, num(iv))
                    off = off + o
                else:
                    off = off + iv * self.mod.size(rt.b)
                    t = rt.b
        return Ptr(base.r, base.id, z3.simplify(off, som=True))

    # ------------------------------------------------ arithmetic (Int mode)
    bitf = z3.Function('bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    maskf = {}

    def arith(self, st, op, a, b, w, fl):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, Packed):
            n = num(b)
            if op == 'lshr' and n is not None:
                parts = [(o - n // 8, s, v) for (o, s, v) in a.parts if o >= n // 8]
                return Packed(parts)
            if op == 'and' and n is not None:
                n %= 1 << w
                for (o, s, v) in a.parts:
                    if n == ((1 << (8 * s)) - 1) << (8 * o) and o == 0:
                        return v
            raise Unsupported('arith on packed %s' % op)
        if w == 1:
            if op == 'xor':
                return z3.simplify(z3.Xor(a, b))
            if op == 'and':
                return z3.simplify(And(a, b))
            if op == 'or':
                return z3.simplify(Or(a, b))
            raise Unsupported('i1 ' + op)
        if self.bv:
            f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
                 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
                 'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.safety_ob(st, 'no division by zero', b != 0)
            if op in ('shl', 'lshr', 'ashr'):
                self.safety_ob(st, 'shift amount in range', z3.ULT(b, w))
            if op in ('add', 'sub', 'mul') and 'nsw' in fl:
                ex = lambda x: z3.SignExt(w if op == 'mul' else 1, x)
                A, B = ex(a), ex(b)
                R = {'add': A + B, 'sub': A - B, 'mul': A * B}[op]
                self.safety_ob(st, 'no signed overflow', R == ex(f()))
            return z3.simplify(f())
        nb = num(b)
        na = num(a)
        if op in ('add', 'sub', 'mul'):
            e = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if op != 'mul' or na is not None or nb is not None or True:
                e = z3.simplify(e, som=True)
            if 'nsw' in fl:
                lo, hi = rng(w)
                if not SIGNED.get(w, True):
                    return self.wrap(st, e, w)
                self.safety_ob(st, 'no signed overflow', And(e >= lo, e <= hi))
                return e
            return self.wrap(st, e, w)
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'shl'):
            if op in ('ashr', 'lshr', 'shl'):
                if nb is None:
                    if op == 'shl' and na == 1:
                        # 1 << b : a mask with exactly one bit
                        v = self.fresh(st, ir.IntTy(w), 'onebit')
                        self.safety_ob(st, 'shift amount in range', And(b >= 0, b < w))
                        self.bitfact(st, v, lambda k: k == b)
                        return v
                    raise Unsupported('variable shift')
                if not (0 <= nb < w):
                    self.safety_ob(st, 'shift amount in range', BoolVal(False))
                    raise Dead()
                d = IntVal(1 << nb)
                if op == 'shl':
                    return self.wrap(st, z3.simplify(a * d, som=True), w)
                q = exdiv(a, 1 << nb)
                if op == 'ashr':
                    x = self.signed(st, a, w)
                    return q if q is not None else self.wrap(st, z3.simplify(x / d), w)
                x = self.unsigned(st, a, w)
                if q is not None and x is a:
                    return q
                return self.wrap(st, z3.simplify(x / d), w)
            self.safety_ob(st, 'no division by zero', b != 0)
            if op == 'sdiv' and nb is not None and nb > 0:
                q = exdiv(a, nb)
                if q is not None:
                    return q
            if op in ('sdiv', 'srem'):
                A, B = self.signed(st, a, w), self.signed(st, b, w)
                if self.entails(st, And(A >= 0, B > 0)):
                    return self.wrap(st, z3.simplify(A / B if op == 'sdiv' else A % B), w)
                absa, absb = If(A >= 0, A, -A), If(B >= 0, B, -B)
                q = If((A >= 0) == (B >= 0), absa / absb, -(absa / absb))
                if op == 'sdiv':
                    return self.wrap(st, q, w)
                return self.wrap(st, If(A >= 0, absa % absb, -(absa % absb)), w)
            A, B = self.unsigned(st, a, w), self.unsigned(st, b, w)
            return self.wrap(st, z3.simplify(A / B if op == 'udiv' else A % B), w)
        if op in ('and', 'or', 'xor'):
            if na is not None and nb is None:
                a, b, na, nb = b, a, nb, na
            if na is None and nb is None:
                for x, y in ((a, b), (b, a)):
                    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and num(y.arg(1)) is not None and num(y.arg(2)) is not None:
                        return z3.simplify(If(y.arg(0), self.arith(st, op, x, y.arg(1), w, fl), self.arith(st, op, x, y.arg(2), w, fl)))
            if nb is not None and na is not None:
                n = {'and': na & nb, 'or': na | nb, 'xor': na ^ nb}[op]
                return self.const(n, w)
            if nb is not None:
                full = (1 << w) - 1
                u = nb & full
                if op == 'xor':
                    if u == full:
                        r = (-a - 1) if SIGNED.get(w, True) else (full - a)
                        r = z3.simplify(r)
                        self.bitnot(st, r, a, w)
                        return r
                    if u == 0:
                        return a
                    if u == 1:
                        return z3.simplify(If(a % 2 == 0, a + 1, a - 1))
                    if u == 1 << (w - 1) and SIGNED.get(w, True):
                        return z3.simplify(If(a >= 0, a - (1 << (w - 1)), a + (1 << (w - 1))))
                if op == 'and':
                    if u == 0:
                        return self.const(0, w)
                    if u == full:
                        return a
                    if u & (u + 1) == 0:
                        return z3.simplify(a % (u + 1))
                    inv = full ^ u
                    if inv & (inv + 1) == 0:
                        return z3.simplify(a - a % (inv + 1))
                    if u & (u - 1) == 0:
                        return self.wrap(st, If((self.unsigned(st, a, w) / u) % 2 == 1, IntVal(u), IntVal(0)), w)
                if op == 'or':
                    if u == 0:
                        return a
                    if u & (u + 1) == 0 and u != full:
                        return z3.simplify(a - a % (u + 1) + u)
            if op == 'or' and 'disjoint' in fl:
                return self.wrap(st, a + b, w)
            if op == 'or' and w == 32 and nb is None and na is None:
                for x, y in ((a, b), (b, a)):
                    for k in (3, 8, 16, 24):      # disjoint bits: addition
                        if self.entails(st, And(y >= 0, y < (1 << k), x % (1 << k) == 0)):
                            return self.wrap(st, x + y, w)
            # masks: only bitwise facts are known about the result
            v = self.fresh(st, ir.IntTy(w), 'mask')
            f = {'and': lambda k: And(self.bitf(a, k), self.bitf(b, k)), 'or': lambda k: Or(self.bitf(a, k), self.bitf(b, k)),
                 'xor': lambda k: z3.Xor(self.bitf(a, k), self.bitf(b, k))}[op]
            self.bitfact(st, v, f, w)
            return v
        raise Unsupported('arith ' + op)

    def bitfact(self, st, v, f, w=64):
        k = Int(fresh_name('bk'))
        st.assume(ForAll([k], Implies(And(k >= 0, k < w), self.bitf(v, k) == f(k)), patterns=[self.bitf(v, k)]))
        k2 = Int(fresh_name('bk'))
        st.assume((v == 0) == ForAll([k2], Implies(And(k2 >= 0, k2 < w), Not(f(k2)))))

    def bitnot(self, st, r, a, w):
        if w == 64:
            k = Int(fresh_name('bk'))
            st.assume(ForAll([k], Implies(And(k >= 0, k < w), self.bitf(r, k) == Not(self.bitf(a, k)))))

    def addr(self, p):
        if p.r is None:
            return IntVal(0)
        if p.r.fam:
            f = z3.Function('addr!' + p.r.name, z3.IntSort(), z3.IntSort())
            return f(p.id) + p.off
        return p.r.base + p.off

    def ptreq(self, st, a, b):
        if a.r is None and b.r is None:
            return BoolVal(True)
        if a.r is None:
            a, b = b, a
        if b.r is None:
            if a.r.fam and a.id is not None:
                return And(a.id == 0, a.off == 0)
            if getattr(a.r, 'maybenull', None) is not None:
                return a.r.maybenull
            return BoolVal(False)
        if a.r is not b.r:
            return BoolVal(False)
        if a.r.fam:
            return And(a.id == b.id, a.off == b.off)
        return a.off == b.off

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return z3.Bool(fresh_name('undefcmp'))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                    e = BoolVal(a.name == b.name)
                else:
                    e = BoolVal(False)
                return e if pred == 'eq' else Not(e)
            if pred in ('eq', 'ne'):
                e = self.ptreq(st, a, b)
                return e if pred == 'eq' else Not(e)
            if a.r is not b.r:
                raise Unsupported('ordering of unrelated pointers')
            x, y = a.off, b.off
            return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
        w = ty.a
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and isinstance(b, Packed) and pred in ('eq', 'ne'):
                e = And([x[2] == y[2] for x, y in zip(a.parts, b.parts)])
                return e if pred == 'eq' else Not(e)
            raise Unsupported('icmp packed')
        if w == 1:
            e = {'eq': a == b, 'ne': a != b}.get(pred)
            if e is None:
                A, B = If(a, 1, 0), If(b, 1, 0)
                if pred[0] == 's':
                    A, B = -A, -B
                e = {'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[pred[1:]]
            return e
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if self.bv:
            return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
                    'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](a, b)
        if pred[0] == 'u':
            A, B = self.unsigned(st, a, w), self.unsigned(st, b, w)
        else:
            A, B = self.signed(st, a, w), self.signed(st, b, w)
        return {'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[pred[1:]]

    def cast(self, st, op, a, ft, tt):
        if isinstance(a, Undef):
            return UNDEF
        if op in ('bitcast', 'addrspacecast'):
            return a
        if op == 'ptrtoint':
            v = self.addr(a)
            if self.bv:
                return z3.Int2BV(v, 64)
            return v
        if op == 'inttoptr':
            raise Unsupported('inttoptr')
        if op in ('sitofp', 'uitofp'):
            return z3.ToReal(a) if not self.bv else z3.Real(fresh_name('fp'))
        if op in ('fptosi', 'fptoui'):
            return self.fresh(st, tt, 'fptoi')
        if op in ('fpext', 'fptrunc'):
            return a
        fw, tw = ft.a, tt.a
        if isinstance(a, Packed):
            if op == 'trunc':
                for (o, s, v) in a.parts:
                    if o == 0 and s * 8 == tw:
                        return v
                return Packed([x for x in a.parts if x[0] * 8 < tw])
            raise Unsupported('cast packed')
        if fw == 1:
            if self.bv:
                one = z3.BitVecVal(1 if op == 'zext' else -1, tw)
                return z3.simplify(If(a, one, z3.BitVecVal(0, tw)))
            one = 1 if op == 'zext' else (-1 if SIGNED.get(tw, True) else (1 << tw) - 1)
            return z3.simplify(If(a, IntVal(one), IntVal(0)))
        if tw == 1:
            if self.bv:
                return z3.simplify(z3.Extract(0, 0, a) == 1)
            return z3.simplify(a % 2 == 1)
        if self.bv:
            if op == 'zext':
                return z3.simplify(z3.ZeroExt(tw - fw, a))
            if op == 'sext':
                return z3.simplify(z3.SignExt(tw - fw, a))
            return z3.simplify(z3.Extract(tw - 1, 0, a))
        if op == 'zext':
            return z3.simplify(self.unsigned(st, a, fw))
        if op == 'sext':
            x = self.signed(st, a, fw)
            return self.wrap(st, x, tw) if not SIGNED.get(tw, True) else x
        return self.wrap(st, a, tw)

    # ------------------------------------------------ execution
    def run(self, setup):
        """setup(eng, st) -> list of argument values"""
        t0 = time.time()
        it = 0
        # first pass, nothing is proved: which cells do the loops write, where do pointers move, in which constant steps
        self.shape_mode = self.bounded is None and bool(self.loopinfo)
        while True:
            it += 1
            if it > 400:
                raise Undecided('no fixpoint')
            self.failures = []
            self.obligations = {}
            self.reach = {}
            self.cov = []
            self.stats['paths'] = 0
            self.hit_handlers = {}
            global _fresh
            _fresh = itertools.count()
            st = State(self)
            self.old = None
            args = setup(self, st)
            for (pn, pt, fl), a in zip(self.f.params, args):
                st.regs[pn] = a
            self.old = st.copy()
            try:
                # vacuity: the precondition must be satisfiable
                st.block = self.f.order[0]
                self.explore(st)
                if self.shape_mode:
                    self.shape_mode = False
                    continue
                break
            except Restart:
                continue
        self.stats['iterations'] = it
        self.stats['wall'] = time.time() - t0
        return not self.failures

    def explore(self, st):
        work = [st]
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time budget exhausted')
            s = work.pop()
            self.stats['paths'] += 1
            if self.stats['paths'] > self.maxpaths:
                raise Undecided('too many paths')
            try:
                work.extend(self.step_block(s))
            except Dead:
                continue
            except Unsupported:
                if not self.shape_mode:
                    raise

    def enter(self, st, target):
        """control transfer st.block -> target; returns list of states to continue with"""
        st.prev, st.block = st.block, target
        st.path = st.path + (target,)
        # leave loops not containing target
        lp = st.loops
        while lp and target not in self.loopinfo[lp[-1][0]]:
            lp = lp[:-1]
        st.loops = lp
        if target in self.loopinfo:
            if self.bounded is not None or target in self.opens:
                n = st.unroll.get(target, 0)
                back = st.prev in self.loopinfo[target]
                n = n + 1 if back else 0
                st.unroll[target] = n
                lim = self.opens.get(target, self.bounded)
                if n > lim:
                    self.unwind_reached = True
                    return []
                self.phis(st)
                return [st]
            return self.loop_head(st, target)
        self.phis(st)
        return [st]

    def phis(self, st):
        new = {}
        for I in self.f.blocks[st.block]:
            if I.op != 'phi':
                break
            for v, l in I.x:
                if l == st.prev:
                    new[I.res] = self.op(st, v)
                    break
            else:
                raise Unsupported('phi')
        st.regs.update(new)

    def phi_insts(self, h):
        return [I for I in self.f.blocks[h] if I.op == 'phi']

    def trace(self, s):
        pass

    def loop_head(self, st, h):
        self.phis(st)
        back = bool(st.loops) and st.loops[-1][0] == h
        dropped = self.dropped.setdefault(h, set())
        if self.at_loop:
            self.at_loop(Ctx(self, st, st.loops[-1][1] if back else st, header=h))
        if back:
            init = st.loops[-1][1]
            ctx = Ctx(self, st, init, header=h)
            self.check_shape(st, init, h)
            if self.shape_mode:
                self.learn_deltas(st, init, h)
                return []
            fails = []
            need = set(st.loops[-1][2])
            cands = [(n, g) for n, g in self.candidates(ctx) if n not in dropped and n in need]
            self.prefetch(st.pc, [g for _, g in cands])
            for name, fm in cands:
                need.discard(name)
                r, _ = self.check(st.pc, fm, timeout=min(self.timeout, self.cand_ms), cand='auto' if AUTO.search(name) else True)
                if r != 'proved':
                    fails.append(name)
                    self.trace('%s preserve %s: %s (%s)' % (h, name, r, ' '.join(map(str, st.path[-4:]))))
            self.known = ()
            fails += sorted(need)      # assumed at the head but not expressible at the back edge
            if fails:
                dropped.update(fails)
                raise Restart()
            o = self.obligations.setdefault('loop invariant preserved', [0, 0.0])
            o[0] += 1
            return []
        # arrival from outside; an empty vector that gets its storage in the loop has it (empty) from here on
        for k, (r, key) in list(self.modified.get(h, {}).items()):
            cur, known = st.mem.get(k), self.phi_region.get((r.name, key))
            if isinstance(cur, Ptr) and cur.r is None and known is not None and known[0].name.startswith('data.') and not known[0].fam:
                st.mem[k] = Ptr(known[0], None, 0)
        init = st.copy()
        init.regs = dict(st.regs)
        ctx = Ctx(self, st, init, header=h)
        fails, holds = [], set()
        cands = [] if self.shape_mode else [(n, g) for n, g in self.candidates(ctx) if n not in dropped]
        self.prefetch(st.pc, [g for _, g in cands])
        for name, fm in cands:
            r, _ = self.check(st.pc, fm, timeout=min(self.timeout, self.cand_ms), cand='auto' if AUTO.search(name) else True)
            if r != 'proved':
                fails.append(name)
                self.trace('%s establish %s: %s (%s)' % (h, name, r, ' '.join(map(str, st.path[-4:]))))
            else:
                holds.add(name)
        self.known = ()
        if fails:
            dropped.update(fails)
            # no restart needed: assumptions made so far did not use them on this arrival
        o = self.obligations.setdefault('loop invariant established', [0, 0.0])
        o[0] += 1
        # havoc
        s = st.copy()
        for I in self.phi_insts(h):
            s.regs[I.res] = self.havoc_val(s, I.ty, st.regs[I.res], (h, I.res), I)
        for k, (r, key) in list(self.modified.get(h, {}).items()):
            s.mem[k] = self.havoc_cell(s, r, key, st.mem.get(k))
        ctx = Ctx(self, s, init, header=h)
        got = set()
        for name, fm in (() if self.shape_mode else self.candidates(ctx)):
            if name in holds:
                s.assume(fm)
                got.add(name)
        s.loops = s.loops + ((h, init, got),)
        if self.shape_mode:
            self.headvals[h] = {l: v for l, v, _ in self.scalars(s, init, h)}
        return [s]

    headvals = {}
    relevance = False   # try with the relevant hypotheses first
    cand_ms = 3000      # time for a candidate invariant
    at_loop = None      # ghost code of the contract, run on every arrival at a loop head

    def learn_deltas(self, st, init, h):
        D = self.deltas.setdefault(h, {})
        hv = self.headvals.get(h, {})
        for l, v, _ in self.scalars(st, init, h):
            if l in hv:
                d = num(v - hv[l])
                D[l] = d if D.get(l, d) == d else None

    def havoc_cell(self, s, r, key, cur):
        if cur is None and r.lazy and key[0] == 'f' and key[1] not in r.fixed and (r.name, key) not in s.mem:
            o = self.old
            if o is None or (r.name, key) not in o.mem:
                return UNDEF          # never read before the loop: any value
        if cur is None:
            cur = s.cell(r, key)
        if isinstance(cur, Ptr):
            return self.havoc_val(s, ir.PTR, cur, (r.name, key), None)
        if isinstance(cur, (Undef, Packed, Agg, FnPtr)):
            if isinstance(cur, Undef):
                return UNDEF
            raise Unsupported('havoc of %s' % type(cur))
        v = z3.Const(fresh_name('%s.%s' % (r.name, key[1])), cur.sort())
        kind = (r.fixed if key[0] == 'f' else r.fields).get(key[1])
        kind = kind[1] if kind else None
        if not r.fam and key[0] == 'f' and z3.is_int(v):
            w = int(kind[1:]) if isinstance(kind, str) and kind[0] == 'i' else 64
            lo, hi = rng(w)
            s.assume(And(v >= lo, v <= hi))
        return v

    def havoc_val(self, s, ty, cur, tag, I):
        if isinstance(cur, Undef) and ty.k == 'ptr':
            p = self.phi_region.get(tag)
            if p is None:
                return UNDEF
            cur = Ptr(p[0], IntVal(0) if p[0].fam else None, 0)
        if isinstance(cur, Ptr):
            known = self.phi_region.get(tag)
            r = cur.r
            if known is not None:
                r = known[0]
            if r is None:
                return NULL
            stride = r.stride or 1
            # the offset moves in steps of the region's stride unless observed otherwise
            mode = known[1] if known else 'const'
            rid = known[2] if known else 'const'
            id = cur.id
            if r.fam and (rid != 'const' or cur.r is None):
                id = Int(fresh_name('pid'))
                s.assume(id >= 0)
            off = cur.off
            if mode == 'stride':
                k = Int(fresh_name('pk'))
                base = num(cur.off)
                if r.start is not None:
                    off = r.start + stride * k
                    # keep the element-internal displacement
                    c, d = lin(cur.off - r.start)
                    dd = c % stride
                    off = z3.simplify(off + dd)
                else:
                    off = cur.off + k
            return Ptr(r, id, off)
        if isinstance(cur, Undef):
            return self.fresh(s, ty, 'h')
        if isinstance(cur, (Packed, Agg, FnPtr)):
            if isinstance(cur, Packed):
                return Packed([(o, z, self.fresh(s, ir.IntTy(8 * z), 'hp')) for o, z, v in cur.parts])
            raise Unsupported('havoc of aggregate')
        return self.fresh(s, ty, 'h') if not z3.is_real(cur) else z3.Real(fresh_name('h'))

    def check_shape(self, st, init, h):
        """pointer phis / pointer cells: the havocked shape must cover the value that comes round the back edge"""
        items = [((h, I.res), init.regs[I.res], st.regs[I.res]) for I in self.phi_insts(h) if I.ty.k == 'ptr']
        for k, (r, key) in self.modified.get(h, {}).items():
            a, b = init.mem.get(k), st.mem.get(k)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                items.append(((r.name, key), a, b))
        for tag, a, b in items:
            if isinstance(b, Undef):
                continue
            if not isinstance(b, Ptr):
                raise Unsupported('pointer phi is not a pointer')
            known = self.phi_region.get(tag)
            ar = a.r if isinstance(a, Ptr) else None
            r0 = known[0] if known else ar
            want = r0
            if b.r is not r0:
                if r0 is None and b.r is not None:
                    want = b.r
                elif b.r is None and r0.fam:
                    want = r0
                else:
                    raise Unsupported('pointer changes region in loop: %s vs %s' % (r0, b.r))
            if want is None:
                continue
            mode = known[1] if known else 'const'
            idm = known[2] if known else 'const'
            nm, ni = mode, idm
            if want.fam:
                if isinstance(a, Ptr) and a.r is want and b.r is want:
                    if not z3.is_true(z3.simplify(a.id == b.id)):
                        ni = 'fresh'
                else:
                    ni = 'fresh'
            if isinstance(a, Ptr) and a.r is want and b.r is want:
                if not z3.is_true(z3.simplify(a.off == b.off)):
                    nm = 'stride'
                    if want.start is not None:
                        c, d = lin(b.off - a.off)
                        if c % want.stride or any(q % want.stride for _, q in d.values()):
                            raise Unsupported('pointer stride')
            elif b.r is want and num(b.off) != 0:
                nm = 'stride'
            if (want, nm, ni) != (known or (ar, 'const', 'const')):
                self.phi_region[tag] = (want, nm, ni)
                raise Restart()

    # ------------------------------------------------ invariant candidates
    def scalars(self, st, init, h):
        """labelled integer quantities that change in loop h: (label, now, at loop entry)"""
        out = []
        for I in self.phi_insts(h):
            v, v0 = st.regs[I.res], init.regs[I.res]
            if I.ty.k == 'int' and I.ty.a > 1:
                if isinstance(v, (Undef, Packed)):
                    continue
                out.append(('%' + I.res, v, None if isinstance(v0, (Undef, Packed)) else v0))
            elif I.ty.k == 'ptr' and isinstance(v, Ptr) and v.r is not None and v.r.start is not None:
                i = self.pidx(v)
                i0 = self.pidx(v0) if isinstance(v0, Ptr) and v0.r is v.r else None
                if i is not None:
                    out.append(('%' + I.res, i, i0))
        for k, (r, key) in sorted(self.modified.get(h, {}).items(), key=lambda x: str(x[0])):
            v, v0 = st.mem.get(k), init.mem.get(k)
            if isinstance(v, Ptr):
                i = self.pidx(v)
                i0 = self.pidx(v0) if isinstance(v0, Ptr) and v0.r is v.r else None
                if i is not None:
                    out.append(('%s+%s' % (r.name, key[1]), i, i0))
            elif z3.is_expr(v) and z3.is_int(v):
                out.append(('%s+%s' % (r.name, key[1]), v, v0 if z3.is_expr(v0) else None))
        return out

    def pidx(self, p):
        if p.r is None or p.r.start is None:
            return None
        c, d = lin(p.off - p.r.start)
        f = c % p.r.stride
        if any(k % p.r.stride for _, k in d.values()):
            return None
        return unlin((c - f) // p.r.stride, {i: (t, k // p.r.stride) for i, (t, k) in d.items()})

    def outer_terms(self, st, h):
        """loop-invariant ints / pointer indices used inside the loop's comparisons"""
        body = self.loopinfo[h]
        defs = set()
        for b in body:
            for I in self.f.blocks[b]:
                if I.res:
                    defs.add(I.res)
        out = {}
        for b in body:
            for I in self.f.blocks[b]:
                if I.op in ('icmp', 'sub', 'add'):
                    for a in I.args:
                        if a[0] == 'l' and a[1] not in defs and a[1] in st.regs:
                            v = st.regs[a[1]]
                            if isinstance(v, Ptr):
                                i = self.pidx(v)
                                if i is not None:
                                    out['%' + a[1]] = (i, v.r)
                            elif z3.is_expr(v) and z3.is_int(v) and num(v) is None:
                                out['%' + a[1]] = (v, None)
        return out

    def candidates(self, ctx):
        seen = set()
        if self.auto:
            for n, f in self.auto_candidates(ctx):
                if n not in seen:
                    seen.add(n)
                    yield n, f
        for n, f in self.inv(ctx):
            if n not in seen:
                seen.add(n)
                yield n, f

    def auto_candidates(self, ctx):
        st, init, h = ctx.st, ctx.init, ctx.header
        sc = self.scalars(st, init, h)
        ptrs = {}
        for I in self.phi_insts(h):
            v = st.regs[I.res]
            if I.ty.k == 'ptr' and isinstance(v, Ptr) and v.r is not None:
                ptrs['%' + I.res] = v
        for l, v, v0 in sc:
            yield l + '>=0', v >= 0
            if v0 is not None:
                yield l + '>=init', v >= v0
                yield l + '<=init', v <= v0
            if l in ptrs and ptrs[l].r.length:
                yield l + '<=len', v <= ptrs[l].r.length(st, ptrs[l].id)
        ot = self.outer_terms(st, h)
        for l, v, v0 in sc:
            for n, (t, r) in ot.items():
                if r is not None and (l not in ptrs or ptrs[l].r is not r):
                    continue
                yield '%s<=%s' % (l, n), v <= t
                yield '%s>=%s' % (l, n), v >= t
        D = self.deltas.get(h, {})
        for i, (l, v, v0) in enumerate(sc):
            if D.get(l) and abs(D[l]) > 1 and v0 is not None:
                yield l + ' step', (v - v0) % abs(D[l]) == 0
            for (m, w, w0) in sc[:i]:
                if v0 is not None and w0 is not None:
                    if D.get(l) and D.get(m):
                        a, b = D[l], D[m]
                        yield '%s/%s lockstep' % (l, m), (v - v0) * b == (w - w0) * a
                    else:
                        yield '%s-%s lockstep' % (l, m), v - v0 == w - w0
                        yield '%s+%s lockstep' % (l, m), v - v0 == w0 - w
                yield '%s<=%s' % (l, m), v <= w
                yield '%s>=%s' % (l, m), v >= w

    # ------------------------------------------------ one block
    def step_block(self, st):
        blk = self.f.blocks[st.block]
        i = 0
        for i, I in enumerate(blk):
            if I.op == 'phi':
                continue
            r = self.step(st, I)
            if r is not None:
                return r
        raise Unsupported('block without terminator')

    def fork(self, st, cond, a, b):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return self.enter(st, a)
        if z3.is_false(c):
            return self.enter(st, b)
        s1, s2 = st, st.copy()
        out = []
        s2.assume(Not(c))
        s1.assume(c)
        f2 = self.feasible(s2)
        f1 = self.feasible(s1)
        if f2:
            out += self.enter(s2, b)
        if f1:
            out += self.enter(s1, a)
        return out

    def merge_val(self, c, a, b):
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        return z3.simplify(If(c, a, b))

    def step(self, st, I):
        op = I.op
        if op in ('br',):
            if len(I.x) == 1:
                return self.enter(st, I.x[0])
            c = self.op(st, I.args[0])
            if isinstance(c, Undef):
                c = z3.Bool(fresh_name('undefbr'))
            if I.x[0] == I.x[1]:
                return self.enter(st, I.x[0])
            return self.fork(st, c, I.x[0], I.x[1])
        if op == 'switch':
            v = self.op(st, I.args[0])
            d, cases = I.x
            out = []
            w = I.args[0][2].a
            rest = []
            for cv, lab in cases:
                e = v == self.const(cv, w)
                s = st.copy()
                s.assume(e)
                rest.append(Not(e))
                if self.feasible(s):
                    out += self.enter(s, lab)
            for e in rest:
                st.assume(e)
            if self.feasible(st):
                out += self.enter(st, d)
            return out
        if op == 'ret':
            rv = self.op(st, I.args[0]) if I.args else None
            self.finish(st, rv)
            return []
        if op == 'unreachable':
            # reached only if the code falls off the end of a value-returning function (UB)
            if self.feasible(st):
                self.safety_ob(st, 'no fall-through / unreachable code', BoolVal(False))
            return []
        if op == 'resume':
            return []
        if op == 'landingpad':
            st.regs[I.res] = Agg([NULL, self.const(0, 32)])
            return None
        if op in ir.BIN:
            a, b = self.op(st, I.args[0]), self.op(st, I.args[1])
            if op[0] == 'f':
                st.regs[I.res] = z3.Real(fresh_name('fp'))      # floating point is not interpreted
            else:
                st.regs[I.res] = self.arith(st, op, a, b, I.ty.a, I.x)
            return None
        if op == 'fneg':
            st.regs[I.res] = -self.op(st, I.args[0])
            return None
        if op in ir.CAST:
            st.regs[I.res] = self.cast(st, op, self.op(st, I.args[0]), I.args[0][2], I.ty)
            return None
        if op == 'freeze':
            v = self.op(st, I.args[0])
            st.regs[I.res] = self.fresh(st, I.ty, 'fr') if isinstance(v, Undef) else v
            return None
        if op == 'icmp':
            st.regs[I.res] = z3.simplify(self.icmp(st, I.x[0], I.x[1], self.op(st, I.args[0]), self.op(st, I.args[1])))
            return None
        if op == 'fcmp':
            a, b = self.op(st, I.args[0]), self.op(st, I.args[1])
            p = I.x[0]
            st.regs[I.res] = z3.Bool(fresh_name('fcmp'))      # floating point is not interpreted
            return None
        if op == 'alloca':
            t, n = I.x
            name = 'alloca.' + I.res
            if n is not None and num(self.op(st, n)) != 1:
                raise Unsupported('dynamic alloca')
            r = Region(name, lazy=True)
            rt = self.mod.resolve(t)
            r.ty = t
            if name in self.regions:
                r = self.regions[name]
            elif self.array_allocas and rt.k == 'arr' and self.mod.resolve(rt.b).k == 'int':
                sz, cnt = self.mod.size(rt.b), rt.a
                r = Region(name, start=0, stride=sz, fields={0: (sz, 'i%d' % (8 * sz))})
                r.length = lambda s, id: IntVal(cnt)
            self.regions[name] = r
            st.regs[I.res] = Ptr(r, None, 0)
            return None
        if op == 'load':
            p = self.op(st, I.args[0])
            st.regs[I.res] = self.load(st, p, I.ty)
            return None
        if op == 'store':
            self.store(st, self.op(st, I.args[1]), self.op(st, I.args[0]), I.args[0][2])
            return None
        if op == 'getelementptr':
            st.regs[I.res] = self.gep(st, I.x, self.op(st, I.args[0]), I.args[1:])
            return None
        if op == 'select':
            c, a, b = [self.op(st, x) for x in I.args]
            if isinstance(c, Undef):
                c = z3.Bool(fresh_name('undefsel'))
            c = z3.simplify(c)
            if z3.is_true(c):
                st.regs[I.res] = a
            elif z3.is_false(c):
                st.regs[I.res] = b
            elif isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not None:
                    st.regs[I.res] = Ptr(a.r, None if a.id is None else z3.simplify(If(c, a.id, b.id)), z3.simplify(If(c, a.off, b.off)))
                else:
                    return self.select_fork(st, I, c, a, b)
            elif self.fork_selects or isinstance(a, (Packed, Agg)) or isinstance(b, (Packed, Agg)):
                return self.select_fork(st, I, c, a, b)
            else:
                st.regs[I.res] = self.merge_val(c, a, b)
            return None
        if op in ('call', 'invoke'):
            return self.call(st, I)
        if op == 'extractvalue':
            v = self.op(st, I.args[0])
            if isinstance(v, Undef):
                st.regs[I.res] = UNDEF
                return None
            for i in I.x:
                v = v.vals[i]
            st.regs[I.res] = v
            return None
        if op == 'insertvalue':
            v = self.op(st, I.args[0])
            n = len(self.mod.resolve(I.ty).a) if self.mod.resolve(I.ty).k == 'struct' else self.mod.resolve(I.ty).a
            vals = list(v.vals) if isinstance(v, Agg) else [UNDEF] * n
            if len(I.x) != 1:
                raise Unsupported('nested insertvalue')
            vals[I.x[0]] = self.op(st, I.args[1])
            st.regs[I.res] = Agg(vals)
            return None
        raise Unsupported('instruction ' + I.text)

    def select_fork(self, st, I, c, a, b):
        blk = self.f.blocks[st.block]
        pos = blk.index(I)
        out = []
        for cond, v in ((c, a), (Not(c), b)):
            s = st.copy()
            s.assume(cond)
            if not self.feasible(s):
                continue
            s.regs[I.res] = v
            out += self.cont(s, pos + 1)
        return out

    def cont(self, s, pos):
        """continue in the middle of the current block"""
        try:
            for J in self.f.blocks[s.block][pos:]:
                r = self.step(s, J)
                if r is not None:
                    return r
        except Dead:
            return []
        raise Unsupported('block end')

    def call(self, st, I):
        callee, normal, unwind = I.x
        if callee[0] == 'l':
            v = st.regs[callee[1]]
            name = v.name if isinstance(v, FnPtr) else '<indirect>'
            if not isinstance(v, FnPtr):
                name = 'indirect'
        else:
            name = callee[1]
        if name.startswith('llvm.'):
            r = self.intrinsic(st, I, name)
        else:
            args = [self.op(st, a) for a in I.args]
            dn = self.demangle.get(name, name)
            for rx, fn in self.handlers:
                if rx.search(dn) or rx.search(name):
                    self.hit_handlers[rx.pattern] = self.hit_handlers.get(rx.pattern, 0) + 1
                    r = fn(self, st, args, I)
                    break
            else:
                if name in ('__cxa_begin_catch', '__cxa_end_catch', '__clang_call_terminate', '_ZSt9terminatev'):
                    r = NULL if I.res else None
                elif name == '__cxa_throw' or name.startswith('_ZSt') and '__throw_' in name:
                    self.throw(st, name)
                    return []
                elif name in ('__cxa_allocate_exception',):
                    r = Ptr(self.region(fresh_name('exc'), lazy=True))
                else:
                    raise Unsupported('call to %s' % dn)
        if isinstance(r, list):      # handler forks: [(state, value)]
            out = []
            blk = self.f.blocks[st.block]
            pos = blk.index(I)
            for s, v in r:
                if not self.feasible(s):
                    continue
                if I.res:
                    s.regs[I.res] = v
                out += self.enter(s, normal) if normal else self.cont(s, pos + 1)
            return out
        if I.res:
            if r is None:
                r = UNDEF
            st.regs[I.res] = r
        if normal:
            return self.enter(st, normal)
        return None

    def throw(self, st, name):
        if self.shape_mode:
            return
        if self.on_throw:
            self.on_throw(self, st, name)
        elif self.feasible(st):
            self.oblige(st, 'no exception escapes', BoolVal(False))

    def finish(self, st, rv):
        # the path must be reachable for the postcondition to mean anything
        self.reach['return'] = self.reach.get('return', 0) + 1
        if self.shape_mode:
            return
        if len([x for x in self.cov if x]) < 2 and len(self.cov) < 12:
            # vacuity: 'post: false' must not be provable here
            s = self.solver(st.pc, 1500)
            self.cov.append(s.check() != z3.unsat)
        ctx = Ctx(self, st, None, ret=rv)
        if not self.parallel:
            for name, goal in self.post(ctx):
                self.oblige(st, 'post: ' + name, goal)
        else:
            self.oblige_all(st, [('post: ' + n, g) for n, g in self.post(ctx)])

    def intrinsic(self, st, I, name):
        A = I.args
        if re.match(r'llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|prefetch|donothing|sideeffect|stacksave|stackrestore)', name):
            if name.startswith('llvm.assume'):
                pass
            return NULL if I.res else None
        v = None
        if re.match(r'llvm\.(u|s)(max|min)\.', name):
            a, b = self.op(st, A[0]), self.op(st, A[1])
            g = self.icmp(st, ('u' if name[5] == 'u' else 's') + ('gt' if 'max' in name else 'lt'), I.ty, a, b)
            return z3.simplify(If(g, a, b))
        if name.startswith('llvm.abs.'):
            a = self.op(st, A[0])
            if self.bv:
                return z3.simplify(If(a < 0, -a, a))
            return self.wrap(st, If(a < 0, -a, a), I.ty.a)
        if name.startswith('llvm.expect'):
            return self.op(st, A[0])
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma.') or name.startswith('llvm.fabs'):
            return z3.Real(fresh_name('fp'))
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s = self.op(st, A[0]), self.op(st, A[1])
            n = num(self.op(st, A[2]))
            self.memcpy(st, d, s, n, self.op(st, A[2]))
            return None
        if name.startswith('llvm.memset'):
            d, b = self.op(st, A[0]), num(self.op(st, A[1]))
            n = num(self.op(st, A[2]))
            self.memset(st, d, b, n, self.op(st, A[2]))
            return None
        if name.startswith('llvm.ctpop') and self.bv:
            a = self.op(st, A[0])
            w = a.size()
            return z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)]))
        if name.startswith('llvm.fshl') and self.bv:
            a, b, c = [self.op(st, x) for x in A]
            return z3.simplify((a << (c % a.size())) | z3.LShR(b, (a.size() - c) % a.size())) if num(c) is None or num(c) % a.size() else a
        if name.startswith('llvm.fabs'):
            a = self.op(st, A[0])
            return If(a < 0, -a, a)
        if name.startswith('llvm.eh.typeid'):
            return self.const(1, 32)
        if name.startswith('llvm.trap'):
            self.safety_ob(st, 'no trap', BoolVal(False))
            raise Dead()
        if re.match(r'llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow', name):
            a, b = self.op(st, A[0]), self.op(st, A[1])
            w = A[0][2].a
            if self.bv:
                raise Unsupported(name)
            if name[5] == 'u':
                a1, b1 = self.unsigned(st, a, w), self.unsigned(st, b, w)
                lo, hi = 0, (1 << w) - 1
            else:
                a1, b1 = a, b
                lo, hi = rng(w)
            e = a1 + b1 if 'add' in name else a1 - b1 if 'sub' in name else a1 * b1
            return Agg([self.wrap(st, e, w), Not(And(e >= lo, e <= hi))])
        raise Unsupported('intrinsic ' + name)

    def memcpy(self, st, d, s, n, nterm):
        if n is None:
            return self.array_copy(st, d, s, nterm)
        if n == 0:
            return
        cells = self.cells_at(st, s, n)
        if cells is None:
            cells = self.cells_at(st, d, n)
        if cells is None:
            raise Unsupported('memcpy of untyped memory')
        vals = []
        for o, sz in cells:
            ty = self.cellty(st, s, o, sz)
            sp = Ptr(s.r, s.id, z3.simplify(s.off + o))
            if s.r.lazy and (s.r.name, ('f', num(sp.off))) not in st.mem:
                vals.append((o, ty, UNDEF))
            else:
                vals.append((o, ty, self.load(st, sp, ty)))
        for o, ty, v in vals:
            if isinstance(v, Ptr):
                ty = ir.PTR
            self.store(st, Ptr(d.r, d.id, z3.simplify(d.off + o)), v, ty)

    def array_update(self, st, r, id, f, lo, cnt, fn):
        cur = st.cell(r, ('a', f))
        a = Select(cur, id) if r.fam else cur
        na = z3.Const(fresh_name(r.name + '.upd'), a.sort())
        if self.bounded is not None:
            N = self.bounded + 4
            st.assume(And([na[k] == If(And(IntVal(k) >= lo, IntVal(k) < lo + cnt), fn(IntVal(k), a), a[k]) for k in range(N)]))
        else:
            k = Int(fresh_name('u'))
            st.assume(ForAll([k], na[k] == If(And(k >= lo, k < lo + cnt), fn(k, a), a[k]), patterns=[na[k]]))
        st.setcell(r, ('a', f), Store(cur, id, na) if r.fam else na)

    def array_copy(self, st, d, s, nterm):
        if d.r is None or s.r is None or d.r.start is None or s.r.start is None or d.r.stride != s.r.stride or set(d.r.fields) != set(s.r.fields):
            raise Unsupported('memcpy of symbolic size')
        lo, so, cnt = self.pidx(d), self.pidx(s), exdiv(nterm, d.r.stride)
        if lo is None or so is None or cnt is None:
            raise Unsupported('unaligned memcpy')
        self.safety_ob(st, 'memcpy in bounds', And(lo >= 0, so >= 0, cnt >= 0, lo + cnt <= d.r.length(st, d.id), so + cnt <= s.r.length(st, s.id)))
        for f in d.r.fields:
            src = st.cell(s.r, ('a', f))
            src = Select(src, s.id) if s.r.fam else src
            self.array_update(st, d.r, d.id, f, lo, cnt, lambda k, old: src[k - lo + so])

    def cellty(self, st, p, o, sz):
        return ir.IntTy(8 * sz) if sz != 'p' else ir.PTR

    def cells_at(self, st, p, n):
        r = p.r
        off = num(p.off)
        out = []
        if r.start is not None and (off is None or off >= r.start):
            c, d = lin(p.off - r.start)
            f0 = c % r.stride
            for base in range(0, n + r.stride, r.stride):
                for f, (sz, kind) in sorted(r.fields.items()):
                    o = base + f - f0
                    if 0 <= o < n:
                        out.append((o, 'p' if isinstance(kind, (PK, VK)) or kind == 'ptr' else sz))
            return out
        if off is None:
            return None
        if r.lazy:
            ks = [k for (rn, k) in st.mem if rn == r.name and k[0] == 'f' and off <= k[1] < off + n]
            if not ks:
                return None
            for k in sorted(ks):
                v = st.mem[(r.name, k)]
                if isinstance(v, Ptr):
                    sz = 'p'
                elif isinstance(v, Packed):
                    sz = sum(x[1] for x in v.parts)
                elif z3.is_expr(v) and z3.is_bv(v):
                    sz = v.size() // 8
                else:
                    nxt = [k2[1] for k2 in ks if k2[1] > k[1]]
                    sz = (min(nxt) if nxt else off + n) - k[1]
                    sz = {1: 1, 2: 2, 4: 4}.get(sz, 8 if sz >= 8 else 4)
                out.append((k[1] - off, sz))
            return out
        for o, (sz, kind) in sorted(r.fixed.items()):
            if off <= o < off + n:
                v = st.mem.get((r.name, ('f', o)))
                out.append((o - off, 'p' if isinstance(kind, (PK, VK)) or kind == 'ptr' or isinstance(v, Ptr) else sz))
        return out

    def memset(self, st, d, b, n, nterm):
        if b is None:
            raise Unsupported('memset of symbolic value')
        r = d.r
        if n is None:
            if r.start is None:
                raise Unsupported('memset of symbolic size')
            lo, cnt = self.pidx(d), exdiv(nterm, r.stride)
            if lo is None or cnt is None:
                raise Unsupported('unaligned memset')
            self.safety_ob(st, 'memset in bounds', And(lo >= 0, cnt >= 0, lo + cnt <= r.length(st, d.id)))
            for f, (sz, kind) in r.fields.items():
                if isinstance(kind, (PK, VK)) and b != 0 or kind == 'f64' and b != 0:
                    raise Unsupported('memset of pointers')
                v = z3.RealVal(0) if kind == 'f64' else BoolVal(bool(b)) if kind == 'bool' else self.const(int.from_bytes(bytes([b]) * sz, 'little'), 8 * sz)
                self.array_update(st, r, d.id, f, lo, cnt, lambda k, old: v)
            return
        if r.lazy:
            t = getattr(r, 'ty', None)
            if t is None:
                raise Unsupported('memset of untyped memory')
            off = num(d.off)
            for o, lt in self.mod.leaves(t):
                if off <= o < off + n:
                    if lt.k == 'ptr':
                        self._lazyset(st, r, ('f', o), NULL)
                    elif lt.k == 'int':
                        self._lazyset(st, r, ('f', o), self.const(int.from_bytes(bytes([b]) * self.mod.size(lt), 'little'), lt.a))
                    else:
                        self._lazyset(st, r, ('f', o), z3.RealVal(0))
            return
        for o, sz in self.cells_at(st, d, n):
            if sz == 'p':
                self.store(st, Ptr(r, d.id, z3.simplify(d.off + o)), NULL, ir.PTR)
            else:
                self.store(st, Ptr(r, d.id, z3.simplify(d.off + o)), self.const(int.from_bytes(bytes([b]) * sz, 'little'), 8 * sz), ir.IntTy(8 * sz))


class Dead(Exception):
    pass
