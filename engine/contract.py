"""Contracts: registration, checking one of them against /repo's current source, and the verdict."""
import os, re, time, traceback, hashlib
import z3
import build, sym, ir, lib
from sym import Engine, Unsupported, Undecided

REG = {}


def contract(cls):
    assert cls.name not in REG, cls.name
    REG[cls.name] = cls
    return cls


class Contract:
    prop = None          # property id
    name = None
    tu = None            # harness/<tu>.cc : pulls in /repo's sources and exports the root
    root = None          # exported wrapper; everything below it is the repository's code
    says = ''            # the contract in words
    noinline = []        # regexes of callees kept as calls (checked against their own contract, or assumed)
    handlers = []        # (regex, fn, label) label: 'by contract <name>' or a trusted assumption
    stl = True
    bv = False
    bound = 3
    timeout = 8000
    budget = 150
    unroll = {}
    safety = True
    allow_throw = False
    assumes = ()         # mathematical facts and preconditions the proof takes for granted
    only_bounded = False  # the deductive route is out of reach: labelled bounded
    maxpaths = 20000
    dets = None

    def __init__(self, E):
        self.E = E

    def setup(self, st):
        return []

    cand_ms = 3000
    tier = 'quick'       # 'thorough': too slow for the quick check
    at_loop = None       # ghost code, run on every arrival at a loop head

    def inv(self, ctx):
        return ()

    def post(self, ctx):
        return ()

    def on_throw(self, E, st, name):
        pass


def offsets(ll):
    t = open(ll).read()
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'^@(OFF_\w+|SZ_\w+|K_\w+) = .*constant (?:\{ i64, i64 \} \{ )?i64 (\d+)', t, re.M)}


def reach_functions(ll, root, skip):
    """names of the repository functions whose bodies the contract covers (call graph below the root, stopping at kept calls)"""
    t = open(ll).read()
    bodies = {}
    for m in re.finditer(r'^define [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\(.*?^}', t, re.M | re.S):
        bodies[m.group(1).strip('"')] = m.group(0)
    seen, work = {root}, [root]
    while work:
        f = work.pop()
        for m in re.finditer(r'(?:call|invoke) [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\(', bodies.get(f, '')):
            g = m.group(1).strip('"')
            if g in bodies and g not in seen:
                seen.add(g)
                work.append(g)
    dm = build.demangle(sorted(seen))
    out = []
    for g in sorted(seen):
        d = dm[g]
        if any(re.search(r, d) for r in skip):
            continue
        if g != root and not re.match(r'(void |bool )?(std::|__gnu|operator|decltype|.* std::|__)', d):
            out.append(re.sub(r'\s+', ' ', d)[:160])
    return out


def one(cls, ll, outdir, bounded, budget):
    noin = list(cls.noinline) + (lib.STL_NOINLINE if cls.stl else [])
    root = build.resolve(ll, cls.root)
    if root is None:
        raise Unsupported('the function is not there: ' + cls.root)
    m, dm = build.slice_ir(ll, root, noin, outdir)
    E = Engine(m, root, timeout=cls.timeout, bounded=bounded, bv=cls.bv)
    E.demangle = dm
    E.offs = offsets(ll)
    E.deadline = time.time() + budget
    E.maxpaths = cls.maxpaths
    E.safety = cls.safety
    E.cand_ms = cls.cand_ms
    c = cls(E)
    hs = list(cls.handlers) + (lib.STL if cls.stl else [])
    E.handlers = [(re.compile(r), (lambda fn: (lambda e, s, a, i: fn(c, e, s, a, i)) if getattr(fn, 'method', False) else fn)(fn)) for r, fn, _ in hs]
    labels = {re.compile(r).pattern: l for r, _, l in hs}
    for h in E.loopinfo:
        pass
    E.inv, E.post, E.at_loop = c.inv, c.post, c.at_loop
    if cls.allow_throw:
        E.on_throw = c.on_throw
    if cls.unroll:
        if '*' in cls.unroll:
            for h in E.loopinfo:
                E.opens[h] = cls.unroll['*']
    E.cov = []
    E.run(lambda e, st: c.setup(st))
    return E, labels


def method(fn):
    fn.method = True
    return fn


def model_text(E, m):
    if m is None:
        return 'no model'
    out = []
    try:
        for d in sorted(m.decls(), key=lambda d: d.name()):
            s = str(m[d]).replace('\n', ' ')
            out.append('%s = %s' % (d.name(), s[:300]))
    except Exception as e:
        out.append(repr(e))
    return '\n'.join(out[:200])


def check(name, ll, outdir, tier='quick'):
    cls = REG[name]
    t0 = time.time()
    R = dict(name=name, prop=cls.prop, says=' '.join(cls.says.split()), root=cls.root, status=None, obligations=0, discharged=0, detail='', failed=[], wall=0,
             solver_s=0, queries=0, trusted=[], functions=[], bound=None, named={}, by={})
    os.makedirs(outdir, exist_ok=True)
    budget = cls.budget * (3 if tier == 'thorough' else 1)
    try:
        R['functions'] = reach_functions(ll, build.resolve(ll, cls.root), [r for r, _, _ in cls.handlers])
    except Exception as e:
        R['detail'] += 'call graph: %r; ' % e

    def absorb(E, labels):
        R['obligations'] += sum(v[0] for v in E.obligations.values())
        R['solver_s'] += E.stats['time']
        R['queries'] += E.stats['queries']
        for k, v in E.stats.get('by', {}).items():
            R['by'][k] = R['by'].get(k, 0) + v
        R['trusted'] = sorted({labels[p] for p in E.hit_handlers})
        for k, v in E.obligations.items():
            R['named'][k] = R['named'].get(k, 0) + v[0]

    proof = False
    why = ''
    if not cls.only_bounded:
        try:
            E, labels = one(cls, ll, outdir, None, budget)
            absorb(E, labels)
            nf = len(E.failures)
            R['discharged'] = R['obligations'] - nf
            if not nf and not E.unwind_reached:
                if R['obligations'] == 0 or not E.reach.get('return') and not cls.allow_throw:
                    why = 'vacuous: no obligation or no return path'
                elif not any(E.cov):
                    why = 'vacuous: no return path is satisfiable'
                else:
                    proof = True
            else:
                seen = []
                for f in E.failures:
                    if (f.name, f.result) not in seen:
                        seen.append((f.name, f.result))
                why = 'not discharged: ' + '; '.join('%s (%s)' % x for x in seen[:6]) + (' unwinding limit' if E.unwind_reached else '')
                # a loop-free function whose obligation has a concrete model needs no bounded run
                if not E.loopinfo and any(f.result == 'refuted' for f in E.failures):
                    f = [f for f in E.failures if f.result == 'refuted'][0]
                    R['status'] = 'refuted'
                    R['failed'] = ['%s (%s)' % x for x in seen]
                    R['model'] = model_text(E, f.detail)
        except (Unsupported, Undecided, build.BuildError) as e:
            why = '%s: %s' % (type(e).__name__, str(e)[:400])
        except z3.Z3Exception as e:
            why = 'z3: %s' % str(e)[:300]
        except Exception as e:
            why = 'engine: ' + traceback.format_exc()[-700:]
    if proof:
        R['status'] = 'proved'
    elif R['status'] != 'refuted' and not cls.bound:
        R['status'] = 'undecided'
    elif R['status'] != 'refuted':
        bud = min(budget, 120)
        try:
            E, labels = one(cls, ll, outdir, cls.bound, bud)
            absorb(E, labels)
            R['bound'] = cls.bound
            ref = [f for f in E.failures if f.result == 'refuted']
            if ref:
                R['status'] = 'refuted'
                R['failed'] = sorted({'%s (%s)' % (f.name, f.result) for f in ref})
                R['model'] = model_text(E, ref[0].detail)
                R['where'] = ref[0].where
            elif E.failures:
                R['status'] = 'undecided'
                why += ' | bounded: ' + '; '.join(sorted({'%s (%s)' % (f.name, f.result) for f in E.failures})[:4])
            elif not any(E.cov):
                R['status'] = 'undecided'
                why += ' | bounded: vacuous'
            else:
                R['status'] = 'bounded'
                R['discharged'] = 0
        except Exception as e:
            R['status'] = 'undecided'
            why += ' | bounded: %s: %s' % (type(e).__name__, str(e)[:300] if isinstance(e, (Unsupported, Undecided)) else traceback.format_exc()[-500:])
    R['detail'] += why
    R['wall'] = round(time.time() - t0, 2)
    R['solver_s'] = round(R['solver_s'], 2)
    return R
