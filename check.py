#!/usr/bin/env python3-vt
"""check.py ID : decide property ID on /repo's current working tree."""
import sys, os, re, json, time, shutil, tempfile, subprocess, importlib, multiprocessing, hashlib, glob, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/engine', V + '/contracts']
sys.dont_write_bytecode = True
import build, contract
from concurrent.futures import ThreadPoolExecutor

REPO = build.REPO
NCPU = os.cpu_count() or 4
CXX = ['g++-10', '-std=c++14', '-w', '-DNDEBUG', '-msse4.1', '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', '-DCANDY_HAVE_RLIMIT', '-DDEBUG_CHECK_CASTS',
       '-D_GLIBCXX_ASSERTIONS', '-pthread', '-I' + REPO + '/src', '-I' + REPO + '/lib', '-I' + REPO + '/lib/oscpack', '-I' + V + '/native']


def load_contracts():
    for f in sorted(os.listdir(V + '/contracts')):
        if re.match(r'c\d\d\w*\.py$', f):
            importlib.import_module(f[:-3])


def props():
    return {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}


# ------------------------------------------------------------------ native side
def native_spec(pid):
    """first lines of native/<id>.cc may carry  // opt: key=value"""
    src = V + '/native/%s.cc' % pid.lower()
    if not os.path.exists(src):
        return None
    o = dict(src=src, asan='0', time='240', opt='-O1', lib='all')
    for ln in open(src).read().split('\n')[:6]:
        m = re.match(r'// opt: (.*)', ln)
        if m:
            o.update(x.split('=', 1) for x in m.group(1).split())
    return o


def run(cmd, timeout, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **k)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', ''


def build_native(o, tmp):
    fl = CXX + [o['opt']] + (['-fsanitize=address', '-fno-omit-frame-pointer'] if o['asan'] == '1' else [])
    if o['lib'] == 'all':
        srcs = [s for pat in ('cc', 'cpp') for s in glob.glob(REPO + '/src/candy/**/*.' + pat, recursive=True)]
        srcs = [s for s in srcs if not re.search(r'/(Main|FuzzIpasir|cnf2aig)\.cc$|/sonification/', s)]
    elif o['lib'] == 'none':
        srcs = []
    else:
        srcs = [REPO + '/src/candy/' + s for s in o['lib'].split(',')]
    jobs = [(s, '%s/%s.o' % (tmp, re.sub(r'\W', '_', os.path.relpath(s, REPO))), []) for s in srcs]
    drv = (o['src'], tmp + '/driver.o', ['-fno-access-control'])

    def comp(j):
        return j, run(fl + j[2] + ['-c', j[0], '-o', j[1]], 400)
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(comp, [drv] + sorted(jobs, key=lambda j: 'CandyBuilder' not in j[0])))
    for j, (rc, out) in res:
        if rc != 0:
            return None, 'compilation of %s failed: %s' % (j[0], out[-1500:])
    rc, out = run(fl + [drv[1]] + [j[1] for j in jobs] + ['-o', tmp + '/driver', '-lz', '-Wl,--allow-multiple-definition'], 300)
    if rc != 0:
        rc, out = run(fl + [drv[1]] + [j[1] for j in jobs] + ['-o', tmp + '/driver', '-Wl,--allow-multiple-definition'], 300)
    if rc != 0:
        return None, 'linking failed: ' + out[-1500:]
    return tmp + '/driver', ''


def run_native(pid, tmp, seed, tier):
    o = native_spec(pid)
    if o is None:
        return None
    d = tmp + '/native'
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    exe, err = build_native(o, d)
    N = dict(built=exe is not None, detail=err, fails=[], evaluations=0, distinct=0, samples=[], rule='', wall=0, known=[], parts={})
    if exe is None:
        return N
    work = d + '/work'
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', REPO=REPO)
    lim = int(o['time']) * (3 if tier == 'thorough' else 1)
    rc, out = run([exe, str(seed), tier], lim, cwd=work, env=env)
    N['wall'] = round(time.time() - t0, 1)
    ended = False
    for ln in out.split('\n'):
        m = re.match(r'(FAIL|KNOWN|SAMPLE|RULE|COUNT|PART|END)\b ?(.*)', ln)
        if not m:
            continue
        k, x = m.groups()
        if k == 'FAIL':
            N['fails'].append(x)
        elif k == 'KNOWN':
            N['known'].append(x)
        elif k == 'SAMPLE':
            N['samples'].append(x)
        elif k == 'RULE':
            N['rule'] = x
        elif k == 'COUNT':
            a, b = x.split()
            N['evaluations'], N['distinct'] = int(a), int(b)
        elif k == 'PART':
            a, b = x.rsplit(' ', 1)
            N['parts'][a] = int(b)
        elif k == 'END':
            ended = True
    if rc == 'timeout':
        N['detail'] = 'native driver did not finish in %d s' % lim
        N['timeout'] = True
    elif not ended and not N['fails']:
        last = [l for l in out.split('\n') if l.strip()][-12:]
        case = [l for l in out.split('\n') if l.startswith('CASE ')][-1:]
        N['fails'].append('the code under test crashed (exit %s): %s' % (rc, ' | '.join(case + last)[:1500]))
    N['cmd'] = '%s %s %s' % (os.path.relpath(o['src'], V), seed, tier)
    return N


# ------------------------------------------------------------------ contracts
def one_contract(a):
    name, ll, outdir, tier = a
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception:
        pass
    return contract.check(name, ll, outdir, tier)


def worker(a, q):
    try:
        q.put(one_contract(a))
    except BaseException as e:
        q.put(dict(name=a[0], status='undecided', detail='worker: %r' % e))


def run_contracts(names, lls, tmp, tier, deadline, fut=None):
    """one process per contract, at most NCPU at a time; a contract that overruns is undecided"""
    todo = sorted(names, key=lambda n: -contract.REG[n].budget)
    live, res = [], {}
    while todo or live:
        while todo and len(live) < NCPU:
            n = todo.pop(0)
            ll = lls[contract.REG[n].tu]
            if isinstance(ll, str) and ll.startswith('ERR:'):
                res[n] = dict(name=n, status='undecided', detail='extraction failed: ' + ll[4:])
                continue
            q = multiprocessing.Queue()
            p = multiprocessing.Process(target=worker, args=((n, ll, '%s/c/%s' % (tmp, n), tier), q))
            p.start()
            b = contract.REG[n].budget * (3 if tier == 'thorough' else 1)
            live.append((n, p, q, min(deadline, time.time() + b + min(b, 120) + 60)))
        nl = []
        if fut is not None and fut.done():
            nat, fut = fut.result(), None
            if nat and nat['fails'] and tier == 'quick':
                # a failing input is at hand: what is still open may use two more minutes
                deadline = min(deadline, time.time() + 120)
                live = [(n, p, q, min(dl, deadline)) for n, p, q, dl in live]
        for n, p, q, dl in live:
            try:
                res[n] = q.get_nowait()
                p.join(5)
                continue
            except Exception:
                pass
            if not p.is_alive():
                try:
                    res[n] = q.get(timeout=1)
                except Exception:
                    res[n] = dict(name=n, status='undecided', detail='worker died (memory?)')
            elif time.time() > dl:
                p.kill()
                res[n] = dict(name=n, status='undecided', detail='time limit')
            else:
                nl.append((n, p, q, dl))
        live = nl
        time.sleep(0.05)
    return res


def known_findings(pid):
    f = V + '/known-findings.txt'
    out = []
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    deadline = t0 + (780 if tier == 'quick' else 5400)
    load_contracts()
    names = [n for n, c in contract.REG.items() if (c.prop == pid or pid in getattr(c, 'also', ())) and (tier == 'thorough' or c.tier == 'quick')]
    if os.environ.get('VP_NATIVE'):
        names = []
    tmp = tempfile.mkdtemp(prefix='vchk.')
    os.makedirs(V + '/evidence', exist_ok=True)
    replay = '%s/evidence/%s.replay.txt' % (V, pid)
    if os.path.exists(replay):
        os.unlink(replay)
    try:
        tus = sorted({contract.REG[n].tu for n in names})

        def comp(tu):
            try:
                return tu, build.compile_ir('%s/harness/%s.cc' % (V, tu), '%s/%s.ll' % (tmp, tu))
            except Exception as e:
                return tu, 'ERR:' + str(e)[-800:]
        with ThreadPoolExecutor(NCPU) as ex:
            lls = dict(ex.map(comp, tus))
        with ThreadPoolExecutor(1) as ex:
            fut = ex.submit(run_native, pid, tmp, seed, tier)
            res = run_contracts(names, lls, tmp, tier, deadline, fut)
            nat = fut.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return verdict(pid, seed, tier, t0, res, nat, replay)


def verdict(pid, seed, tier, t0, res, nat, replay):
    rs = [res[n] for n in sorted(res)]
    st = {}
    for r in rs:
        st.setdefault(r['status'], []).append(r)
    kf = known_findings(pid)
    kkeys = {k for k, _ in kf}
    nfails = [f for f in (nat['fails'] if nat else [])]
    newfails = []
    seenk = set()
    for f in nfails:
        m = re.match(r'\[(\S+)\]', f)
        if m and m.group(1) in kkeys:
            seenk.add(m.group(1))
        else:
            newfails.append(f)
    if nat:
        for f in nat['known']:
            m = re.match(r'\[(\S+)\]', f)
            if m and m.group(1) in kkeys:
                seenk.add(m.group(1))
            elif m:
                newfails.append(f)
    refuted = st.get('refuted', [])
    viol = bool(newfails) or bool(refuted)
    obl = sum(r.get('obligations', 0) for r in rs if r['status'] == 'proved')
    dis = sum(r.get('discharged', 0) for r in rs if r['status'] == 'proved')
    by = {}
    for r in rs:
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
    trusted = sorted({t for r in rs for t in r.get('trusted', [])})
    trusted += sorted({t for r in rs for t in getattr(contract.REG[r['name']], 'assumes', ())})
    callee, unproved = [], []
    for t in list(trusted):
        if t.startswith('by contract '):
            trusted.remove(t)
            ns = [x for x in re.findall(r'[\w.]+', re.sub(r'\(.*?\)', '', t[12:])) if '.' in x]
            callee.append(t)
            trusted += ['callee contract %s is used and not itself proved' % x for x in ns if x not in contract.REG]
    level = manifest_level(pid)
    cov = dict(
        contracts={r['name']: dict(status=r['status'], says=r.get('says', ''), obligations=r.get('obligations', 0), discharged=r.get('discharged', 0), wall_s=r.get('wall', 0),
                                   solver_s=r.get('solver_s', 0), queries=r.get('queries', 0), bound=r.get('bound'), detail=r.get('detail', '')[:500],
                                   functions=r.get('functions', []), obligation_counts=r.get('named', {})) for r in rs},
        obligations=sum(r.get('obligations', 0) for r in rs), discharged=dis,
        functions_under_contract=sorted({f for r in rs if r['status'] == 'proved' for f in r.get('functions', [])}),
        proved=len(st.get('proved', [])), bounded=[r['name'] for r in st.get('bounded', [])], undecided=[r['name'] for r in st.get('undecided', [])],
        back_end='verification conditions generated by engine/sym.py from LLVM IR of /repo compiled on this run; answered by ' + ', '.join('%s: %d' % x for x in sorted(by.items())) +
                 ' (z3 library: z3 %s in process; z3, z3b: /usr/bin/z3 4.8.12 in two configurations; cvc5 1.1.2)' % contract.z3.get_version_string(),
        callee_contracts_used={t[12:]: sorted({contract.REG[x].prop for x in re.findall(r'[\w.]+', t[12:]) if x in contract.REG}) for t in callee},
        solver_s=round(sum(r.get('solver_s', 0) for r in rs), 1),
        checker_cmd='python3-vt check.py ' + pid,
        trusted_base=['clang 18 front end and the LLVM 18 passes named in engine/build.py translate the source faithfully', 'engine/sym.py and engine/ir.py (VC generator)', 'z3'] + trusted)
    if nat:
        cov.update(evaluations=nat['evaluations'], distinct_nontrivial=nat['distinct'], rule=nat['rule'] or 'see native driver', samples=nat['samples'][:8],
                   bounded_stand_in=dict(built=nat['built'], detail=nat['detail'], wall_s=nat['wall'], parts=nat['parts']))
    if level == 'other':
        cov['explanation'] = 'contracts proved / bounded / undecided as listed, plus the bounded stand-in run on the compiled code'
    assumptions = ['size_t/pointer arithmetic does not exceed 2^40 elements', 'distinct objects of a contract\'s precondition do not alias'] + ['assumed: ' + t for t in trusted]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(newfails) + len(refuted))
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for r in rs:
        print('%-9s %-36s obligations %d/%d  %.1fs %s' % (r['status'], r['name'], r.get('discharged', 0), r.get('obligations', 0), r.get('wall', 0), r.get('detail', '')[:200] if r['status'] != 'proved' else ''))
    if nat:
        print('native    built=%s evaluations=%d distinct=%d %.1fs %s' % (nat['built'], nat['evaluations'], nat['distinct'], nat['wall'], nat['detail'][:400]))
    for k, x in kf:
        if k in seenk:
            print('KNOWN-FINDING: property=%s %s' % (pid, x))
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s violated\n\n' % pid)
            for x in newfails[:20]:
                f.write('failing input on the compiled code: %s\n' % x)
            if nat and newfails:
                f.write('\nreplay: build %s as check.py does (build_native) and run it with seed %d, tier %s\n' % (nat.get('cmd'), seed, tier))
            for r in refuted:
                f.write('\ncontract %s: %s\nfailed obligations: %s\n at %s\n%s\nverifier counterexample:\n%s\n' % (r['name'], r.get('says'), ', '.join(r.get('failed', [])), r.get('where', ''), r.get('detail', ''), r.get('model', '')))
        for x in newfails[:3]:
            print('failing input: ' + x[:600])
        for r in refuted[:5]:
            print('failed obligation in contract %s: %s' % (r['name'], ', '.join(r.get('failed', []))[:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if newfails else ' no-failing-input-found'))
        return 1
    return 0


def manifest_level(pid):
    try:
        for c in json.load(open(V + '/MANIFEST.json'))['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    sys.exit(main())
