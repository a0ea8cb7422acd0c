import sys, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/contracts']
import importlib, build, contract
mods = [f[:-3] for f in os.listdir(V + '/contracts') if f.startswith('c') and f.endswith('.py')]
for m in sorted(mods):
    importlib.import_module(m)
out = '/tmp/vtry/%d' % os.getpid()
os.makedirs(out, exist_ok=True)
lls = {}
import re
for n, cls in sorted(contract.REG.items()):
    if not any(re.search(a, n) for a in sys.argv[1:]):
        continue
    if cls.tu not in lls:
        lls[cls.tu] = build.compile_ir(V + '/harness/%s.cc' % cls.tu, out + '/%s.ll' % cls.tu)
    R = contract.check(n, lls[cls.tu], out + '/' + n, os.environ.get('VERIF_TIER', 'quick'))
    print('%-34s %-9s obl=%d/%d wall=%s solver=%s q=%d %s' % (n, R['status'], R['discharged'], R['obligations'], R['wall'], R['solver_s'], R['queries'], R['detail'][:600]))
    for f in R['failed'][:8]:
        print('     FAILED', f)
    if os.environ.get('SHOW'):
        print(R.get('model', '')[:3000]); print(R['functions'], R['trusted'])
    sys.stdout.flush()
