# print the full engine trace for one contract: tools/dbg.py NAME [bound]
import sys, os, importlib, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/contracts']
import build, contract
for m in sorted(f[:-3] for f in os.listdir(V + '/contracts') if f.startswith('c') and f.endswith('.py')):
    importlib.import_module(m)
cls = contract.REG[sys.argv[1]]
out = '/tmp/vtry/dbg'
os.makedirs(out, exist_ok=True)
ll = build.compile_ir(V + '/harness/%s.cc' % cls.tu, out + '/%s.ll' % cls.tu)
try:
    E, _ = contract.one(cls, ll, out + '/' + cls.name, int(sys.argv[2]) if len(sys.argv) > 2 else None, 400)
    print('failures', [(f.name, f.result, str(f.where)[:200]) for f in E.failures][:20])
    print('obligations', E.obligations)
    print('dropped', {h: [str(x)[:70] for x in d][:60] for h, d in E.dropped.items()} if os.environ.get('DROP') else '')
    if os.environ.get('MODEL'):
        for f in E.failures[:1]: print(contract.model_text(E, f.detail)[:6000])
except Exception:
    traceback.print_exc()
