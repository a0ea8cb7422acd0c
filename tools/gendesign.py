"""The per-property section of DESIGN.md, from properties.jsonl and the contracts."""
import json, os, re, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/contracts']
import contract
for m in sorted(f[:-3] for f in os.listdir(V + '/contracts') if f.startswith('c') and f.endswith('.py')):
    importlib.import_module(m)
REST = json.load(open(V + '/tools/rest.json'))
out = ['<!-- generated by tools/gendesign.py -->', '']
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    p = d['id']
    cs = [c for n, c in sorted(contract.REG.items()) if c.prop == p]
    more = [n for n, c in sorted(contract.REG.items()) if p in (getattr(c, "also", ()) or ())]
    out += ['### %s  %s' % (p, d['title']), '']
    if cs:
        out += ['Contracts (for all inputs, no bound):', '']
        for c in cs:
            by = sorted({x[2] for x in c.handlers if x[2].startswith('by contract')})
            out.append('- `%s` — %s%s' % (c.name, ' '.join(c.says.split()), (' (uses ' + ', '.join('`%s`' % b[12:] for b in by) + ')') if by else ''))
        out.append('')
    if more:
        out += ['Contracts of other properties that are discharged again with this one: ' + ', '.join('`%s`' % n for n in more) + '.', '']
    a = sorted({x for c in cs for x in c.assumes})
    if a:
        out += ['Assumed: ' + '; '.join(' '.join(x.split()) for x in a) + '.', '']
    if p in REST:
        out += [REST[p], '']
s = open(V + '/DESIGN.md').read()
B, E = '<!-- per property -->', '<!-- end per property -->'
i, j = s.index(B) + len(B), s.index(E)
open(V + '/DESIGN.md', 'w').write(s[:i] + '\n' + '\n'.join(out) + s[j:])
