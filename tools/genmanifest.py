"""MANIFEST.json from the table below: a property is claimed once it has a contract or a driver."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
LEVEL = {p: 'proof' for p in ['C05', 'C12', 'C13', 'C14']}
NOTE = {
 'C01': 'contracts on the functions listed in the evidence; the whole solve loop is outside the reach of the verifier and is covered by a bounded stand-in (random incremental sessions over all solver configurations, every model checked against everything added and assumed)',
 'C02': 'contracts on the functions listed in the evidence; the whole solve loop is outside the reach of the verifier and is covered by a bounded stand-in (random incremental sessions over all solver configurations, every UNSAT answer and every failed-assumption set checked by an independent DPLL)',
}
checks, na = [], []
for p in ids:
    have_c = os.path.exists('%s/contracts/%s.py' % (V, p.lower()))
    have_n = os.path.exists('%s/native/%s.cc' % (V, p.lower()))
    if not (have_c or have_n):
        na.append(dict(property=p, reason='not built yet: the functions concerned have no contract so far'))
        continue
    lev = LEVEL.get(p, 'other')
    note = NOTE.get(p) or ('every contract of the property is discharged for all inputs by z3 from the LLVM IR of the current tree; trusted base and assumed facts are listed in the evidence; a bounded native driver replays the same claims on the compiled code and gives failing inputs' if lev == 'proof'
                           else 'contracts discharged for the functions listed in the evidence; the remaining functions of the property are covered by a bounded native driver (labelled bounded in the evidence)')
    checks.append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --thorough' % p,
                       technique='contract-based deductive verification: function contracts and loop invariants over the LLVM IR of the real code, discharged by z3 and cvc5' + ('; bounded stand-in for the functions outside the verifier\'s reach' if lev != 'proof' else ''),
                       level=lev, level_note=note))
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
         notes='No hooks in /repo: harness translation units in /verif include /repo sources; drivers and harnesses are compiled with -fno-access-control. known-findings.txt lists fixed defects and known findings.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
