"""Writes MANIFEST.json from the properties list and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'pbt', 'props')) if f[0] == 'c'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        cmd = '/opt/veriftools/pyvenv/bin/python check.py ' + i
        checks.append({
            'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH[i],
            'level': 'exploration',
            'level_note': 'Generated-input search (Hypothesis, shrinking, fixed by VERIF_SEED) against an '
                          'independent oracle; finds violations within the generated domain, never '
                          'establishes their absence. Trusts the reference model in pbt/ and NumPy/SciPy '
                          'on the driver side.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': '/opt/veriftools/pyvenv/bin/python check.py selftest',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the machinery needs no change to the library. The library runs under its own '
              'interpreter (/opt/venv, PyPy) in worker processes reading /repo directly; cases and oracles '
              'live on the driver side.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
