"""writes MANIFEST.json from properties.jsonl and the contract modules"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if os.path.exists('%s/contracts/%s.py' % (V, p.lower())):
        m = importlib.import_module('contracts.' + p.lower())
        checks.append(dict(property=p, quick_cmd='python3-vt run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt run.py ' + p,
                           technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the Go SSA (gvc, z3/cvc5)'),
                           level=getattr(m, 'LEVEL', 'proof'), level_note=m.LEVEL_NOTE))
    elif p == 'C20':
        na.append(dict(property=p, reason='freedom from data races and termination of the worker pool quantify over schedules of goroutines; the deductive verifier built here (and every contract verifier installed) is sequential, so no contract within reach expresses it'))
    else:
        na.append(dict(property=p, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks: nothing in /repo is guarded; the commits there are fixes of genuine defects, listed in KNOWN_FINDINGS.txt.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
