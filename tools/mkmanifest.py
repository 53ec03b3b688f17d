#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks, properties.jsonl and the
texts below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import props
from tools.claims import CLAIMS, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in ids:
    if p in props.PROPS:
        t, n = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 -m sa.main %s' % p,
                       'thorough_cmd': 'python3 -m sa.main %s --tier thorough' % p,
                       'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not claimed: the static rules for it are not built yet')})
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of the normalised LLVM IR of /repo\'s current sources; no code of /repo is run. /repo carries no hooks.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print('%d checks, %d not applicable' % (len(checks), len(na)))
