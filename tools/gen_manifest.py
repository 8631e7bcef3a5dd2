#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
REF = ("bounded-exhaustive explicit-state checking of an executable reference model, every model trace replayed "
       "against the real renderer")
NOTE = ("Exhaustive within the bounds listed in DESIGN.md; nothing is sampled. Trusts the reference model (spec.rs, "
        "written over the JSON text, sharing no code with velato), kurbo/peniko value types and the comparison tolerances.")
# id -> (technique, note)
C = {i: (REF, NOTE) for i in 'C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C24'.split()}
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
checks = []
for p in props:
    i = p['id']
    if i not in C:
        continue
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                       technique=C[i][0], level='model_checking', level_note=C[i][1]))
m = dict(version=1, setup_cmd='./check.sh setup', checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'not built yet')) for p in props if p['id'] not in C])
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed')
