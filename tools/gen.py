#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, V + '/tools')
import props, text
with open(V + '/properties.jsonl', 'w') as f:
    for i in text.T: f.write(json.dumps(text.T[i]) + '\n')
m = dict(version=1, setup_cmd='python3 sim/build.py full', hooks=dict(guard='DINGO_SIM', enable='no hook exists in /repo: the simulator replaces headers and libc symbols from outside; the define is set by /verif/sim/build.py only', source_commits=[]),
  checks=[dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', technique='deterministic simulation with fault injection, seeded schedule and fault search', level=p.get('level', 'exploration'),
    level_note=p.get('note', 'Seeded search over schedules and faults of the real sources under a simulator; no violation on the executions explored, not a proof. Trusts the stand-ins named in the evidence file.')) for i, p in props.PROPS.items() if i in text.T],
  not_applicable=[dict(property=i, reason=r) for i, r in text.NA.items()])
m['hooks']['source_commits'] = []
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
miss = [i for i in text.T if i not in props.PROPS and i not in text.NA]
assert not miss, miss
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for i in text.T: jsonschema.validate(text.T[i], S); assert text.T[i]['statement'].count('. ') <= 2, i
print(len(m['checks']), 'checks', len(text.T), 'properties')
