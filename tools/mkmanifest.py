"""Writes MANIFEST.json from the table below and the checks that exist (engine/p_*.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3-vt engine/selftest.py', 'checks': [], 'not_applicable': [],
     'notes': 'One runner (engine/check.py) for all checks. Obligations are generated from /repo on every run. See DESIGN.md.'}
for p in props:
    if p in CLAIMS:
        t, level, note = CLAIMS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3-vt engine/check.py ' + p, 'thorough_cmd': 'python3-vt engine/check.py ' + p, 'technique': t, 'level': level, 'level_note': note})
    else: m['not_applicable'].append({'property': p, 'reason': NA[p]})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
