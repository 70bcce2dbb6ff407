"""Writes MANIFEST.json: a check for every property with a module, the rest not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'bounded-exhaustive exploration of the real transforms: every configuration x every unit vector',
}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', p.lower() + '.py')) and p not in UNCLAIMED:
        checks.append({'property': p, 'quick_cmd': 'bash check.sh %s' % p,
                       'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p],
                       'level': 'model_checking', 'level_note': NOTE[p]})
    else:
        na.append({'property': p, 'reason': UNCLAIMED.get(p, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
