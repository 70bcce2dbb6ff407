"""python3 tools/cmp.py OUT.json: stable tests that do not pass."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = set(json.load(open(sys.argv[1]))['passed'])
m = [t for t in b if t not in o]
print(len(b), 'stable;', len(m), 'not passing'); print('\n'.join(m[:20]))
