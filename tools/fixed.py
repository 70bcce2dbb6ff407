"""python3 tools/fixed.py Cnn COMMIT what  (records a repaired defect)"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
n = len(open(p).read().strip().splitlines()) + 1
prop, c, what = sys.argv[1:4]
open(p, 'a').write(json.dumps({'id': 'F%02d' % n, 'property': prop, 'status': 'fixed', 'commit': c, 'what': 'fixed: property=%s %s %s' % (prop, c, what)}) + '\n')
