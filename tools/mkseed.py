"""python3 tools/mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new[, n])], demo)]."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    w = '/tmp/mkseed'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', w, 'HEAD'], check=True, capture_output=True)
    for f, old, new, *n in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) >= 1, (s['id'], f, old)
        assert n or t.count(old) == 1, (s['id'], 'ambiguous', t.count(old))
        if n:
            parts = t.split(old)
            k = n[0]
            t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else:
            t = t.replace(old, new)
        open(p, 'w').write(t)
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n' +
                                     s.get('run', 'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"') + '\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], check=True)
    print(s['id'])
