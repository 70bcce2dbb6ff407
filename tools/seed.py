"""python3 tools/seed.py ID...: validates planted bugs in a scratch copy of /repo: applies, builds, passes the
stable tests, demo 0 without and nonzero with it; then runs the property's check against it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
nochk = '--nocheck' in sys.argv
notest = '--notest' in sys.argv
for sid in [a for a in sys.argv[1:] if not a.startswith('-')]:
    d = os.path.join(V, 'seeded', sid)
    w = '/tmp/seed-' + sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    dd = w + '-demo'
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    env = dict(os.environ, PYTHONPATH=w)
    out = [sid]
    r = subprocess.run(['bash', dd + '/demo.sh'], cwd=w, env=env, capture_output=True, text=True)
    out.append('demo-clean=%d' % r.returncode)
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, capture_output=True, text=True)
    out.append('apply=%d' % r.returncode)
    if '.pyx' in open(d + '/patch.diff').read():
        r = subprocess.run('/opt/venv/bin/python setup.py build_ext --inplace', shell=True, cwd=w, capture_output=True, text=True)
        out.append('build=%d' % r.returncode)
    r = subprocess.run(['bash', dd + '/demo.sh'], cwd=w, env=env, capture_output=True, text=True)
    out.append('demo-bug=%d' % r.returncode)
    if not notest:
        o = w + '.json'
        t = open('/opt/vp/test.sh').read().replace('/repo', w).replace('bash /opt/vp/build.sh', 'true').replace('PYTHONPATH=/opt/vp/plugin', 'PYTHONPATH=%s:/opt/vp/plugin' % w)
        open(w + '.sh', 'w').write(t)
        subprocess.run(['bash', w + '.sh', o], capture_output=True)
        ok = set(json.load(open(o))['passed'])
        miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
        out.append('NOTPASSING=%d %s' % (len(miss), miss[:4]))
    if not nochk:
        p = json.load(open(d + '/meta.json'))['property']
        r = subprocess.run(['bash', V + '/check.sh', p], env=dict(os.environ, MC_REPO=w), capture_output=True, text=True)
        out.append('check %s exit=%d %s' % (p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOL')]))
        out.append('\n    '.join(l.strip()[:150] for l in r.stdout.splitlines() if l.strip().startswith('- '))[:600])
    print(' | '.join(out), flush=True)
    for x in (w, dd):
        shutil.rmtree(x, ignore_errors=True)
    for x in ('.json', '.sh'):
        if os.path.exists(w + x):
            os.remove(w + x)
