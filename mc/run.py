#!/opt/venv/bin/python
"""Driver of the bounded-exhaustive explorer.

    run.py PROPERTY            explore; tier from VERIF_TIER (quick|thorough)
    run.py --replay FILE       re-execute the tasks of a replay file
    run.py PROPERTY --only SUBSTR   (development) only tasks whose JSON contains SUBSTR

The driver makes a private copy of the package under test from /repo's current
working tree, rebuilds Cython extensions whose sources changed since they were
built, starts worker processes that import that copy, hands them the finite list
of tasks the property module enumerates and merges what they observed.
"""
import glob
import hashlib
import importlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
PY = '/opt/venv/bin/python'
DIRS = ("shenfun/optimization/cython", "shenfun/legendre/fastgl")
NPROC = int(os.environ.get('MC_NPROC', min(8, os.cpu_count() or 1)))


def child_env(scratch):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONSTARTUP')}
    env.update(HOME=os.path.join(scratch, 'home'),
               PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
               PYTHONPATH=os.path.join(scratch, 'tree') + ':' + VERIF,
               NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
               MC_SCRATCH=scratch, CFLAGS='-w', PYTHONWARNINGS='ignore',
               TMPDIR=os.path.join(scratch, 'tmp'),
               OMPI_MCA_orte_tmpdir_base=os.path.join(scratch, 'tmp'))
    return env


def stamps(root):
    """Content hash of every Cython source with what it includes (as the build records it)."""
    here = os.getcwd()
    os.chdir(root)
    try:
        shared = ["setup.py"]
        for d in DIRS:
            shared += glob.glob(d + "/*.pxd") + glob.glob(d + "/*.pxi") + glob.glob(d + "/*.h")
            shared += [f for f in glob.glob(d + "/*.c") + glob.glob(d + "/*.cpp")
                       if b"Generated by Cython" not in open(f, "rb").readline()]
        common = b"".join(n.encode() + open(n, "rb").read() for n in sorted(shared) if os.path.exists(n))
        return {p: hashlib.sha256(common + open(p, "rb").read()).hexdigest()
                for d in DIRS for p in sorted(glob.glob(d + "/*.pyx"))}
    finally:
        os.chdir(here)


def make_tree(scratch):
    tree = os.path.join(scratch, 'tree')
    os.makedirs(tree)
    for d in ('home', 'tmp', 'numba', 'work'):
        os.makedirs(os.path.join(scratch, d))
    ign = shutil.ignore_patterns('__pycache__', '*.pyc')
    shutil.copytree(os.path.join(REPO, 'shenfun'), os.path.join(tree, 'shenfun'), ignore=ign)
    for f in ('setup.py', 'README.rst', 'pyproject.toml'):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy2(os.path.join(REPO, f), tree)
    try:
        with open(os.path.join(REPO, 'build', 'stamps.json')) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = {}
    new = stamps(tree)
    stale = []
    for pyx, dig in new.items():
        stem = os.path.join(tree, pyx[:-4])
        if old.get(pyx) != dig or not glob.glob(stem + '.cpython-*.so'):
            stale.append(pyx)
            for f in glob.glob(stem + '.cpython-*.so') + [stem + '.c', stem + '.cpp']:
                if os.path.exists(f):
                    os.remove(f)
        else:  # keep what was built: it must not look older than its source
            for f in glob.glob(stem + '.cpython-*.so') + [stem + '.c', stem + '.cpp']:
                if os.path.exists(f):
                    os.utime(f)
    if stale:
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j', '8'], cwd=tree,
                           env=child_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stdout.write(r.stdout.decode(errors='replace')[-4000:])
            print('BUILD FAILED')
            sys.exit(2)
    return tree, stale


class Worker:
    def __init__(self, scratch, prop, idx):
        self.scratch, self.prop, self.idx = scratch, prop, idx
        self.p = None

    def start(self):
        self.log = open(os.path.join(self.scratch, 'work', 'w%d.log' % self.idx), 'ab')
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), self.prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                  env=child_env(self.scratch), start_new_session=True,
                                  cwd=os.path.join(self.scratch, 'work'))

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p = None
            self.log.close()

    def tail(self):
        try:
            with open(os.path.join(self.scratch, 'work', 'w%d.log' % self.idx), 'rb') as f:
                return f.read()[-1500:].decode(errors='replace')
        except OSError:
            return ''

    def run(self, task, timeout):
        if self.p is None:
            self.start()
        timer = threading.Timer(timeout, self.kill_quiet)
        timer.start()
        try:
            self.p.stdin.write((json.dumps(task) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (OSError, ValueError, AttributeError):
            line = b''
        finally:
            timer.cancel()
        if not line:
            rc = self.p.poll() if self.p else None
            self.kill()
            return {'crash': 'worker ended (rc=%s)' % rc, 'log': self.tail()}
        return json.loads(line)

    def kill_quiet(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (OSError, AttributeError):
            pass


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d['property'] == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    replay = None
    if args[0] == '--replay':
        with open(args[1]) as f:
            replay = json.load(f)
        prop = replay['property']
        tier = replay.get('tier', tier)
    else:
        prop = args[0]
        if '--only' in args:
            only = args[args.index('--only') + 1]
    t0 = time.time()
    deadline = t0 + float(os.environ.get('MC_DEADLINE', 800 if tier == 'quick' else 6 * 3600))
    scratch = tempfile.mkdtemp(prefix='shenfun-mc-')

    def cleanup(*a):
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)
        if a:
            sys.exit(2)
    workers = []
    signal.signal(signal.SIGTERM, cleanup)
    signal.signal(signal.SIGINT, cleanup)
    try:
        rc = explore(prop, tier, seed, only, replay, t0, deadline, scratch, workers)
    finally:
        cleanup()
    sys.exit(rc)


def explore(prop, tier, seed, only, replay, t0, deadline, scratch, workers):
    tree, stale = make_tree(scratch)
    os.environ['VERIF_TIER'] = tier
    # enumerate in a process that imports the copied tree
    r = subprocess.run([PY, os.path.join(HERE, 'worker.py'), prop, '--tasks', tier],
                       env=child_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       cwd=os.path.join(scratch, 'work'))
    meta = {}
    results = []
    viol = {}
    if r.returncode:
        # the package under test cannot even be imported / enumerated
        viol[prop + '|import'] = {'detail': r.stderr.decode(errors='replace')[-3000:], 'task': None}
        tasks = []
    else:
        d = json.loads(r.stdout.decode().strip().splitlines()[-1])
        tasks, meta = d['tasks'], d['meta']
    if replay is not None:
        tasks = [t for t in replay['tasks'] if t is not None]
    if only:
        tasks = [t for t in tasks if only in json.dumps(t)]
    timeout = meta.get('timeout', 300)
    nproc = min(meta.get('nproc', NPROC), NPROC, max(1, len(tasks)))
    q = queue.Queue()
    for i, t in enumerate(tasks):
        q.put((i, t))
    lock = threading.Lock()
    done = [0]
    capped = [0]

    def serve(w):
        while True:
            try:
                i, t = q.get_nowait()
            except queue.Empty:
                return
            left = deadline - time.time()
            if left < 5:
                with lock:
                    capped[0] += 1
                continue
            ts = time.time()
            res = w.run(t, min(timeout, left))
            if 'crash' in res and deadline - time.time() > 5:
                first = res
                res = w.run(t, min(timeout, deadline - time.time()))
                if 'crash' in res:
                    res['log'] = first['log'] + res['log']
            if 'crash' in res and deadline - time.time() < 5:
                with lock:
                    capped[0] += 1
                continue
            with lock:
                results.append((i, t, res, time.time() - ts))
                done[0] += 1

    for k in range(nproc):
        workers.append(Worker(scratch, prop, k))
    th = [threading.Thread(target=serve, args=(w,)) for w in workers]
    for x in th:
        x.start()
    for x in th:
        x.join()
    results.sort(key=lambda x: x[0])
    states, outcomes = set(), set()
    trans = traces = checks = 0
    samples, counters = [], {}
    for i, t, res, dt in results:
        if 'crash' in res:
            viol.setdefault('%s|crash|%s' % (prop, json.dumps(t, sort_keys=True)),
                            {'detail': res['crash'] + '\n' + res['log'], 'task': t})
            continue
        states.update(res['states'])
        outcomes.update(res['outcomes'])
        trans += res['transitions']
        traces += res['traces']
        checks += res['checks']
        for k, v in res['counters'].items():
            counters[k] = counters.get(k, 0) + v
        samples.extend(res['samples'][:2])
        for v in res['violations']:
            viol.setdefault(v['key'], {'detail': v['detail'], 'task': t})
    known = load_known(prop)
    seen_known, fresh = {}, {}
    for key, v in viol.items():
        k = next((k for k in known if key in k['keys']), None)
        if k is not None:
            seen_known.setdefault(k['id'], (k, []))[1].append(key)
        else:
            fresh[key] = v
    if '--times' in sys.argv:
        for i, t, res, dt in sorted(results, key=lambda x: -x[3])[:int(os.environ.get("MC_TIMES", 25))]:
            print('%.2fs %s' % (dt, json.dumps(t)[:200]))
    wall = time.time() - t0
    if replay is None and only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        step = max(1, len(samples) // 12)
        cov = {'states': len(states), 'transitions': trans, 'traces_validated_against_impl': traces,
               'samples': samples[::step][:12], 'assertions_evaluated': checks,
               'distinct_observed_outcomes': len(outcomes), 'tasks_completed': done[0],
               'tasks_enumerated': len(tasks), 'tasks_not_reached_before_deadline': capped[0],
               'exhaustive': bool(capped[0] == 0 and tasks), 'bounds': meta.get('bounds', ''),
               'rule': meta.get('rule', ''), 'by_kind': counters,
               'extensions_rebuilt': stale, 'known_findings_observed': sorted(seen_known)}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'model_checking'),
              'coverage': cov, 'assumptions': meta.get('assumptions', []), 'wall_s': round(wall, 2),
              'violations': len(fresh)}
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s tier=%s tasks=%d/%d states=%d transitions=%d traces=%d assertions=%d outcomes=%d wall=%.1fs'
          % (prop, tier, done[0], len(tasks), len(states), trans, traces, checks, len(outcomes), wall))
    if counters:
        print('  ' + ' '.join('%s=%d' % kv for kv in sorted(counters.items())))
    for kid, (k, keys) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s (%d of the listed cases)' % (prop, k['what'], len(keys)))
    if os.environ.get('MC_KEYS'):
        with open(os.environ['MC_KEYS'], 'w') as f:
            json.dump(sorted(fresh), f, indent=0)
    if capped[0] and not fresh:
        print('NOTE: %d tasks were not reached before the deadline' % capped[0])
    if fresh:
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        name = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(
            '\n'.join(sorted(fresh)).encode()).hexdigest()[:10]))
        tl = []
        for v in fresh.values():
            if v['task'] not in tl:
                tl.append(v['task'])
        with open(name, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'tasks': tl[:50],
                       'violations': {k: v['detail'] for k, v in list(fresh.items())[:200]},
                       'replay': 'bash check.sh --replay ' + os.path.relpath(name, VERIF)}, f, indent=1)
        nshow = int(os.environ.get('MC_SHOW', '25'))
        for k, v in list(fresh.items())[:nshow]:
            print('  - %s\n      %s' % (k, v['detail'].replace('\n', '\n      ')[:int(os.environ.get('MC_DETAIL', '1200'))]))
        if len(fresh) > nshow:
            print('  ... and %d more' % (len(fresh) - nshow))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(name, VERIF)))
        return 1
    if not tasks:
        print('nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    main()
