"""C13: what is written to file or checkpointed is what is read back.

Checkpoints: explicit-state exploration of sessions (start fresh or from a checkpoint, then updates), with a crash before
every executed line of the checkpointing code, of shutil and of h5py. The crash image (the files as they are on disk at that
point, and torn copies where a file is being copied) becomes a state from which recovery is checked and new sessions start.
Files: all sequences of write/rewrite/read/reopen operations to a bounded depth against a dictionary as the reference.
"""
import hashlib
import itertools
import os
import shutil
import sys
import tempfile
import warnings
import xml.etree.ElementTree as ET
import numpy as np

from mc import tsp
from mc.common import generic

META = {'rule': 'checkpoints: state = (files on disk, completed checkpoints); transition = one session up to a crash point. files: state = history of file operations',
        'domain': 'checkpoints of scalar, vector and physical data at one or more time levels; crash before every line of io, shutil and h5py plus torn copies; '
                  'files of Functions and Arrays of rank 0-2 in 2-4 dimensions, whole fields and every kind of slice, meshes, XDMF descriptions',
        'bounds': {'quick': '2 sessions with a crash in each, 3 updates per session; file histories of 3 operations', 'thorough': '3 sessions; file histories of 4 operations'}}


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for cfg in ('scalar', 'vector', 'two', 'real', 'levels'):
        for every in (1, 2):
            out.append({'kind': 'crash', 'cfg': cfg, 'every': every, 'depth': 2 if quick else 3})
    for cfg in ('scalar', 'two', 'levels', 'real', 'vector'):
        out.append({'kind': 'chkhist', 'cfg': cfg, 'depth': 4 if quick else 5})
    for s in ['FL', 'GF', 'GG', 'TT', 'GFL', 'GGF', 'CFG'] + ([] if quick else ['LF', 'GGG', 'LGF', 'kK', 'DkK']):
        for rank in ('scalar', 'vector', 'tensor', 'mixed'):
            for fo in (0, 1):
                if rank == 'tensor' and len(s) > 2 and quick:
                    continue
                out.append({'kind': 'file', 's': s, 'rank': rank, 'fo': fo, 'depth': 3 if quick else 4})
    for s in ['FL', 'GF', 'TT', 'GFL', 'GGF', 'CFG', 'GGGF'] + ([] if quick else ['LF', 'GG', 'GLF', 'LGGF']):
        out.append({'kind': 'slices', 's': s})
    for s in ['FL', 'GF', 'TT', 'GFL', 'GGF', 'CFG', 'kK', 'DkK', 'LF']:
        for mesh in ('quadrature', 'uniform'):
            out.append({'kind': 'mesh', 's': s, 'mesh': mesh})
    for s in ['FL', 'kF'[:1] + 'K', 'GF', 'GFL', 'GGF', 'CFG', 'LF']:
        for order in ('visit', 'paraview'):
            for dom in ('mesh', 'domain'):
                for as_scalar in (0, 1):
                    out.append({'kind': 'xdmf', 's': s, 'order': order, 'dom': dom, 'as_scalar': as_scalar})
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cwd = os.getcwd()
        d = tempfile.mkdtemp(prefix='c13-')
        try:
            os.chdir(d)
            globals()['do_' + task['kind']](task, rec, d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)


SZ = {'F': 4, 'G': 5, 'K': 6, 'k': 7, 'L': 6, 'C': 7, 'T': 5, 'D': 6}


def space(s):
    return tsp.space(s, [SZ[c] for c in s])


# ---------------------------------------------------------------- checkpoints

class World:
    """Space, arrays and the checkpoint dictionary of one simulated program run."""

    def __init__(self, cfg):
        from shenfun import Function, Array, VectorSpace
        T = space('FL' if cfg != 'real' else 'GF')
        self.a = {}
        if cfg == 'real':
            self.a['0/u'] = Array(T)
            self.a['0/w'] = Array(VectorSpace(T))
        else:
            self.a['0/U'] = Function(T if cfg != 'vector' else VectorSpace(T))
            if cfg == 'two':
                self.a['0/phi'] = Function(VectorSpace(T))
            if cfg == 'levels':
                self.a['1/U'] = Function(T)
                self.a['2/U'] = Function(T)
                self.a['1/phi'] = Array(T)
        self.data = {}
        for k, v in self.a.items():
            l, n = k.split('/')
            self.data.setdefault(l, {})[n] = [v]

    def fill(self, step):
        for i, v in enumerate(self.a.values()):
            v[...] = generic(np.shape(v), 17 * step + i, np.asarray(v).dtype.kind == 'c')

    def record(self):
        return {k: np.array(v) for k, v in self.a.items()}


def files(d='.'):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, 'rb') as h:
                out[f] = h.read()
    return out


def restore(img):
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    for f, c in img.items():
        with open(f, 'wb') as h:
            h.write(c)


def hsh(img):
    m = hashlib.sha1()
    for f in sorted(img):
        m.update(f.encode() + b'\0' + hashlib.sha1(img[f]).digest())
    return m.hexdigest()


def contents(fname):
    """Everything in a checkpoint file, or None when it is missing or unreadable."""
    import h5py
    if not os.path.exists(fname):
        return None
    try:
        with h5py.File(fname, 'r', locking=False) as f:
            out = {'t': float(f.attrs['t']) if 't' in f.attrs else None, 'tstep': int(f.attrs['tstep']) if 'tstep' in f.attrs else None, 'data': {}}

            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    n, l = name.split('/')
                    out['data'][l + '/' + n] = o[...]
            f.visititems(visit)
            return out
    except Exception:
        return None


def same(c, r):
    return c is not None and r is not None and c['t'] == r['t'] and c['tstep'] == r['tstep'] and set(c['data']) >= set(r['data']) and \
        all(np.array_equal(c['data'][k], r['data'][k]) and c['data'][k].dtype == r['data'][k].dtype for k in r['data'])


class Crash:
    """Collect the state of the directory before every executed line of the watched modules."""

    def __init__(self, enabled=True):
        import shenfun.io
        import h5py
        self.pre = (os.path.dirname(shenfun.io.__file__), shutil.__file__, os.path.dirname(h5py.__file__))
        self.images = {}
        self.info = None
        self.enabled = enabled
        self.sig = None
        self.points = 0

    def snap(self):
        self.points += 1
        sig = tuple((e.name, e.stat().st_size, e.stat().st_mtime_ns, e.inode()) for e in sorted(os.scandir('.'), key=lambda e: e.name) if e.is_file()) + (id(self.info),)
        if sig == self.sig:
            return
        self.sig = sig
        im = files()
        self.images.setdefault((hsh(im), id(self.info)), (im, self.info))

    def tr(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(self.pre):
            return None
        self.snap()
        return self.tr

    def __enter__(self):
        self.system = os.system
        self.copyfile = shutil.copyfile
        crash = self

        def torn(src, dst):
            if os.path.exists(src):
                im = files()
                if os.path.isdir(dst):
                    dst = os.path.join(dst, os.path.basename(src))
                with open(src, 'rb') as h:
                    c = h.read()
                for k in (0, len(c) // 2, max(0, len(c) - 1)):
                    i2 = dict(im)
                    i2[os.path.basename(dst)] = c[:k]
                    crash.images.setdefault((hsh(i2), id(crash.info)), (i2, crash.info))

        def system(cmd):
            w = cmd.split()
            if len(w) == 3 and w[0] == 'cp':
                torn(w[1], w[2])
            crash.snap()
            r = crash.system(cmd)
            crash.snap()
            return r

        def copyfile(src, dst, **kw):
            torn(src, dst)
            return crash.copyfile(src, dst, **kw)
        os.system = system
        shutil.copyfile = copyfile
        if self.enabled:
            self.old = sys.gettrace()
            sys.settrace(self.tr)
        return self

    def __exit__(self, *a):
        if self.enabled:
            sys.settrace(self.old)
        os.system = self.system
        shutil.copyfile = self.copyfile


def session(cfg, every, start, first, nsteps, rec, key, crash, done):
    """Run one program: start fresh or from the last checkpoint, then step. 'done' lists completed checkpoints, oldest first."""
    from shenfun.io import Checkpoint
    w = World(cfg)
    c = Checkpoint('sim', checkevery=every, data=w.data)
    if start == 'read':
        for k, v in w.a.items():
            l, n = k.split('/')
            c.read(v, n, step=int(l))
        got = w.record()
        want = done[-1]['data']
        rec.check(all(np.array_equal(got[k], want[k]) for k in want), key + '|restart reads the last completed checkpoint')
    for s in range(first, first + nsteps):
        w.fill(s)
        r = {'t': 0.25 * s, 'tstep': s, 'data': w.record()} if s % every == 0 else None
        crash.info = (list(done), r)
        with crash:
            c.update(0.25 * s, s)
        if r is not None:
            done.append(r)
        crash.info = (list(done), None)
        crash.snap()
        rec.trans()
        if r is not None:
            rec.check(same(contents('sim.chk.h5'), r), key + '|checkpoint complete', 'step %d' % s)
    return done


def recoverable(rec, key, im, info):
    done, cur = info
    chk, old = contents('sim.chk.h5'), contents('sim.old.chk.h5')
    ok = [r for r in (done[-1:] + ([cur] if cur else []))]
    if not done and cur is None:
        return 'none'
    if not done:
        # nothing completed yet: whatever claims to be a checkpoint of this step must be complete
        if chk is not None and chk['tstep'] == cur['tstep'] and chk['t'] == cur['t']:
            rec.check(same(chk, cur), key + '|claims to be complete')
            return 'new'
        return 'none'
    a = [any(same(f, r) for r in ok) for f in (chk, old)]
    rec.check(any(a), key + '|last completed checkpoint is recoverable', 'neither sim.chk.h5 nor sim.old.chk.h5 holds checkpoint of step %s' % done[-1]['tstep'])
    if chk is not None:
        rec.check(any(same(chk, r) for r in done + [cur]), key + '|sim.chk.h5 is never partial', 'readable, step %s, but not a completed checkpoint' % chk['tstep'])
    return 'chk' if a[0] else 'old' if a[1] else 'lost'


def do_crash(task, rec, d):
    """Sessions with a crash at every point; the files at the crash are the start of further sessions."""
    cfg, every = task['cfg'], task['every']
    front = [({}, [], 1, 'empty')]
    seen = set()
    for depth in range(task['depth']):
        nxt = []
        for im, done, first, how in front:
            starts = ['fresh'] if how == 'empty' else ['read', 'fresh']
            for start in starts:
                key = 'crash|%s,every %d|%d:%s' % (cfg, every, depth, start)
                restore(im)
                dn = list(done)
                if start == 'read' and how == 'old':
                    shutil.copyfile('sim.old.chk.h5', 'sim.chk.h5')     # what a user does after finding the checkpoint unusable
                crash = Crash()
                crash.info = (list(dn), None)

                def go():
                    return session(cfg, every, start, first, every * (3 if depth == 0 else 2), rec, key, crash, dn)
                if rec.guard(go, key) is None:
                    continue
                rec.trace()
                for (h, _), (im2, info) in list(crash.images.items()):
                    restore(im2)
                    last = info[0][-1]['tstep'] if info[0] else 0
                    st = (h, last, info[1]['tstep'] if info[1] else None)
                    if not rec.state(cfg, every, *st):
                        continue
                    rec.trans()
                    r = recoverable(rec, key, im2, info)
                    if st in seen or depth + 1 == task['depth'] or r == 'lost':
                        continue
                    seen.add(st)
                    dn2 = list(info[0])
                    if r in ('chk', 'old', 'new'):
                        # the recovered checkpoint is the last completed one or the one being written
                        c = contents('sim.chk.h5' if r in ('chk', 'new') else 'sim.old.chk.h5')
                        if info[1] is not None and same(c, info[1]):
                            dn2 = dn2 + [info[1]]
                        nxt.append((im2, dn2, dn2[-1]['tstep'] + 1, 'old' if r == 'old' else 'chk'))
                    elif depth == 0:
                        nxt.append((im2, [], 1, 'empty'))
        front = nxt


def do_chkhist(task, rec, d):
    """Histories without crashes: due and not-due updates, reads, restarts, stop file; nothing else may change the arrays."""
    from shenfun.io import Checkpoint
    cfg = task['cfg']
    acts = ['due', 'notdue', 'read', 'restart', 'again', 'kill']
    for hist in itertools.product(acts, repeat=task['depth']):
        if hist[0] in ('read', 'again', 'restart') or not rec.state(cfg, hist):
            continue
        restore({})
        key = 'history|%s|%s' % (cfg, ','.join(hist))
        w = World(cfg)
        c = Checkpoint('sim', checkevery=10, data=w.data)
        step, t = 0, 0.
        last = None

        def due(w, c, s, t):
            w.fill(s)
            r = w.record()
            c.update(t, s)
            return {'t': t, 'tstep': s, 'data': r}, r
        for a in hist:
            try:
                if a in ('due', 'notdue', 'again'):
                    step = {'due': (step // 10 + 1) * 10, 'notdue': step + 1 if (step + 1) % 10 else step + 2, 'again': step}[a]
                    if a == 'again' and last is not None:
                        step = last['tstep']
                    t += 0.3
                    new, r = due(w, c, step, t)
                    rec.check(all(np.array_equal(w.a[k], r[k]) for k in r), key + '|arrays unchanged')
                    if step % 10 == 0:
                        last = new
                elif a == 'kill':
                    step += 1
                    t += 0.3
                    open('killshenfun', 'w').close()
                    w.fill(step)
                    r = w.record()
                    try:
                        c.update(t, step)
                        rec.check(False, key + '|stop file ends the program')
                    except SystemExit:
                        pass
                    last = {'t': t, 'tstep': step, 'data': r}
                    rec.check(not os.path.exists('killshenfun'), key + '|stop file removed')
                    w = World(cfg)
                    c = Checkpoint('sim', checkevery=10, data=w.data)
                    for k, v in w.a.items():
                        l, n = k.split('/')
                        c.read(v, n, step=int(l))
                    rec.check(all(np.array_equal(w.a[k], r[k]) for k in r), key + '|restart after stop')
                else:
                    if last is None:
                        break
                    if a == 'restart':
                        w = World(cfg)
                        c = Checkpoint('sim', checkevery=10, data=w.data)
                    w.fill(999)
                    for k, v in w.a.items():
                        l, n = k.split('/')
                        c.read(v, n, step=int(l))
                    rec.check(all(np.array_equal(w.a[k], last['data'][k]) for k in last['data']), key + '|read')
                rec.trans()
                if last is not None:
                    rec.check(same(contents('sim.chk.h5'), last), key + '|file holds the last checkpoint')
            except Exception:
                import traceback
                rec.fail(key + '|exception', traceback.format_exc()[-600:])
                break
        rec.trace()


# ---------------------------------------------------------------- files

def wrap(T, rank):
    from shenfun import VectorSpace, TensorSpace, CompositeSpace
    return {'scalar': lambda: T, 'vector': lambda: VectorSpace(T), 'tensor': lambda: TensorSpace(T), 'mixed': lambda: CompositeSpace([T, T, T])}[rank]()


def do_file(task, rec, d):
    """All sequences of operations on one file."""
    from shenfun import Function, Array
    from shenfun.io import ShenfunFile
    import h5py
    s, rank, fo = task['s'], task['rank'], task['fo']
    T = space(s)
    W = wrap(T, rank)
    mk = (lambda: Function(W)) if fo else (lambda: Array(W))
    u, v, x = mk(), mk(), mk()
    D = len(s)
    sl = [slice(None)] * D
    sl[D - 1] = 1
    # tensors cannot be written as scalars: the library refuses with an exception
    acts = ['w0', 'w1', 'w7v', 'ws0'] + (['wsc1'] if rank != 'tensor' else []) + ['r', 'reopen', 'append']
    for hist in itertools.product(acts, repeat=task['depth']):
        if hist[0] in ('r', 'reopen', 'append') or not rec.state(s, rank, fo, hist):
            continue
        key = 'file|%s,%s,%s|%s' % (s, rank, 'spectral' if fo else 'physical', ','.join(hist))
        restore({})

        def go():
            f = ShenfunFile('f', W, mode='w')
            model = {}
            for i, a in enumerate(hist):
                u[...] = generic(u.shape, 3 * i + 1, u.dtype.kind == 'c')
                v[...] = generic(v.shape, 3 * i + 2, u.dtype.kind == 'c')
                u0, v0 = np.array(u), np.array(v)
                if a in ('w0', 'w1'):
                    f.write(int(a[1]), {'u': [u]})
                    model['u', int(a[1])] = u0
                elif a == 'w7v':
                    f.write(7, {'u': [u], 'v': [v]})
                    model['u', 7], model['v', 7] = u0, v0
                elif a == 'ws0':
                    f.write(0, {'u': [u, (u, list(sl))]})
                    model['u', 0] = u0
                    if rank == 'scalar':
                        model['slice', 0] = u0[tuple(sl)]
                elif a == 'wsc1':
                    f.write(1, {'q': [u]}, as_scalar=True)
                    model['q', 1] = u0
                elif a == 'r':
                    pass
                elif a == 'reopen':
                    f = ShenfunFile('f', W, mode='r')
                else:
                    f = ShenfunFile('f', W, mode='a')
                rec.trans()
                rec.check(np.array_equal(u, u0) and np.array_equal(v, v0), key + '|arrays unchanged')
                if a == 'r' or i == len(hist) - 1:
                    for (n, st), w in model.items():
                        if n in 'uv':
                            x[...] = 0
                            f.read(x, n, step=st)
                            rec.check(np.array_equal(x, w), key + '|read %s %s' % (n, st))
                        elif n == 'q':
                            fl = w.reshape((-1,) + w.shape[w.ndim - D:])
                            names = ['q'] if rank == 'scalar' else ['q%d' % k for k in range(len(fl))] if rank != 'tensor' else ['q%d%d' % (a_, b_) for a_ in range(D) for b_ in range(D)]
                            for k, nm in enumerate(names):
                                y = (Function if fo else Array)(T)
                                f.read(y, nm, step=st)
                                rec.check(np.array_equal(y, fl[k]), key + '|read component %s' % nm)
                        else:
                            with h5py.File('f.h5', 'r') as h:
                                nm = 'u/%dD/%s/%d' % (D - 1, '_'.join(['slice'] * (D - 1) + ['1']), st)
                                rec.check(np.array_equal(h[nm][...], w), key + '|slice')
            return True
        rec.guard(go, key)
        rec.trace()


def do_slices(task, rec, d):
    from shenfun import Function, Array
    from shenfun.io import ShenfunFile
    import h5py
    s = task['s']
    T = space(s)
    D = len(s)
    for fo in (0, 1):
        u = (Function if fo else Array)(T)
        u[...] = generic(u.shape, 5, u.dtype.kind == 'c')
        N = u.shape
        pats = [p for p in itertools.product(*[[slice(None), 0, n // 2, n - 1] for n in N]) if 0 < sum(isinstance(q, int) for q in p) < D]
        key = 'slices|%s,%d' % (s, fo)

        def go():
            f = ShenfunFile('f%d' % fo, T, mode='w')
            f.write(3, {'u': [u] + [(u, list(p)) for p in pats]})
            for p in pats:      # later steps one by one
                f.write(4, {'u': [(u, list(p))]})
            return True
        if rec.guard(go, key) is None:
            continue
        with h5py.File('f%d.h5' % fo, 'r') as h:
            for p in pats:
                rec.state(s, fo, str(p))
                for st in (3, 4):
                    nm = 'u/%dD/%s/%d' % (sum(isinstance(q, slice) for q in p), '_'.join('slice' if isinstance(q, slice) else str(q) for q in p), st)
                    rec.trans()
                    rec.check(nm in h and np.array_equal(h[nm][...], np.array(u)[p]), key + '|' + nm)
        rec.trace()


def do_mesh(task, rec, d):
    from shenfun import Array
    from shenfun.io import ShenfunFile
    import h5py
    s = task['s']
    T = space(s)
    key = 'mesh|%s,%s' % (s, task['mesh'])
    for rank in ('scalar', 'vector'):
        W = wrap(T, rank)
        rec.state(key, rank)

        def go():
            f = ShenfunFile('m' + rank, W, mode='w', mesh=task['mesh'])
            u = Array(W)
            for st in (0, 5):
                f.write(st, {'u': [u], 'p': [u]})
            return True
        if rec.guard(go, key) is None:
            continue
        with h5py.File('m%s.h5' % rank, 'r') as h:
            for g in 'up':
                rec.check(h[g].attrs['rank'] == (0 if rank == 'scalar' else 1), key + '|rank')
                rec.check(tuple(h[g].attrs['shape']) == T.shape(False), key + '|shape')
                for k, c in enumerate(s):
                    b = tsp.base(c, SZ[c])
                    want = np.asarray(b.mesh()).ravel()
                    if task['mesh'] == 'uniform':
                        a, e = [float(q) for q in b.domain]
                        want = np.linspace(a, e, SZ[c]) if c not in tsp.FOUR else a + (e - a) * np.arange(SZ[c]) / SZ[c]
                    got = h[g]['mesh/x%d' % k][...]
                    rec.trans()
                    rec.close(got, want, key + '|x%d' % k, 1e-12)
        # values on that mesh are what Function.backward(mesh=...) gives
    rec.trace()


def do_xdmf(task, rec, d):
    """The XDMF description refers to existing data of the right size and mentions every step."""
    from shenfun import Array
    from shenfun.io import ShenfunFile, HDF5File, generate_xdmf
    import glob
    import h5py
    s = task['s']
    D = len(s)
    T = space(s)
    key = 'xdmf|%s,%s,%s,%d' % (s, task['order'], task['dom'], task['as_scalar'])
    rec.state(key)
    if T.forward.input_array.dtype.kind == 'c':
        return
    W = wrap(T, 'vector') if task['as_scalar'] else T
    u = Array(W)
    pats = [None]
    if D == 3:
        for k in range(3):
            p = [slice(None)] * 3
            p[k] = 2
            pats.append(p)
    steps = (0, 3, 12)

    def go():
        if task['dom'] == 'mesh':
            f = ShenfunFile('x', W, mode='w')
        else:
            f = HDF5File('x.h5', domain=[tuple(float(q) for q in (b.domain[0], b.domain[1] - b.domain[0])) for b in T.bases], mode='w')
        for st in steps:
            u[...] = generic(u.shape, st)
            f.write(st, {'u': [u if p is None else (u, list(p)) for p in pats]}, as_scalar=bool(task['as_scalar']))
        generate_xdmf('x.h5', order=task['order'], periodic=[c in tsp.FOUR for c in s])
        return True
    if rec.guard(go, key) is None:
        return
    got = sorted(glob.glob('*.xdmf'))
    rec.check(len(got) == len(pats), key + '|one file for every composition of slices', str(got))
    with h5py.File('x.h5', 'r') as h:
        for fn in got:
            root = rec.guard(lambda: ET.parse(fn).getroot(), key + '|well formed')
            if root is None:
                continue
            times = [int(float(q)) for q in root.find('.//Time/DataItem').text.split()]
            rec.check(tuple(times) == steps, key + '|times', str(times))
            grids = root.findall('.//Grid/Grid')
            rec.check(len(grids) == len(steps), key + '|grids')
            for g, st in zip(grids, steps):
                at = g.findall('Attribute')
                names = {'u'} if not task['as_scalar'] else {'u%d' % k for k in range(len(u))}
                rec.check({a.get('Name') for a in at} == names, key + '|attributes', str([a.get('Name') for a in at]))
                dims = [int(q) for q in g.find('Topology').get('Dimensions').split()]
                for a in at:
                    it = a.find('DataItem')
                    fname, path = it.text.strip().split(':')
                    rec.trans()
                    ok = fname == 'x.h5' and path in h and path.endswith('/%d' % st) and path.startswith('/' + a.get('Name') + '/')
                    rec.check(ok, key + '|data exists', '%s %s' % (fname, path))
                    if ok:
                        shp = [int(q) for q in it.get('Dimensions').split()]
                        rec.check(int(np.prod(shp)) == h[path].size and [q for q in shp if q > 1] == [q for q in h[path].shape if q > 1], key + '|dimensions', '%s %s' % (shp, h[path].shape))
                        rec.check(int(np.prod(dims)) == h[path].size, key + '|topology', str(dims))
                        prec = int(it.get('Precision'))
                        rec.check(prec == h[path].dtype.itemsize, key + '|precision')
                geo = g.find('Geometry')
                for it in geo.findall('DataItem'):
                    if it.get('Format') == 'HDF':
                        fname, path = it.text.strip().split(':')
                        path = path.replace('//', '/')
                        ok = fname == 'x.h5' and '/' + path.lstrip('/') in h
                        rec.check(ok, key + '|mesh exists', it.text)
                        if ok and task['order'] == 'visit' or ok and D == 3:
                            rec.check(int(it.get('Dimensions')) == h['/' + path.lstrip('/')].size, key + '|mesh size', '%s %s' % (it.get('Dimensions'), path))
                if task['dom'] == 'mesh':
                    nums = [(int(it.get('Dimensions')), it.get('Format')) for it in geo.findall('DataItem')]
                    rec.check(int(np.prod([q for q, _ in nums])) == int(np.prod(dims)), key + '|geometry spans topology', '%s %s' % (nums, dims))
    rec.trace()
