"""What every property module uses: recording, comparing, enumerating."""
import hashlib
import itertools
import json
import os
import traceback
import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def h64(*key):
    s = json.dumps(key, sort_keys=True, default=str)
    return hashlib.blake2b(s.encode(), digest_size=7).hexdigest()


class Rec:
    """Collects what one task covered and what it found."""
    MAXV = 60

    def __init__(self, prop, task):
        self.prop, self.task = prop, task
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = self.checks = 0
        self.violations, self.samples, self.counters = [], [], {}

    def state(self, *key):
        """Record a distinct state (a canonical, observable description). True when new."""
        h = h64(*key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def outcome(self, *o):
        """Observed result, rounded: shows that different executions observe different things."""
        v = []
        for x in o:
            if isinstance(x, np.ndarray):
                with np.errstate(all='ignore'):
                    x = np.asarray(x)
                    v.append([x.shape, [float('%.5g' % q) for q in np.abs(x).ravel()[:12]]])
            else:
                v.append(x)
        self.outcomes.add(h64(v))

    def fail(self, key, detail):
        if len(self.violations) < self.MAXV:
            k = self.prop + '|' + key
            if all(v['key'] != k for v in self.violations):
                self.violations.append({'key': k, 'detail': str(detail)[:2500]})

    def check(self, ok, key, detail=''):
        self.checks += 1
        if not ok:
            self.fail(key, detail() if callable(detail) else detail)
        return bool(ok)

    def close(self, a, b, key, tol=1e-9, detail='', scale=None):
        """a equals b to within tol*max(1,|b|max) (or tol*scale)."""
        self.checks += 1
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b) if (a.ndim == 0 or b.ndim == 0) else (a, b)
            except ValueError:
                pass
            if a.shape != b.shape:
                self.fail(key, 'shape %s, expected %s; %s' % (a.shape, b.shape, detail))
                return False
        if a.size == 0:
            return True
        with np.errstate(all='ignore'):
            s = max(1.0, float(np.max(np.abs(b)))) if scale is None else scale
            err = np.max(np.abs(a - b)) if a.dtype.kind != 'O' else max(abs(x - y) for x, y in zip(a.ravel(), b.ravel()))
        if not (np.isfinite(err) and err <= tol * s):
            i = int(np.argmax(np.where(np.isfinite(np.abs(a - b)), np.abs(a - b), np.inf).ravel())) if a.dtype.kind != 'O' else 0
            self.fail(key, 'max error %.3e (allowed %.1e*%.3g) at flat index %d: got %s expected %s; %s'
                      % (err, tol, s, i, a.ravel()[i], b.ravel()[i], detail() if callable(detail) else detail))
            return False
        return True

    def guard(self, f, key):
        """Run f; an exception is a violation of the property at `key`."""
        try:
            return f()
        except Exception as e:  # pylint: disable=broad-except
            tb = traceback.format_exc().strip().splitlines()
            self.fail(key + '|exception:' + type(e).__name__,
                      'task %s\n%s' % (json.dumps(self.task), '\n'.join(tb[-14:])))
            return None

    def result(self):
        return {'states': sorted(self.states), 'outcomes': sorted(self.outcomes),
                'transitions': self.transitions, 'traces': self.traces, 'checks': self.checks,
                'violations': self.violations, 'samples': self.samples, 'counters': self.counters}


def generic(shape, k=0, cplx=False):
    """A fixed generic array (no zeros, no symmetry): the same for the same seed."""
    n = int(np.prod(shape)) if shape else 1
    rng = np.random.RandomState((SEED * 7919 + 31 * k + n) % (2**31))
    a = rng.uniform(-1, 1, n) + 0.05
    if cplx:
        a = a + 1j * rng.uniform(-1, 1, n)
    return a.reshape(shape)


def product(**kw):
    ks = list(kw)
    for v in itertools.product(*[kw[k] for k in ks]):
        yield dict(zip(ks, v))
