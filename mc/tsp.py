"""Catalogue of bases for tensor product spaces (one letter each) and their 1D linear maps."""
import functools
import numpy as np

SPEC = {
    'F': dict(family='F', dtype='d'), 'G': dict(family='F', dtype='D'),
    'L': dict(family='L', bc=(0, 0)), 'C': dict(family='C', bc=(0, 0)), 'U': dict(family='U', bc=(0, 0)),
    'Q': dict(family='Q', bc=(0, 0)), 'J': dict(family='J', bc=(0, 0), alpha=0, beta=0),
    'O': dict(family='L'), 'T': dict(family='C'), 'Z': dict(family='C', quad='GL'), 'S': dict(family='L', quad='GL'),
    'V': dict(family='U'), 'H': dict(family='H'), 'A': dict(family='La', bc=(0, None)),
    'N': dict(family='C', bc={'left': {'N': 0}, 'right': {'N': 0}}), 'n': dict(family='L', bc={'left': {'N': 0}, 'right': {'N': 0}}),
    'B': dict(family='C', basis='ShenBiharmonic'), 'X': dict(family='L', basis='ShenBiharmonic'),
    'l': dict(family='L', bc=(1.5, -0.5)), 'c': dict(family='C', bc=(1.5, -0.5)), 'u': dict(family='U', bc=(1.5, -0.5)),
    'b': dict(family='C', bc=(1, 0.25, -1, 2)), 'D': dict(family='L', bc=(0, 0), domain=(0, 3)), 'K': dict(family='F', dtype='D', domain=(-1, 2)),
    'e': dict(family='L', bc={'left': {'D': 0}, 'right': {'N': 0}}), 'k': dict(family='F', dtype='d', domain=(-1, 2)), 'y': dict(family='L', bc={'left': {'D': 0.5}, 'right': {'N': 2}}),
}
FOUR = 'FGKk'
HOM = {'l': 'L', 'c': 'C', 'u': 'U', 'b': 'B', 'y': 'e'}


def base(c, N, **kw):
    from shenfun import FunctionSpace
    k = dict(SPEC[c])
    k.update(kw)
    return FunctionSpace(N, k.pop('family'), **k)


def axes_for(s, order=0):
    """Admissible order of transformed axes: non-periodic, complex Fourier, real Fourier last; 'order' permutes within groups."""
    import itertools
    a = [k for k, c in enumerate(s) if c not in FOUR]
    g = [k for k, c in enumerate(s) if c in 'GK']
    f = [k for k, c in enumerate(s) if c in 'Fk']
    ps = [tuple(p) + tuple(q) + tuple(f) for p in itertools.permutations(a) for q in itertools.permutations(g)]
    return ps[order % len(ps)]


def n_orders(s):
    import math
    return math.factorial(len([c for c in s if c not in FOUR])) * math.factorial(len([c for c in s if c in 'GK']))


def dtype_for(s):
    if any(c in 'Fk' for c in s) or not any(c in 'GK' for c in s):
        return 'd'
    return 'D'


def space(s, ns, order=0, comm=None, bkw=None, **kw):
    from shenfun import TensorProductSpace
    import shenfun
    comm = shenfun.comm if comm is None else comm
    bs = [base(c, n, **((bkw or {}).get(k, {}))) for k, (c, n) in enumerate(zip(s, ns))]
    if dtype_for(s) == 'D':
        kw.setdefault('dtype', 'D')
    return TensorProductSpace(comm, bs, axes=axes_for(s, order), **kw)


def _units(n, cplx):
    for i in range(n):
        for p in ((1, 1j) if cplx else (1,)):
            e = np.zeros(n, dtype=complex if cplx else float)
            e[i] = p
            yield i, p, e


@functools.lru_cache(maxsize=None)
def maps(c, N, pf=1.0, kind=None):
    """Real-linear maps of the homogeneous 1D space: name -> (Mr, Mi); action is Mr @ re + Mi @ im (Mi None: complex linear)."""
    b = base(HOM.get(c, c), N)
    if pf != 1.0:
        b = b.get_dealiased(pf)
    out = {}
    M = b.shape(False)
    M = M if np.isscalar(M) else M[0]
    n = b.shape(True)
    n = n if np.isscalar(n) else n[0]
    kw = {} if kind is None else {'kind': kind}
    for nm, f, ni, no, ic, oc in (('forward', b.forward, M, n, c in 'GK', c in FOUR), ('scalar_product', b.scalar_product, M, n, c in 'GK', c in FOUR),
                                  ('backward', b.backward, n, M, c in FOUR, c in 'GK')):
        R = np.zeros((no, ni), dtype=complex if oc else float)
        I = np.zeros_like(R)
        for i, p, e in _units(ni, ic):
            o = np.zeros(no, dtype=complex if oc else float)
            f(e, o, **kw)
            (R if p == 1 else I)[:, i] = o
        if not ic:
            I = None
        elif np.allclose(I, 1j * R) and c not in 'Fk':
            I = None
        out[nm] = (R, I)
    return out


def act(m, x, ax):
    R, I = m
    x = np.moveaxis(x, ax, 0)
    y = np.tensordot(R, x if I is None else x.real, axes=(1, 0))
    if I is not None:
        y = y + np.tensordot(I, x.imag, axes=(1, 0))
    return np.moveaxis(y, 0, ax)


def apply(s, ns, op, x, order=0, pf=None):
    """Product of the 1D maps along every axis"""
    axes = axes_for(s, order)
    seq = axes[::-1] if op != 'backward' else axes
    for ax in seq:
        x = act(maps(s[ax], ns[ax], 1.0 if pf is None else pf[ax])[op], x, ax)
    return x
