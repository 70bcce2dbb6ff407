"""Catalogue of one-dimensional function spaces and an independent oracle for them.

The oracle never calls the package under test: orthogonal polynomials come from
scipy.special, basis functions from the definitions in the documentation (the
narrowest combination of orthogonal polynomials with leading coefficient one that
satisfies the boundary conditions, or the explicit formula), boundary lifts from the
lowest-degree polynomials satisfying the inhomogeneous conditions.
"""
import functools
import numpy as np
from scipy import special

FAMS = {'chebyshev': 'C', 'chebyshevu': 'U', 'legendre': 'L', 'ultraspherical': 'Q', 'jacobi': 'J',
        'laguerre': 'La', 'hermite': 'H', 'fourier': 'F'}
QUADS = {'chebyshev': ['GC', 'GL'], 'chebyshevu': ['GU', 'GC'], 'legendre': ['LG', 'GL'],
         'ultraspherical': ['QG'], 'jacobi': ['JG'], 'laguerre': ['LG'], 'hermite': ['HG'], 'fourier': ['']}

D2 = [('L', 'D'), ('R', 'D')]
N2 = [('L', 'N'), ('R', 'N')]


def clamped(m):
    names = ['D', 'N', 'N2', 'N3', 'N4', 'N5']
    return [('L', names[i]) for i in range(m)] + [('R', names[i]) for i in range(m)]


# class name -> (list of homogeneous conditions, kind of definition)
BCS = {
    'Orthogonal': ([], 'orth'),
    'ShenDirichlet': (D2, 'narrow'), 'CompactDirichlet': (D2, 'narrow'),
    'Phi1': (D2, 'phi1'), 'Heinrichs': (D2, 'heinrichs'),
    'ShenNeumann': (N2, 'narrow'), 'CompactNeumann': (N2, 'narrow'),
    'CombinedShenNeumann': (N2, 'combined'), 'MikNeumann': (N2, 'mik'),
    'ShenBiharmonic': (clamped(2), 'narrow'), 'CompactBiharmonic': (clamped(2), 'narrow'), 'Phi2': (clamped(2), 'phi2'),
    'UpperDirichlet': ([('R', 'D')], 'narrow'), 'LowerDirichlet': ([('L', 'D')], 'narrow'),
    'UpperDirichletNeumann': ([('R', 'D'), ('R', 'N')], 'narrow'),
    'LowerDirichletNeumann': ([('L', 'D'), ('L', 'N')], 'narrow'),
    'DirichletNeumann': ([('L', 'D'), ('R', 'N')], 'narrow'),
    'NeumannDirichlet': ([('L', 'N'), ('R', 'D')], 'narrow'),
    'BeamFixedFree': ([('L', 'D'), ('L', 'N'), ('R', 'N2'), ('R', 'N3')], 'narrow'),
    'ShenBiPolar': (clamped(2), 'bipolar'), 'PolarDirichlet': (D2, 'polar'),
    'Compact3': (clamped(3), 'narrow'), 'Phi3': (clamped(3), 'phi3'),
    'Compact4': (clamped(4), 'narrow'), 'Phi4': (clamped(4), 'phi4'),
    'Phi6': (clamped(6), 'phi6'),
}

CLASSES = {
    'chebyshev': ['Orthogonal', 'ShenDirichlet', 'Heinrichs', 'ShenNeumann', 'CombinedShenNeumann', 'MikNeumann',
                  'ShenBiharmonic', 'UpperDirichlet', 'LowerDirichlet', 'UpperDirichletNeumann',
                  'LowerDirichletNeumann', 'ShenBiPolar', 'PolarDirichlet', 'DirichletNeumann',
                  'NeumannDirichlet', 'Compact3', 'Compact4', 'Phi1', 'Phi2', 'Phi3', 'Phi4', 'Phi6'],
    'chebyshevu': ['Orthogonal', 'CompactDirichlet', 'CompactNeumann', 'UpperDirichlet', 'LowerDirichlet',
                   'CompactBiharmonic', 'Compact3', 'Phi1', 'Phi2', 'Phi3', 'Phi4', 'Phi6'],
    'legendre': ['Orthogonal', 'ShenDirichlet', 'ShenNeumann', 'ShenBiharmonic', 'ShenBiPolar', 'LowerDirichlet',
                 'NeumannDirichlet', 'DirichletNeumann', 'UpperDirichlet', 'UpperDirichletNeumann',
                 'BeamFixedFree', 'Compact3', 'Phi1', 'Phi2', 'Phi3', 'Phi4', 'Phi6'],
    'ultraspherical': ['Orthogonal', 'CompactDirichlet', 'CompactNeumann', 'UpperDirichlet', 'LowerDirichlet',
                       'CompactBiharmonic', 'Phi1', 'Phi2', 'Phi3', 'Phi4', 'Phi6'],
    'jacobi': ['Orthogonal', 'CompactDirichlet', 'CompactNeumann', 'UpperDirichlet', 'LowerDirichlet',
               'Phi1', 'Phi2', 'Phi3', 'Phi4'],
    'laguerre': ['Orthogonal', 'CompactDirichlet', 'CompactNeumann'],
    'hermite': ['Orthogonal'],
    'fourier': ['R2C', 'C2C'],
}


def conditions(d):
    """[(side, name[, parameter])] in the order the boundary coefficients are stored."""
    if d['cls'] in ('R2C', 'C2C'):
        return []
    if d['fam'] == 'laguerre':
        if d['cls'] == 'CompactDirichlet':
            return [('L', 'D')]
        if d['cls'] == 'CompactNeumann':
            return [('L', 'N')]
    if d['cls'] == 'Generic':
        out = []
        for side in 'LR':
            for nm in sorted(d['bc'].get('left' if side == 'L' else 'right', {})):
                v = d['bc']['left' if side == 'L' else 'right'][nm]
                out.append((side, nm, v[0]) if nm in 'RW' else (side, nm))
        return out
    return BCS[d['cls']][0]


def min_n(d):
    """Smallest size explored: room for the band of the mass matrix of the basis."""
    c = d['cls']
    n = len(conditions(d))
    if not n:
        return 2
    if c.startswith('Phi'):
        return max(n + 2, 3 * int(c[3:]))
    if c in ('ShenBiharmonic', 'CompactBiharmonic', 'ShenBiPolar', 'CombinedShenNeumann', 'MikNeumann',
             'PolarDirichlet', 'Heinrichs', 'BeamFixedFree'):
        return n + 4
    return n + 2


def bcvals(d):
    """Values of the boundary conditions (physical), in stored order; zeros if homogeneous."""
    c = conditions(d)
    if d['cls'] == 'Generic':
        out = []
        for side in 'LR':
            bb = d['bc'].get('left' if side == 'L' else 'right', {})
            for nm in sorted(bb):
                out.append(bb[nm][1] if nm in 'RW' else bb[nm])
        return out
    v = d.get('vals')
    return list(v) if v is not None else [0] * len(c)


def names_sorted(conds):
    return sorted(conds, key=lambda c: (c[0], c[1]))


def kwargs(d):
    kw = {}
    if d.get('dom') is not None:
        kw['domain'] = tuple(d['dom'])
    for k in ('alpha', 'beta', 'scaled', 'padding_factor', 'dealias_direct'):
        if d.get(k) is not None:
            kw[k] = d[k]
    if d.get('dtype'):
        kw['dtype'] = d['dtype']
    return kw


def make(d, **extra):
    """Construct the space through the public factory / class."""
    from shenfun import FunctionSpace
    import importlib
    kw = kwargs(d)
    kw.update(extra)
    if d['fam'] == 'fourier':
        kw.setdefault('dtype', 'd' if d['cls'] == 'R2C' else 'D')
        return FunctionSpace(d['N'], 'F', **kw)
    if d.get('quad'):
        kw['quad'] = d['quad']
    if d['cls'] == 'Generic':
        bc = {s: {k: (tuple(v) if isinstance(v, list) else v) for k, v in bb.items()} for s, bb in d['bc'].items()}
        return FunctionSpace(d['N'], FAMS[d['fam']], bc=bc, **kw)
    if d['cls'] == 'Orthogonal':
        return FunctionSpace(d['N'], FAMS[d['fam']], **kw)
    if d.get('factory'):   # by boundary condition
        return FunctionSpace(d['N'], FAMS[d['fam']], bc=bcdict(d), **kw)
    if d.get('vals') is not None:
        if d['fam'] != 'laguerre' or d['cls'] != 'CompactNeumann':
            conds = conditions(d)
            vals = list(d['vals'])
            if len(conds) == 1 and d['fam'] != 'laguerre':
                vals = [None] + vals if conds[0][0] == 'R' else vals + [None]
            kw['bc'] = tuple(vals)
        else:
            kw['bc'] = tuple(d['vals'])
    if 'domain' in kw:
        return FunctionSpace(d['N'], FAMS[d['fam']], basis=d['cls'], **kw)
    return FunctionSpace(d['N'], FAMS[d['fam']], basis=d['cls'], **kw)


def bcdict(d):
    vals = bcvals(d)
    out = {}
    for c, v in zip(conditions(d), vals):
        out.setdefault('left' if c[0] == 'L' else 'right', {})[c[1]] = (c[2], v) if len(c) > 2 else v
    return out


# ---------------------------------------------------------------- orthogonal functions

def jac_ab(d):
    f = d['fam']
    if f == 'chebyshev':
        return -0.5, -0.5
    if f == 'chebyshevu':
        return 0.5, 0.5
    if f == 'legendre':
        return 0., 0.
    if f == 'ultraspherical':
        a = float(eval_num(d.get('alpha') or 0))
        return a, a
    return float(d.get('alpha') or 0), float(d.get('beta') or 0)


def eval_num(x):
    return float(x)


def _jac(k, a, b, x, m):
    """m-th derivative of P_k^{(a,b)} at x."""
    if k < m:
        return np.zeros_like(x)
    c = 1.0
    for i in range(m):
        c *= (k + a + b + 1 + i) / 2
    return c * special.eval_jacobi(k - m, a + m, b + m, x)


def orth(d, k, X, m=0):
    """m-th derivative (reference coordinate) of orthogonal basis function k."""
    f = d['fam']
    X = np.asarray(X, dtype=float)
    if f in ('chebyshev', 'chebyshevu', 'legendre', 'ultraspherical', 'jacobi'):
        a, b = jac_ab(d)
        v = _jac(k, a, b, X, m)
        if f == 'jacobi' or f == 'legendre':
            return v
        p1 = special.eval_jacobi(k, a, b, 1.0)
        return v / p1 * ((k + 1) if f == 'chebyshevu' else 1)
    if f == 'laguerre':
        # d^m [L_k e^{-x/2}] = sum binom(m,j) (-1/2)^{m-j} L_k^{(j)};  L_k^{(j)} = (-1)^j L_{k-j}^{(j)}
        s = 0
        for j in range(m + 1):
            if k >= j:
                s = s + special.binom(m, j) * (-0.5)**(m - j) * (-1)**j * special.eval_genlaguerre(k - j, j, X)
        return s * np.exp(-X / 2)
    if f == 'hermite':
        return _hermfun(k, X, m)
    if f == 'fourier':
        kk = wavenumber(d, k)
        return (1j * kk)**m * np.exp(1j * kk * X)
    raise KeyError(f)


def _hermfun(k, X, m):
    if k < 0:
        return np.zeros_like(X)
    if m == 0:
        # h_k = H_k e^{-x^2/2} / (pi^1/4 sqrt(2^k k!)) by the stable recursion
        h0 = np.pi**-0.25 * np.exp(-X**2 / 2)
        if k == 0:
            return h0
        h1 = np.sqrt(2.) * X * h0
        for j in range(1, k):
            h0, h1 = h1, X * np.sqrt(2. / (j + 1)) * h1 - np.sqrt(j / (j + 1.)) * h0
        return h1
    return np.sqrt(k / 2.) * _hermfun(k - 1, X, m - 1) - np.sqrt((k + 1) / 2.) * _hermfun(k + 1, X, m - 1)


def wavenumber(d, k):
    N = d['N']
    if d['cls'] == 'R2C':
        return k
    return k if k < (N + 1) // 2 else k - N


def dim(d):
    if d['fam'] == 'fourier':
        return d['N'] // 2 + 1 if d['cls'] == 'R2C' else d['N']
    return d['N'] - len(conditions(d))


def refdom(d):
    f = d['fam']
    if f == 'fourier':
        return (0., 2 * np.pi)
    if f == 'laguerre':
        return (0., np.inf)
    if f == 'hermite':
        return (-np.inf, np.inf)
    return (-1., 1.)


def domain(d):
    return tuple(float(v) for v in d['dom']) if d.get('dom') is not None else refdom(d)


def dfactor(d):
    if d['fam'] in ('laguerre', 'hermite'):
        return 1.
    a, b = domain(d)
    c, e = refdom(d)
    return (e - c) / (b - a)


def to_ref(d, x):
    if d['fam'] in ('laguerre', 'hermite'):
        return np.asarray(x, dtype=float)
    return refdom(d)[0] + (np.asarray(x, dtype=float) - domain(d)[0]) * dfactor(d)


def from_ref(d, X):
    if d['fam'] in ('laguerre', 'hermite'):
        return np.asarray(X, dtype=float)
    return domain(d)[0] + (np.asarray(X, dtype=float) - refdom(d)[0]) / dfactor(d)


ORDER = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}


def functional(d, cond, fun):
    """Apply a boundary condition to fun(x_phys_array, m) -> values of the m-th physical derivative."""
    a, b = domain(d)
    x = np.array([a if cond[0] == 'L' else b])
    nm = cond[1]
    if nm == 'R':
        return fun(x, 0)[0] + cond[2] * fun(x, 1)[0]
    if nm == 'W':
        return fun(x, 1)[0] + cond[2] * fun(x, 2)[0]
    return fun(x, ORDER[nm])[0]


def _fmat(d, cols):
    """Functionals applied to orthogonal functions (physical derivatives)."""
    df = dfactor(d)
    return np.array([[functional(d, c, lambda x, m, k=k: orth(d, k, to_ref(d, x), m) * df**m) for k in cols]
                     for c in conditions(d)])


def lead_in_orth(d, values_at):
    """Coefficients in the orthogonal basis of a polynomial given by values_at(X) (degree < M)."""
    M = d['N'] + 2
    a, b = jac_ab(d)
    X, w = special.roots_jacobi(M, a, b)
    V = np.array([orth(d, k, X) for k in range(M)]).T
    return np.linalg.solve(V, values_at(X))


_cache = {}


def stencil(d):
    """S[k, j]: coefficient of orthogonal function j in basis function k."""
    key = repr(sorted((k, str(v)) for k, v in d.items() if k not in ('vals', 'quad', 'dtype')))
    if key in _cache:
        return _cache[key]
    n = dim(d)
    M = d['N']
    kind = BCS[d['cls']][1] if d['cls'] in BCS else 'narrow'
    if d['fam'] == 'fourier' or d['cls'] == 'Orthogonal':
        S = np.eye(n)
    elif kind == 'narrow' or d['fam'] == 'laguerre' or d['cls'] == 'Generic':
        c = len(conditions(d))
        S = np.zeros((n, M))
        for k in range(n):
            A = _fmat(d, range(k + 1, k + 1 + c))
            r = -_fmat(d, [k])[:, 0]
            scale = np.abs(A).max(axis=1)
            scale[scale == 0] = 1
            co, *_ = np.linalg.lstsq(A / scale[:, None], r / scale, rcond=1e-13)
            S[k, k] = 1
            S[k, k + 1:k + 1 + c] = co
            if d.get('scaled') and d['fam'] == 'legendre':
                S[k] /= np.sqrt(4 * k + 6)
            elif d.get('scaled') and d['fam'] == 'chebyshevu':
                S[k] /= k + 1
    else:
        rows = []
        fam = d['fam']
        a, b = jac_ab(d)
        for k in range(n):
            if kind.startswith('phi'):
                m = int(kind[3:])
                Xq, wq = special.roots_jacobi(M + 2, a + m, b + m)
                h = np.sum(orth(d, k + m, Xq, m)**2 * wq)
                f = lambda X, m=m, k=k, h=h: (1 - X**2)**m * orth(d, k + m, X, m) / h
            elif kind == 'heinrichs':
                s = 1. / ((k + 1) * (k + 2)) if d.get('scaled') else 1.
                f = lambda X, k=k, s=s: s * (1 - X**2) * orth(d, k, X)
            elif kind == 'bipolar':
                f = lambda X, k=k: (1 - X**2)**2 * orth(d, k + 1, X, 1)
            elif kind == 'polar':
                f = (lambda X, k=k: orth(d, k, X) - orth(d, k + 2, X)) if k < 2 else \
                    (lambda X, k=k: orth(d, k - 2, X) - orth(d, k + 2, X))
            elif kind in ('combined', 'mik'):
                f = functools.partial(_special_neumann, d, kind, k)
            r = lead_in_orth(d, f)
            if k + 2 < len(r) and kind in ('heinrichs', 'polar'):
                pass
            rows.append(r[:M])
        S = np.array(rows)
        S[np.abs(S) < 1e-14] = 0
    _cache[key] = S
    return S


def _special_neumann(d, kind, k, X):
    T = lambda j: orth(d, j, X)
    if kind == 'combined':
        if k == 0:
            return T(0)
        if k == 1:
            return T(1) - T(3) / 9
        if k == 2:
            return T(2) / 4 - T(4) / 16
        return -T(k - 2) / (k - 2)**2 + 2 * T(k) / k**2 - T(k + 2) / (k + 2)**2
    if k == 0:
        return T(0)
    if k == 1:
        r = 3 * T(1) - T(3) / 3
    elif k == 2:
        r = T(2) - T(4) / 4
    else:
        r = -T(k - 2) / (k - 2) + 2 * T(k) / k - T(k + 2) / (k + 2)
    return r / (k + 1)


def V(d, x, m=0, n=None):
    """Physical m-th derivatives of the orthogonal functions, (len(x), n)."""
    X = to_ref(d, np.atleast_1d(x))
    n = stencil(d).shape[1] if n is None else n
    return np.array([orth(d, k, X, m) for k in range(n)]).T * dfactor(d)**m


def basis(d, x, m=0):
    """m-th physical derivative of every basis function at physical points x: (len(x), dim)."""
    return V(d, x, m) @ stencil(d).T


def lift_coeffs(d):
    """Rows: orthogonal coefficients of the boundary functions (one per condition)."""
    c = conditions(d)
    nb = len(c)
    top = sum(ORDER.get(x[1], 1) for x in c) + 2
    for first in range(top):
        A = _fmat(d, range(first, first + nb))
        s = np.abs(A).max(axis=1)
        if np.any(s == 0):
            continue
        if np.linalg.cond(A / s[:, None]) < 1e12:
            L = np.zeros((nb, first + nb))
            L[:, first:] = np.linalg.inv(A).T
            return L
    raise RuntimeError('no lift')


def lift(d, x, m=0):
    """m-th derivative of the boundary part sum_j vals_j psi_j."""
    v = bcvals(d)
    if not len(v) or not any(float(q) != 0 for q in v):
        return np.zeros(len(np.atleast_1d(x)))
    L = lift_coeffs(d)
    return V(d, x, m, n=L.shape[1]) @ (L.T @ np.array(v, dtype=float))


def evaluate(d, uh, x, m=0):
    """Value of the expansion (with boundary values) or its m-th derivative."""
    uh = np.asarray(uh)
    if d['fam'] == 'fourier':
        B = basis(d, x, m)
        if d['cls'] == 'C2C':
            return B @ uh
        N = d['N']
        w = np.full(dim(d), 2.)
        w[0] = 1
        if N % 2 == 0:
            w[-1] = 1
        return (B * w) @ uh   # caller takes the real part
    n = dim(d)
    return basis(d, x, m) @ uh[:n] + lift(d, x, m)


def interior(d, n=7):
    """Generic points of the physical domain, both ends included when finite."""
    if d['fam'] == 'laguerre':
        return np.array([0., 0.1, 0.7, 1.9, 3.3, 6.1, 9.7])[:n]
    if d['fam'] == 'hermite':
        return np.array([-4.1, -2.3, -0.9, 0., 0.4, 1.7, 3.6])[:n]
    a, b = domain(d)
    t = np.array([0., 0.07, 0.21, 0.5, 0.613, 0.87, 1.])[:n]
    return a + (b - a) * t


# ---------------------------------------------------------------- catalogue

def descriptors(fams=None, classes=None, extra_n=(0, 1, 3, 6), doms=(None,), quads=None, vals=None, alphas=True):
    """Every named space of the chosen families with sizes counted from the smallest admissible."""
    for f in (fams or CLASSES):
        for c in CLASSES[f]:
            if classes and c not in classes:
                continue
            for q in (QUADS[f] if quads is None else [x for x in QUADS[f] if x in quads]):
                for dm in doms:
                    if f in ('laguerre', 'hermite') and dm is not None:
                        continue
                    for ab in ab_list(f, alphas):
                        base = {'fam': f, 'cls': c, 'quad': q}
                        base.update(ab)
                        if dm is not None:
                            base['dom'] = list(dm)
                        m = min_n(base)
                        for e in extra_n:
                            d = dict(base)
                            d['N'] = m + e
                            yield d


def ab_list(f, alphas=True):
    if f == 'jacobi':
        return [{'alpha': 0, 'beta': 0}] + ([{'alpha': 0.5, 'beta': 0}, {'alpha': 1, 'beta': 2}] if alphas else [])
    if f == 'ultraspherical':
        return [{'alpha': 0}] + ([{'alpha': 1.5}] if alphas else [])
    return [{}]


GENERIC_BCS = [
    {'left': {'D': 1.5}},
    {'right': {'N': 0.5}},
    {'left': {'N': -1}},
    {'left': {'D': 1, 'N': 2}},
    {'right': {'D': 1, 'N': 2}},
    {'left': {'D': 1}, 'right': {'N2': -2}},
    {'left': {'N2': 1}, 'right': {'D': -2}},
    {'left': {'D': 1, 'N2': 0.5}, 'right': {'D': -1, 'N2': 2}},
    {'left': {'D': 1, 'N': 0.5}, 'right': {'N2': -1, 'N3': 2}},
    {'left': {'N2': 1, 'N3': 0.5}, 'right': {'D': -1, 'N': 2}},
    {'left': {'N': 1, 'N2': 0.5}, 'right': {'D': -1}},
    {'left': {'D': 1, 'N3': 0.5}, 'right': {'D': -1, 'N': 2}},
    {'left': {'D': 1, 'N': 2, 'N4': 0.5}, 'right': {'D': -1, 'N': 2}},
    {'left': {'D': 1, 'N': 2, 'N2': 0.5}, 'right': {'D': -1}},
    {'left': {'R': [0.7, 1.5]}, 'right': {'R': [-0.4, 2.]}},
    {'left': {'R': [0.7, 1.5]}, 'right': {'D': -1}},
    {'left': {'D': 1}, 'right': {'R': [1.3, 0.5]}},
    {'left': {'W': [0.7, 1.5]}, 'right': {'D': 1.}},
    {'left': {'D': 1.}, 'right': {'W': [0.3, 1.5]}},
    {'left': {'D': 1., 'N': 0.5}, 'right': {'D': 2, 'W': [0.3, 1.5]}},
    {'left': {'N': 1}, 'right': {'N': 3}},
    {'left': {'D': 1.}, 'right': {'D': 3}},
]
