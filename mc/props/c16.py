"""C16: quadrature rules, integration and domain mapping.

Exactness is decided by the complete polynomial (trigonometric) basis up to the degree the rule
guarantees, for every family, rule, size in a range, weighted and unweighted. Reference moments come
from an independent Gauss rule of scipy (or closed forms).
"""
import itertools
import numpy as np
import sympy as sp
from scipy import special
from mc import spaces as S
from mc.common import generic

META = {
    'bounds': 'all families and quadratures, all sizes 1..24 and selected larger ones (thorough: every size to 600), '
              'weighted and unweighted, implicit and explicit number of points; 9 domains (floats, sympy numbers); '
              'integrals of unit modes in 1D/2D/3D spaces, mapped domains and 9 curvilinear systems',
    'rule': 'state = (family, rule, size, weighting) or (space, integrand); transition = one quadrature sum compared',
    'assumptions': ['scipy.special.roots_* and closed-form moments are correct'],
}

GAUSS = {'GC': 1, 'LG': 1, 'QG': 1, 'JG': 1, 'HG': 1, 'GL': 3, 'GU': 3}


def degree(f, q, N):
    """Highest degree integrated exactly with the weight of the family."""
    if f == 'chebyshevu':
        # weights of GU are Gauss for the second kind; GC has the weight of the first kind times (1-x^2)
        return 2 * N - 1 if q == 'GU' else 2 * N - 3
    return 2 * N - GAUSS[q]


SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 23, 24, 32, 33]


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for f in ('chebyshev', 'chebyshevu', 'legendre', 'ultraspherical', 'jacobi', 'laguerre', 'hermite'):
        for q in S.QUADS[f]:
            for ab in ([{}] if f not in ('jacobi', 'ultraspherical') else
                       ([{'alpha': 0, 'beta': 0}, {'alpha': 0.5, 'beta': 0}, {'alpha': 1, 'beta': 2}, {'alpha': -0.5, 'beta': 0.5}] if f == 'jacobi'
                        else [{'alpha': 0}, {'alpha': 1.5}, {'alpha': 1}, {'alpha': -0.5}])):
                ns = SIZES + ([64, 65, 100, 128] if f in ('chebyshev', 'chebyshevu', 'legendre') else [])
                if not quick:
                    ns = list(range(1, 130))
                for grp in [ns[i::3] for i in range(3)]:
                    out.append({'kind': 'rule', 'fam': f, 'quad': q, 'ns': grp, **ab})
    step = 400
    for a in range(1, 600 if quick else 4000, step):
        out.append({'kind': 'fastgl', 'a': a, 'b': a + step, 'stride': 7 if quick and a > 200 else 1})
    out.append({'kind': 'fourier', 'ns': list(range(2, 20)) + ([32, 33] if quick else list(range(20, 130)))})
    for f in S.CLASSES:
        for c in S.CLASSES[f][:4]:
            out.append({'kind': 'mapping', 'fam': f, 'cls': c})
    for f in S.CLASSES:
        out.append({'kind': 'int1d', 'fam': f})
    names = ['C', 'L', 'F', 'G', 'U', 'Q', 'J']
    pairs = [('C', 'L'), ('L', 'C'), ('F', 'C'), ('C', 'F'), ('G', 'F'), ('U', 'Q'), ('J', 'G'), ('L', 'U'), ('L', 'L')] if quick else \
        [p for p in itertools.product(names, names) if p != ('F', 'F') and p != ('F', 'G')]
    for p in pairs:
        for dm in (0, 1):
            out.append({'kind': 'int2d', 'fams': p, 'dom': dm})
    for p in ([('G', 'F', 'L'), ('C', 'L', 'U'), ('L', 'G', 'F')] if quick else [q for q in itertools.product('CLFG', repeat=3) if q.count('F') < 2 and 'FG' not in ''.join(q) and 'FCG' not in ''.join(q) and 'FLG' not in ''.join(q)]):
        for dm in (0, 1):
            out.append({'kind': 'int2d', 'fams': p, 'dom': dm})
    for i in range(len(CURV)):
        out.append({'kind': 'curv', 'i': i})
    return out


def run(task, rec):
    globals()['do_' + task['kind']](task, rec)


def space(f, N, q='', ab=None, **kw):
    from shenfun import FunctionSpace
    ab = dict(ab or {})
    if q:
        ab['quad'] = q
    ab.update(kw)
    return FunctionSpace(N, S.FAMS[f], **ab)


def moments(d, M, weighted):
    """Integrals of the orthogonal functions 0..M, and of their absolute values roughly (for scale)."""
    a, b = S.jac_ab(d)
    n = M // 2 + 3
    X, w = special.roots_jacobi(n, a, b) if weighted else special.roots_legendre(n)
    return np.array([np.sum(w * S.orth(d, k, X)) for k in range(M + 1)])


def do_rule(task, rec):
    f, q = task['fam'], task['quad']
    ab = {k: task[k] for k in ('alpha', 'beta') if k in task}
    for N in task['ns']:
        if (q == 'GL' or f == 'hermite') and N < 2 or (f in ('laguerre', 'hermite') and N > 33):
            continue
        d = {'fam': f, 'cls': 'Orthogonal', 'quad': q, 'N': N, **ab}
        key = '%s,%s,%s,N=%d' % (f, q, ab, N)
        spc = rec.guard(lambda: space(f, N, q, ab), 'construct|' + key)
        if spc is None:
            continue
        other = space(f, N + 3, q, ab)
        for how, X, w in (('default', *spc.points_and_weights()), ('explicit', *other.points_and_weights(N)),
                          ('positional', *other.points_and_weights(N, False, True))):
            rec.state(key, how, 'w')
            check_rule(d, X, w, True, degree(f, q, N), key + '|' + how, rec)
        for how, g in (('default', lambda: spc.points_and_weights(weighted=False)),
                       ('explicit', lambda: other.points_and_weights(N=N, weighted=False))):
            if f == 'chebyshev' and N == 1 or f in ('laguerre', 'hermite') and how == 'explicit':
                continue
            r = rec.guard(g, 'unweighted|%s|%s' % (key, how))
            if r is None:
                continue
            rec.state(key, how, 'u')
            if f in ('laguerre', 'hermite'):
                g0 = special.roots_laguerre(N) if f == 'laguerre' else special.roots_hermite(N)
                if np.shape(r[1]) == (N,) and np.allclose(r[0], g0[0], 1e-8, 1e-10) and np.allclose(r[1], g0[1], 1e-8, 1e-300):
                    # the plain Gauss weights: integrals of f come out as integrals of f*exp(-x), f*exp(-x^2)
                    rec.fail('unweighted-default|%s|plain Gauss weights' % f, key)
                    continue
            check_rule(d, r[0], r[1], False, N - 1 if f != 'legendre' else degree(f, q, N), key + '|unweighted|' + how, rec)
        # the same points whatever is asked for
        rec.close(np.asarray(spc.mesh(), dtype=float), spc.points_and_weights()[0], 'mesh|' + key, 1e-13)
        rec.trace()
    rec.sample(task)


def check_rule(d, X, w, weighted, deg, key, rec):
    f, N = d['fam'], d['N']
    X, w = np.asarray(X, dtype=float), np.asarray(w, dtype=float)
    if not rec.check(X.shape == (N,) and w.shape == (N,), 'shape|' + key, '%s %s' % (X.shape, w.shape)):
        return
    dx = np.diff(X)
    rec.check(bool(np.all(dx > 0) or np.all(dx < 0)) or N == 1, 'monotone|' + key, str(X))
    if f in ('chebyshev', 'chebyshevu'):
        rec.check(bool(np.all(dx < 0)), 'order|' + key, 'Chebyshev points run from 1 to -1')
    elif f != 'hermite':
        rec.check(bool(np.all(dx > 0)), 'order|' + key, 'points must increase')
    lo, hi = S.refdom(d)
    rec.check(bool(np.all(X >= lo - 1e-15) and np.all(X <= hi + 1e-15)), 'inside|' + key, str(X))
    if d['quad'] == 'GL':
        rec.check(abs(abs(X[0]) - 1) < 1e-15 and abs(abs(X[-1]) - 1) < 1e-15, 'ends|' + key, str(X))
    rec.check(not weighted or bool(np.all(w > -1e-15)), 'positive|' + key, str(w))
    deg = min(deg, 70)
    if f == 'laguerre':
        # sum of products of basis functions (with e^{-x}); both integrals without extra weight
        for i in range(N):
            for j in range(N):
                rec.trans()
                rec.close(np.sum(w * S.orth(d, i, X) * S.orth(d, j, X)), float(i == j), 'exact|' + key, 1e-9, (i, j))
        return
    if f == 'hermite':
        for i in range(N):
            for j in range(N):
                rec.trans()
                rec.close(np.sum(w * S.orth(d, i, X) * S.orth(d, j, X)), float(i == j), 'exact|' + key, 1e-9, (i, j))
        return
    want = moments(d, deg, weighted)
    for k in range(deg + 1):
        v = S.orth(d, k, X)
        rec.trans()
        rec.close(np.sum(w * v), want[k], 'exact|' + key, 1e-11 if weighted else 1e-8, 'degree %d' % k, scale=max(1., np.sum(np.abs(w * v)), np.abs(v).max()))
    rec.outcome(key, X, w)


def do_fastgl(task, rec):
    """Tabulated and asymptotic Gauss-Legendre rules for every size in a range."""
    from shenfun.legendre import fastgl
    from shenfun.legendre.lobatto import legendre_lobatto_nodes_and_weights
    for N in range(task['a'], task['b'], task['stride']):
        x, w = fastgl.leggauss(N)
        x, w = np.asarray(x), np.asarray(w)
        key = 'N=%d' % N
        rec.check(x.shape == (N,) and bool(np.all(np.diff(x) > 0)), 'fastgl-order|' + key)
        m = min(2 * N - 1, 40)
        for k in list(range(m + 1)) + sorted(set([N // 2 * 2, N, N + 1, 2 * N - 2]) & set(range(2 * N))):
            rec.trans()
            v = special.eval_legendre(k, x)
            rec.close(np.sum(w * v), 2. if k == 0 else 0., 'fastgl|' + key, 1e-12, 'degree %d' % k)
        # the points are the roots
        dv = N * (special.eval_legendre(N - 1, x) - x * special.eval_legendre(N, x)) / (1 - x**2)
        rec.close(special.eval_legendre(N, x) / dv, 0 * x, 'fastgl-roots|' + key, 1e-13)
        rec.close(w, 2 / ((1 - x**2) * dv**2), 'fastgl-weights|' + key, 1e-9, scale=w.max())
        rec.state('fastgl', N)
        if 2 <= N <= 260:
            x, w = legendre_lobatto_nodes_and_weights(N)
            rec.check(bool(np.all(np.diff(x) > 0)) and abs(x[0] + 1) < 1e-15 and abs(x[-1] - 1) < 1e-15, 'lobatto-ends|' + key)
            for k in range(min(2 * N - 3, 40) + 1):
                rec.trans()
                rec.close(np.sum(w * special.eval_legendre(k, x)), 2. if k == 0 else 0., 'lobatto|' + key, 1e-12, 'degree %d' % k)
            rec.state('lobatto', N)
        rec.trace()


FDOMS = [None, (-1., 2.), (0, sp.pi), (-sp.pi, sp.pi), (0, 4 * sp.pi), (1, 3)]


def do_fourier(task, rec):
    for N in task['ns']:
        for dt in 'dD':
            for dom in FDOMS:
                kw = {'domain': dom} if dom else {}
                spc = space('fourier', N, dtype=dt, **kw)
                key = 'fourier,%s,N=%d,%s' % (dt, N, dom)
                a, b = (float(v) for v in (dom or (0, 2 * np.pi)))
                L = b - a
                x = np.asarray(spc.mesh(), dtype=float)
                rec.close(x, a + np.arange(N) * L / N, 'points|' + key, 1e-13)
                X, w = spc.points_and_weights()
                rec.close(X, np.arange(N) * 2 * np.pi / N, 'ref-points|' + key, 1e-13)
                rec.close(np.asarray(w, dtype=float), np.full(np.shape(w), (2 * np.pi / L if abs(L - 2 * np.pi) > 1e-12 else 1) / N), 'weights|' + key, 1e-13)
                k = np.asarray(spc.wavenumbers())
                want = np.arange(N // 2 + 1) if dt == 'd' else np.array([j if j < (N + 1) // 2 else j - N for j in range(N)])
                if dt == 'd':
                    want = np.arange(N // 2 + 1)
                rec.check(np.array_equal(k, want), 'wavenumbers|' + key, k)
                rec.close(np.asarray(spc.wavenumbers(scaled=True), dtype=float), want * 2 * np.pi / L, 'wavenumbers-scaled|' + key, 1e-13)
                w0 = want.copy()
                if N % 2 == 0:
                    w0[N // 2] = 0
                rec.check(np.array_equal(np.asarray(spc.wavenumbers(eliminate_highest_freq=True)), w0), 'wavenumbers-eliminate|' + key)
                rec.close(np.asarray(spc.wavenumbers(scaled=True, eliminate_highest_freq=True), dtype=float), w0 * 2 * np.pi / L, 'wavenumbers-both|' + key, 1e-13)
                for m in range(-N + 1, N):
                    rec.trans()
                    s = np.sum(np.exp(1j * m * X)) * (2 * np.pi / N)
                    u = spc.points_and_weights(weighted=False)[1]
                    s2 = np.sum(np.exp(1j * m * X) * u)
                    rec.close(s2, s, 'unweighted|' + key, 1e-12)
                rec.state(key)
                rec.trace()


DOMS = [None, (0.5, 3.), (-2, 3), (0, 1), (sp.Rational(1, 3), sp.Rational(7, 2)), (0, sp.pi), (-sp.sqrt(2), 2), (-10., -9.5), (1., 3.), (-1., 1.0005), (0., 2 + 1e-6)]


def do_mapping(task, rec):
    f, c = task['fam'], task['cls']
    xs = sp.Symbol('x', real=True)
    for dom in DOMS:
        if f in ('laguerre', 'hermite') and dom is not None:
            continue
        base = {'fam': f, 'cls': c, 'quad': S.QUADS[f][0], 'N': 9}
        if f in ('jacobi', 'ultraspherical'):
            base.update({'alpha': 0, 'beta': 0} if f == 'jacobi' else {'alpha': 1})
        d = dict(base)
        if dom:
            d['dom'] = list(dom)
        spc = rec.guard(lambda: S.make(d), 'construct|%s.%s %s' % (f, c, dom))
        if spc is None:
            continue
        key = '%s.%s,%s' % (f, c, dom)
        rec.state(key)
        a, b = S.domain(d)
        ra, rb = S.refdom(d)
        if np.isfinite(b - a):
            rec.close(float(spc.domain_factor()), (rb - ra) / (b - a), 'factor|' + key, 1e-14)
            rec.close(float(spc.domain_length()), b - a, 'length|' + key, 1e-14)
            pts = [a, b, a + 0.3 * (b - a), (a + b) / 2]
        else:
            pts = [0.5, 3.25, 1.]
        for x in pts:
            rec.trans(3)
            X = float(S.to_ref(d, x))
            rec.close(float(spc.map_reference_domain(x)), X, 'to-ref|' + key, 1e-13)
            rec.close(float(spc.map_true_domain(X)), x, 'to-true|' + key, 1e-13)
            rec.close(float(spc.map_true_domain(spc.map_reference_domain(x))), x, 'roundtrip|' + key, 1e-13)
            rec.close(float(spc.map_reference_domain(sp.Float(x, 20))), X, 'to-ref-sympy|' + key, 1e-12)
            rec.close(float(spc.map_true_domain(sp.Float(X, 20))), x, 'to-true-sympy|' + key, 1e-12)
            rec.close(float(sp.sympify(spc.map_reference_domain(xs)).subs(xs, x)), X, 'to-ref-symbol|' + key, 1e-12)
            rec.close(float(sp.sympify(spc.map_true_domain(xs)).subs(xs, X)), x, 'to-true-symbol|' + key, 1e-12)
            g = spc.map_expression_true_domain(xs**2 + sp.sin(xs))
            rec.close(float(g.subs(xs, X)), x**2 + np.sin(x), 'expr|' + key, 1e-11)
            g = spc.map_expression_true_domain(xs**2 + sp.sin(xs), xs)
            rec.close(float(g.subs(xs, X)), x**2 + np.sin(x), 'expr-x|' + key, 1e-11)
        arr = np.array(pts)
        a0 = arr.copy()
        rec.close(spc.map_reference_domain(arr), S.to_ref(d, arr), 'array-to-ref|' + key, 1e-13)
        rec.close(spc.map_true_domain(spc.map_reference_domain(arr)), arr, 'array-roundtrip|' + key, 1e-13)
        rec.check(np.array_equal(arr, a0), 'array-modified|' + key)
        for bc in (True, False):
            X = np.asarray(spc.mesh(bc, False), dtype=float)
            rec.close(np.asarray(spc.mesh(bc, True), dtype=float), S.from_ref(d, X), 'mesh|' + key, 1e-12)
            rec.close(np.asarray(spc.mesh(bc), dtype=float), S.from_ref(d, X), 'mesh-default|' + key, 1e-12)
        P, w = spc.points_and_weights()
        P2, w2 = spc.points_and_weights(map_true_domain=True)
        rec.close(np.asarray(P2, dtype=float), S.from_ref(d, P), 'points-mapped|' + key, 1e-12)
        rec.close(np.asarray(w2, dtype=float), np.asarray(w, dtype=float), 'weights-mapped|' + key, 1e-13)
        if f not in ('laguerre', 'hermite', 'fourier'):
            U = np.asarray(spc.mesh(True, True, 'uniform'), dtype=float)
            rec.close(U, np.linspace(a, b, spc.shape(False)), 'uniform|' + key, 1e-13)
            U = np.asarray(spc.mesh(True, False, 'uniform'), dtype=float)
            rec.close(U, np.linspace(-1, 1, spc.shape(False)), 'uniform-ref|' + key, 1e-12)
        rec.trace()


def do_int1d(task, rec):
    """inner(1, u) for Arrays and Functions: the integral over the physical domain."""
    from shenfun import inner, Array, Function, dx
    f = task['fam']
    for q in S.QUADS[f]:
        for dom in ([None] if f in ('laguerre', 'hermite') else [None, (0.5, 3.), (-2, 3)]):
            for c in S.CLASSES[f][:3]:
                for N in (7, 8, 12):
                    d = {'fam': f, 'cls': c, 'quad': q, 'N': N}
                    if f in ('jacobi', 'ultraspherical'):
                        d.update({'alpha': 1, 'beta': 2} if f == 'jacobi' else {'alpha': 1})
                    if dom:
                        d['dom'] = list(dom)
                    spc = S.make(d)
                    key = 'integral|%s.%s,%s,N=%d,%s' % (f, c, q, N, dom)
                    x = np.asarray(spc.mesh(), dtype=float)
                    a, b = S.domain(d)
                    if f == 'fourier':
                        fs = [(np.cos(2 * np.pi * k * (x - a) / (b - a)), (b - a) if k == 0 else 0.) for k in range(3)]
                    elif f == 'laguerre':
                        fs = [(x**k * np.exp(-x), float(special.factorial(k))) for k in range(4)]
                    elif f == 'hermite':
                        fs = [(x**k * np.exp(-x**2), float(special.gamma((k + 1) / 2)) if k % 2 == 0 else 0.) for k in range(4)]
                    else:
                        fs = [(x**k, (b**(k + 1) - a**(k + 1)) / (k + 1)) for k in range(5)]
                    for v, w in fs:
                        ua = Array(spc)
                        ua[:] = v
                        keep = ua.copy()
                        rec.trans(2)
                        if f in ('laguerre', 'hermite'):
                            plain = np.sum((special.roots_laguerre if f == 'laguerre' else special.roots_hermite)(len(x))[1] * v)
                            if abs(inner(1, ua) - plain) < 1e-10 * max(1, abs(plain)) < abs(plain - w):
                                rec.fail('unweighted-default|%s|plain Gauss weights' % f, key)
                                w = plain
                        rec.close(inner(1, ua), w, key, 1e-10)
                        rec.close(inner(2.5, ua), 2.5 * w, key + '|scaled', 1e-10)
                        rec.close(inner(ua, 1), w, key + '|swapped', 1e-10)
                        rec.check(np.array_equal(keep, ua), key + '|modified')
                    # unit coefficient vectors of the space
                    if f in ('laguerre', 'hermite', 'fourier'):
                        continue
                    n = S.dim(d)
                    XG, WG = special.roots_legendre(N + 6)
                    Bq = S.basis(d, S.from_ref(d, XG))
                    for k in range(n):
                        u = Function(spc)
                        u[k] = 1
                        if c != 'Orthogonal' and k > N - 2:
                            continue
                        rec.trans()
                        # the nodal interpolant of degree N-1 is the function itself
                        rec.close(inner(1, u), np.sum(WG * Bq[:, k]) / S.dfactor(d), key + '|unit', 1e-9, k, scale=max(1., np.abs(Bq).max()))
                    rec.state(key)
                    rec.trace()


def one_base(c, N, dm, i):
    from shenfun import FunctionSpace
    if c in 'FG':
        dom = [(0., 2 * np.pi), (-1., 2.)][dm]
        return FunctionSpace(N, 'F', dtype='d' if c == 'F' else 'D', domain=dom), dom
    dom = [(-1., 1.), (0.5, 3.), (-2., 1.)][dm * (1 + i % 2)]
    kw = {'J': {'alpha': 1, 'beta': 2}, 'Q': {'alpha': 1}}.get(c, {})
    return FunctionSpace(N, c, domain=dom, **kw), dom


def unit1d(c, dom, x, k):
    """(values, integral) of the k-th test integrand along one direction."""
    a, b = dom
    if c in 'FG':
        th = 2 * np.pi * (x - a) / (b - a)
        fn = [np.ones_like(x), np.cos(th), np.sin(2 * th) + 0.5, np.cos(th)**2][k]
        return fn, [1., 0., 0.5, 0.5][k] * (b - a)
    return x**k, (b**(k + 1) - a**(k + 1)) / (k + 1)


def do_int2d(task, rec):
    from shenfun import inner, Array, Function, TensorProductSpace, VectorSpace, comm, dx
    sizes = [8, 7, 6]
    bs = [one_base(c, sizes[i], task['dom'], i) for i, c in enumerate(task['fams'])]
    T = TensorProductSpace(comm, [b[0] for b in bs])
    key = 'int|%s|%d' % (''.join(task['fams']), task['dom'])
    mesh = T.local_mesh(True)
    nd = len(bs)
    V = VectorSpace(T)
    df = np.prod([S.dfactor({'fam': 'fourier' if c in 'FG' else 'legendre', 'dom': b[1]}) for c, b in zip(task['fams'], bs)])
    for ks in itertools.product(range(4), repeat=nd):
        if nd == 3 and sum(ks) > 4:
            continue
        v, w = 1., 1.
        for i, k in enumerate(ks):
            g, h = unit1d(task['fams'][i], bs[i][1], mesh[i], k)
            v, w = v * g, w * h
        u = Array(T)
        u[:] = v
        keep = np.array(u)
        rec.trans(3)
        rec.close(inner(1, u), w, key, 1e-10, ks)
        rec.close(inner(u, 3), 3 * w, key + '|swapped', 1e-10, ks)
        rec.check(np.array_equal(keep, np.array(u)), key + '|modified')
        rec.close(dx(u), w * df, key + '|dx', 1e-10, ks)
        uh = u.forward()
        rec.close(inner(1, uh), w, key + '|Function', 1e-9, ks)
        uv = Array(V)
        for i in range(nd):
            uv[i] = v * (i + 1)
        rec.close(inner((1,) * nd, uv), w * nd * (nd + 1) / 2, key + '|vector', 1e-9, ks)
        rec.close(inner((2,) + (0,) * (nd - 1), uv), 2 * w, key + '|vector2', 1e-9, ks)
        rec.state(key, ks)
    rec.trace()
    rec.sample(task)


def curvs():
    x, y, z = sp.symbols('x,y,z', real=True, positive=True)
    return [
        # name, psi, rv, bases (family, N, domain), assumptions
        ('polar', (x, y), (y * sp.cos(x), y * sp.sin(x)), [('G', 12, (0, 2 * sp.pi)), ('L', 10, (0, 1))]),
        ('polar-rt', (x, y), (x * sp.cos(y), x * sp.sin(y)), [('L', 10, (1, 3)), ('G', 12, (0, 2 * sp.pi))]),
        ('polar-cheb', (x, y), (x * sp.cos(y), x * sp.sin(y)), [('C', 10, (1, 2)), ('F', 12, (0, 2 * sp.pi))]),
        ('sphere', (x, y), (sp.sin(x) * sp.cos(y), sp.sin(x) * sp.sin(y), sp.cos(x)), [('L', 24, (0, sp.pi)), ('G', 10, (0, 2 * sp.pi))]),
        ('torus', (x, y), ((3 + sp.cos(x)) * sp.cos(y), (3 + sp.cos(x)) * sp.sin(y), sp.sin(x)), [('G', 10, (0, 2 * sp.pi)), ('F', 8, (0, 2 * sp.pi))]),
        ('cylinder', (x, y, z), (x * sp.cos(y), x * sp.sin(y), z), [('L', 8, (0, 2)), ('G', 8, (0, 2 * sp.pi)), ('C', 9, (0, 3))]),
        ('spherical', (x, y, z), (x * sp.sin(y) * sp.cos(z), x * sp.sin(y) * sp.sin(z), x * sp.cos(y)), [('L', 6, (1, 2)), ('L', 22, (0, sp.pi)), ('G', 8, (0, 2 * sp.pi))]),
        ('skew', (x, y), (x + y / 2, y * 2), [('L', 6, (-1, 1)), ('C', 7, (0, 3))]),
        ('helix', (x,), (sp.cos(x), sp.sin(x), x / 2), [('L', 22, (0, 4))]),
        ('circle', (x,), (2 * sp.cos(x), 2 * sp.sin(x)), [('F', 12, (0, 2 * sp.pi))]),
        ('parabola', (x,), (x, x**2), [('L', 26, (0, 1))]),
    ]


CURV = range(11)


def do_curv(task, rec):
    from shenfun import FunctionSpace, TensorProductSpace, Array, Function, inner, comm
    name, psi, rv, bs = curvs()[task['i']]
    bases = []
    for c, N, dom in bs:
        kw = {'dtype': 'd' if c == 'F' else 'D'} if c in 'FG' else {}
        bases.append(((N, 'F' if c in 'FG' else c), dict(domain=dom, **kw)))
    assume = sp.Q.positive(sp.sin(psi[0])) & sp.Q.positive(3 + sp.cos(psi[0]))
    if name == 'spherical':
        assume = sp.Q.positive(sp.sin(psi[1]))
    coords = (psi if len(psi) > 1 else psi[0], rv, assume)
    if len(psi) == 1:
        a, k = bases[0]
        T = FunctionSpace(*a, coordinates=coords, **k)
    else:
        T = TensorProductSpace(comm, [FunctionSpace(*a, **k) for a, k in bases], coordinates=coords, dtype='D' if any(b[0] == 'G' for b in bs) and not any(b[0] == 'F' for b in bs) else None)
    J = sp.Matrix([[sp.diff(r, p) for p in psi] for r in rv])
    g = sp.lambdify(psi, (J.T * J).det(), 'numpy')
    mesh = [np.asarray(m, dtype=float) for m in (T.local_mesh(True) if len(psi) > 1 else [T.mesh()])]
    fs = [sp.S(1)] + [p for p, b in zip(psi, bs) if b[0] not in 'FG'] + [sp.cos(p)**2 for p, b in zip(psi, bs) if b[0] in 'FG'] + \
        [sum(r**2 for r in rv), rv[0]**2 + rv[1]]
    # reference integral: high-order Gauss-Legendre / trapezoidal product rule
    qs = []
    for c, N, dom in bs:
        a, b = float(dom[0]), float(dom[1])
        if c in 'FG':
            qs.append((a + np.arange(64) * (b - a) / 64, np.full(64, (b - a) / 64)))
        else:
            X, W = special.roots_legendre(48)
            qs.append((a + (X + 1) * (b - a) / 2, W * (b - a) / 2))
    G = np.meshgrid(*[q[0] for q in qs], indexing='ij')
    W = 1.
    for i, q in enumerate(qs):
        W = W * q[1].reshape([-1 if i == j else 1 for j in range(len(qs))])
    sg = np.sqrt(np.abs(g(*G) + 0 * G[0]))
    for f in fs:
        key = 'curv|%s|%s' % (name, f)

        def go():
            fn = sp.lambdify(psi, f, 'numpy')
            want = np.sum(W * sg * (fn(*G) + 0 * G[0]))
            u = Array(T)
            u[:] = fn(*mesh) + 0 * mesh[0]
            keep = np.array(u)
            rec.close(inner(1, u), want, key, 1e-8)
            rec.check(np.array_equal(keep, np.array(u)), key + '|modified', 'inner(1, u) changed u')
            rec.close(inner(1, u), want, key + '|again', 1e-8)
            rec.close(inner(u, 2), 2 * want, key + '|swapped', 1e-8)
            ub = Array(T, buffer=f)
            rec.close(np.array(ub), keep, key + '|buffer', 1e-11)
            rec.trans(3)
            rec.trace()
            rec.state(key)
        rec.guard(go, key)
