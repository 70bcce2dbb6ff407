"""C04: every 1D matrix holds the inner products it stands for.

Enumerates (test basis, trial basis, derivative orders, measure, sizes, domain, kind of assembly) and
compares every entry with the inner product of independently built basis functions integrated by a
Gauss rule of more than sufficient order. Entries whose integrand exceeds the degree the space's own
quadrature integrates exactly are compared with that quadrature's value or the exact one.
"""
import numpy as np
import sympy as sp
from scipy import special
from mc import spaces as S
from mc.props.c16 import degree

META = {
    'bounds': 'all ordered pairs of named bases within a family (22x22 chebyshev, 17x17 legendre, ...), boundary bases as trial, pairs '
              'across families; derivative pairs up to total order 4; measures 1, x, x^2, 1+x, (1+x)^2, 1-x^2 and non-polynomial ones; '
              'default/implemented/stencil/vandermonde/exact/adaptive/fixed_resolution; two sizes (thorough four); mapped domains',
    'rule': 'state = (test, trial, derivatives, measure, kind, size, domain); transition = one matrix assembled and compared entry by entry',
    'assumptions': ['scipy Gauss-Jacobi rules and Jacobi polynomials for the reference; tolerance 1e-9 relative to the norms of the two functions'],
}

DERIV = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (2, 2), (0, 4), (4, 0), (1, 2), (0, 3), (3, 1)]
X = sp.Symbol('x', real=True)
MEAS = {'1': 1, 'x': X, 'x2': X**2, '1+x': 1 + X, '(1+x)2': (1 + X)**2, '1-x2': 1 - X**2, '3': 3, '2x': 2 * X,
        'mix': 2 * X**2 - 3 * X + sp.Rational(1, 2), 'x3': X**3, 'x4': X**4, 'cos': sp.cos(X), 'exp': sp.exp(X / 2)}
PDEG = {'1': 0, '3': 0, 'x': 1, '1+x': 1, '2x': 1, 'x2': 2, '(1+x)2': 2, '1-x2': 2, 'mix': 2, 'x3': 3, 'x4': 4}


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for f in S.CLASSES:
        if f == 'fourier':
            continue
        for qi, q in enumerate(S.QUADS[f]):
            for ai, ab in enumerate(S.ab_list(f)):
                if quick and f in ('jacobi', 'ultraspherical') and ai == 2:
                    continue
                for c in S.CLASSES[f]:
                    if c == 'Phi6' and (f == 'ultraspherical' and ai or quick and f in ('chebyshev', 'ultraspherical')):
                        continue   # SymPy alone takes minutes
                    if quick and c in ('Phi3', 'Phi4') and f in ('jacobi', 'ultraspherical') and ai == 1:
                        continue
                    out.append({'kind': 'pairs', 'fam': f, 'test': c, 'quad': q, 'ab': ab, 'tier': tier,
                                'w': 3 if c.startswith('Phi') else 1})
    for f in ('fourier',):
        for c in ('R2C', 'C2C'):
            for N in (3, 4, 5, 8) if quick else range(2, 17):
                out.append({'kind': 'fourier', 'cls': c, 'N': N})
    for q in ('GC', 'GL'):
        out.append({'kind': 'cross', 'quad': q, 'tier': tier})
    for f, c in ([('chebyshev', 'ShenDirichlet'), ('chebyshev', 'Orthogonal'), ('legendre', 'ShenNeumann'), ('legendre', 'Orthogonal'),
                  ('jacobi', 'Orthogonal'), ('ultraspherical', 'Orthogonal'), ('chebyshevu', 'CompactDirichlet'),
                  ('laguerre', 'CompactDirichlet'), ('hermite', 'Orthogonal')]):
        for m in ('1', 'x', 'x2', 'cos') if quick else MEAS:
            for how in ('exact', 'adaptive'):
                out.append({'kind': 'exact', 'fam': f, 'cls': c, 'm': m, 'how': how, 'tier': tier})
    return out


def mk(f, c, q, ab, N, dom=None, vals=None):
    d = {'fam': f, 'cls': c, 'quad': q, 'N': N, **ab}
    if dom:
        d['dom'] = list(dom)
    if vals is not None:
        d['vals'] = vals
    return d


def tag(d):
    return '%s.%s,%s,%d' % (d['fam'], d['cls'], d['quad'], d['N']) + ''.join(
        ',%s' % d[k] for k in ('alpha', 'beta', 'dom') if d.get(k) is not None)


_rule = {}


def gauss(d, M):
    """Points (physical) and weights of the weighted inner product of the family on the domain, exact to degree 2M-1."""
    f = d['fam']
    k = (f, d.get('alpha'), d.get('beta'), tuple(d.get('dom') or ()), M)
    if k not in _rule:
        if f == 'laguerre':
            x, w = special.roots_laguerre(M)
            w = w * np.exp(x)
        elif f == 'hermite':
            x, w = special.roots_hermite(M)
            w = w * np.exp(x**2)
        else:
            a, b = S.jac_ab(d)
            if abs(a) < 1e-14 and abs(b) < 1e-14:
                x, w = special.roots_legendre(M)
            else:
                x, w = special.roots_jacobi(M, a, b)
        _rule[k] = (S.from_ref(d, x), w / S.dfactor(d))
    return _rule[k]


def mval(m, x):
    f = sp.lambdify(X, MEAS[m], 'numpy')
    return np.broadcast_to(np.asarray(f(x), dtype=float), np.shape(x))


def columns(d, x, k, bnd=False):
    if bnd:
        L = S.lift_coeffs(d)
        # stored boundary values are scaled to derivatives in the reference domain
        sc = np.array([S.dfactor(d)**S.ORDER.get(c[1], 0) for c in S.conditions(d)])
        return S.V(d, x, k, n=L.shape[1]) @ L.T * sc
    return S.basis(d, x, k)


def reference(d0, i, d1, j, m, bnd=False, M=None):
    M = M or (max(d0['N'], d1['N']) + 14 if d0['fam'] not in ('laguerre', 'hermite') else max(d0['N'], d1['N']) + 6)
    x, w = gauss(d0, M)
    A = columns(d0, x, i)
    B = columns(d1, x, j, bnd)
    R = (A * (w * mval(m, x))[:, None]).T @ B
    na = np.sqrt(np.abs((A**2 * np.abs(w)[:, None]).sum(0)))
    nb = np.sqrt(np.abs((B**2 * np.abs(w)[:, None]).sum(0)))
    sc = np.maximum(np.outer(na, nb) * max(1., np.abs(mval(m, x)).max()), 1e-12 if not (d0['cls'] == 'Phi6' or d1['cls'] == 'Phi6') else 1e-8)
    return R, sc


def degs(d, k, bnd=False):
    S_ = S.lift_coeffs(d) if bnd else S.stencil(d)
    return np.array([max([q for q in range(S_.shape[1]) if abs(r[q]) > 1e-13] + [0]) for r in S_]) - k


def discrete(spc, d0, i, d1, j, m, bnd=False):
    """Value of the space's own quadrature."""
    xr, w = spc.points_and_weights(spc.N, weighted=True)
    x = S.from_ref(d0, np.asarray(xr, dtype=float))
    w = np.asarray(w, dtype=float) / S.dfactor(d0)
    return (columns(d0, x, i) * (w * mval(m, x))[:, None]).T @ columns(d1, x, j, bnd)


def compare(A, spc, d0, i, d1, j, m, key, rec, bnd=False, exact=False, discr_only=False):
    D = rec.guard(lambda: np.asarray(A.diags('csr').toarray()), key + '|diags')
    if D is None:
        return
    R, sc = reference(d0, i, d1, j, m, bnd)
    rec.trans()
    if not rec.check(D.shape == R.shape and A.shape == R.shape, key + '|shape', (D.shape, A.shape, R.shape)):
        return
    if not exact:
        Q = discrete(spc, d0, i, d1, j, m, bnd)
        if m in PDEG and d0['fam'] not in ('laguerre', 'hermite'):
            dg = np.add.outer(degs(d0, i), degs(d1, j, bnd)) + PDEG[m]
            ok = dg <= degree(d0['fam'], d0['quad'], d0['N'])
            rec.count('entries decided exactly', int(ok.sum()))
            rec.count('entries beyond the exact degree', int((~ok).sum()))
            E = np.abs(D - R) / sc
            E2 = np.minimum(E, np.abs(D - Q) / sc)
            err = np.where(ok, E, 0)
            # beyond the exact degree: the value of the quadrature, the integral, or a stencil combination of the two
            bad2 = (~ok) & (E2 > 1e-8) & ('vandermonde' in getattr(A, '_assembly_method', ''))
        else:
            err = np.abs(D - Q) / sc
            bad2 = np.zeros(1, bool)
            rec.count('entries decided by the quadrature rule', D.size)
    else:
        err = np.abs(D - R) / sc
        bad2 = np.zeros(1, bool)
        rec.count('entries decided exactly', D.size)
    tol = 2e-9 * 30**max(0, i + j - 2) * (1e3 if 'Phi6' in key else 1)
    with np.errstate(all='ignore'):
        bad = not np.all(err < tol) or np.any(bad2)
    if not rec.check(not bad, key):
        p = np.unravel_index(np.argmax(np.where(np.isfinite(err), err, np.inf) if not np.any(bad2) else bad2), D.shape)
        rec.violations[-1]['detail'] = 'entry %s: assembled %r, inner product %r; method %s; task %s' % (
            tuple(int(v) for v in p), D[p], R[p], getattr(A, '_assembly_method', ''), rec.task)
    rec.outcome(key, D)


def hardcoded(f):
    import importlib
    mod = importlib.import_module('shenfun.%s.matrices' % f)
    out = set()
    for k, v in mod.mat.items():
        if getattr(v, 'func', v).__name__ == 'SpectralMatrix':
            continue
        out.add((k[0][0].__name__, k[0][1], k[1][0].__name__, k[1][1], sp.sstr(k[2]) if len(k) == 3 else '1'))
    return out


MNAME = {'1': '1', 'x + 1': '1+x', '(x + 1)**2': '(1+x)2', 'x': 'x', 'x**2': 'x2'}


def assemble(spc0, i, spc1, j, m, **kw):
    from shenfun.spectralbase import inner_product
    return inner_product((spc0, i), (spc1, j), MEAS[m], **kw)


def run(task, rec):
    {'pairs': pairs, 'fourier': fourier, 'cross': cross, 'exact': exact}[task['kind']](task, rec)


def di0(i, j):
    return DERIV.index((i, j))


def pairs(task, rec):
    f, c, q, ab = task['fam'], task['test'], task['quad'], task['ab']
    quick = task['tier'] == 'quick'
    hard = hardcoded(f)
    classes = S.CLASSES[f]
    n0 = S.min_n({'fam': f, 'cls': c, 'N': 0, **ab})
    phi = c.startswith('Phi')
    slow = f in ('ultraspherical',) or phi
    ci = classes.index(c)
    qn = S.QUADS[f].index(q)
    ai = S.ab_list(f).index(ab)
    for ti, t in enumerate(classes):
        if f == 'laguerre' and t == 'CompactNeumann' and c == t:
            pass
        n1 = max(n0, S.min_n({'fam': f, 'cls': t, 'N': 0, **ab}))
        if quick and (slow and (ti + ci) % 3 and t != c or t in ('Phi4', 'Phi6') and t != c):
            continue
        if quick and c in ('Phi4', 'Phi6') and (t not in ('Orthogonal', c) or c == 'Phi6' and t == c and f in ('chebyshev', 'ultraspherical') or ai):
            continue
        combos = []
        for di, (i, j) in enumerate(DERIV):
            for mi, m in enumerate(MEAS):
                hc = (c, i, t, j, {'1': '1', '3': '1', '1+x': 'x + 1', '(1+x)2': '(x + 1)**2'}.get(m, '?')) in hard
                if m not in PDEG and f in ('laguerre', 'hermite'):
                    continue
                if quick and (m == 'x4' or m == 'x3' and f not in ('legendre', 'chebyshev', 'chebyshevu')):
                    continue
                if quick and not hc:
                    if slow and not (i, j) in ((0, 0), (0, 1), (0, 2), (1, 1)):
                        continue
                    # every derivative pair, every measure; not every combination of the two
                    if m != '1' and (di + 2 * mi + ci + ti + qn) % (23 if not slow else 29):
                        continue
                    if m == '1' and (di > 4 and (di + ci + ti) % 5 or di > 1 and (di + ci + ti + qn) % 3):
                        continue
                    if (qn or ai) and t != c and (ti + ci + di) % 2:
                        continue
                    if t != c and m != '1' and (ci + ti) % (4 if t != 'Orthogonal' else 2):
                        continue
                combos.append((i, j, m, hc))
        for i, j, m, hc in combos:
            if f == 'hermite' and ((i or j) and m not in ('1', '3') or i > 2):
                continue
            kinds = [None]
            if hc:
                kinds += ['stencil', 'vandermonde']
            elif m in PDEG:
                kinds += ([] if m == '1' and (di0(i, j) + ti) % 2 else [['stencil', 'vandermonde'][(i + j + ci + ti) % 2]]) if quick else ['stencil', 'vandermonde']
            for ki, kind in enumerate(kinds):
                for e in ((1, 4) if hc and ki == 0 else ((ci + ti + i + j) % 2 + 1,)) if quick else (0, 1, 4, 7):
                    dom = None if (ci + ti + i + j + ki + e) % 2 or f in ('laguerre', 'hermite') else (-1., 2.)
                    if hc and m not in ('1', '3'):
                        dom = None
                    d0 = mk(f, c, q, ab, n1 + e, dom)
                    d1 = mk(f, t, q, ab, n1 + e, dom)
                    if kind == 'stencil' and (c in ('Orthogonal',) and t == 'Orthogonal' or f in ('laguerre', 'hermite') or m == '3'):
                        continue
                    if phi and (kind == 'stencil') and (q == 'GL' or f == 'chebyshevu' and q == 'GC'):
                        continue
                    one_pair(d0, i, d1, j, m, kind, rec, slow)
        # different numbers of modes
        if t in ('Orthogonal', c):
            for a, b in ((2, 0), (0, 2)):
                d0 = mk(f, c, q, ab, n1 + 1 + a)
                d1 = mk(f, t, q, ab, n1 + 1 + b)
                for i, j in ((0, 0), (0, 1), (0, 2), (2, 0), (1, 1)) if c == t == 'Orthogonal' else ((0, 0), (0, 1)) if not phi else ((0, 0),):
                    if phi and quick and c != 'Phi1':
                        continue
                    one_pair(d0, i, d1, j, '1', 'vandermonde' if a < b else None, rec, slow)
    # boundary functions as trial
    if S.conditions({'fam': f, 'cls': c}) and f not in ('laguerre', 'hermite'):
        for (i, j) in ((0, 0), (0, 1), (0, 2), (1, 1), (2, 0)):
            for m in ('1', 'x') if not slow else ('1',):
                for kind in (None, 'vandermonde'):
                    d0 = mk(f, c, q, ab, n0 + 2, (-1., 2.) if (i + j) % 2 else None, [1.] * len(S.conditions({'fam': f, 'cls': c})))
                    key = 'bnd|%s|%d,%d|%s|%s' % (tag(d0), i, j, m, kind)
                    if not rec.state(key):
                        continue

                    def go():
                        spc = S.make(d0)
                        return assemble(spc, i, spc.get_bc_space(), j, m, kind=kind), spc
                    r = rec.guard(go, key)
                    if r is not None:
                        compare(r[0], r[1], d0, i, d0, j, m, key, rec, bnd=True)
        rec.trace()
    # through the user-facing form
    from shenfun import TestFunction, TrialFunction, inner, Dx
    for (i, j) in ((0, 0), (0, 1), (0, 2)):
        if f == 'hermite' and i + j:
            continue
        d0 = mk(f, c, q, ab, n0 + 2, None if f in ('laguerre', 'hermite') else (-1., 2.))
        key = 'form|%s|%d,%d' % (tag(d0), i, j)

        def go2():
            spc = S.make(d0)
            u, v = TrialFunction(spc), TestFunction(spc)
            return inner(v, 2 * Dx(u, 0, j) if j else 2 * u), spc
        r = rec.guard(go2, key)
        if r is not None:
            A = r[0]
            A = [a for a in A if not a.is_bc_matrix()][0] if isinstance(A, list) else A
            A = A * 0.5
            compare(A, r[1], d0, i, d0, j, '1', key, rec)
    rec.sample({'task': task})


def one_pair(d0, i, d1, j, m, kind, rec, slow):
    key = '%s|%s|%d,%d|%s|%s' % (tag(d0), tag(d1), i, j, m, kind)
    if not rec.state(key):
        return

    def go():
        s0 = S.make(d0)
        s1 = s0 if d0 == d1 else S.make(d1)
        return assemble(s0, i, s1, j, m, kind=kind), s0
    r = rec.guard(go, key)
    rec.trace()
    if r is not None:
        compare(r[0], r[1], d0, i, d1, j, m, key, rec)


def fourier(task, rec):
    from shenfun.spectralbase import inner_product
    from shenfun import inner, TestFunction, TrialFunction, Dx
    N = task['N']
    t = sp.Symbol('x', real=True)
    tp = sp.Symbol('x', real=True, positive=True)
    hm = [1, 3, sp.cos(t), sp.sin(t), sp.cos(t)**2, sp.sin(2 * t) / 2, sp.sin(t) * sp.cos(t), 1 + sp.cos(2 * t), 1 / (2 + sp.cos(t)),
          sp.cos(tp), sp.cos(tp)**2, sp.sin(tp), sp.sin(2 * tp) / 2, sp.sin(tp) * sp.cos(tp)]
    for dom in (None, [0., 4 * np.pi]) if N != 5 else (None, [-1., 2.]):
        d = {'fam': 'fourier', 'cls': task['cls'], 'quad': '', 'N': N}
        if dom:
            d['dom'] = dom
        spc = S.make(d)
        kk = np.array([S.wavenumber(d, q) for q in range(S.dim(d))])
        xr = 2 * np.pi * np.arange(N) / N
        x = S.from_ref(d, xr)
        for (i, j) in DERIV:
            for mi, m in enumerate(hm):
                for kind in (None, 'vandermonde'):
                    key = 'fourier|%s,%d,%s|%d,%d|%s%s|%s' % (task['cls'], N, dom, i, j, m, '+' if mi > 8 else '', kind)
                    rec.state(key)
                    mv = m if isinstance(m, int) else sp.lambdify(list(m.free_symbols), m)(x)
                    A = S.basis(d, x, i)
                    B = S.basis(d, x, j)
                    R = (np.conj(A) * np.broadcast_to(mv, x.shape)[:, None]).T @ B / N
                    r = rec.guard(lambda: inner_product((spc, i), (spc, j), m, kind=kind), key)
                    rec.trans()
                    if r is not None:
                        D = r.diags('csr').toarray()
                        sc = max(1., np.abs(A).max() * np.abs(B).max())
                        if kind is None and D.shape == R.shape and not np.allclose(D, R, 0, 1e-10 * sc):
                            # implemented matrices may hold the integral rather than the aliased sum
                            xe = S.from_ref(d, 2 * np.pi * np.arange(4 * N) / (4 * N))
                            mv = m if isinstance(m, int) else sp.lambdify(list(m.free_symbols), m)(xe)
                            R = (np.conj(S.basis(d, xe, i)) * np.broadcast_to(mv, xe.shape)[:, None]).T @ S.basis(d, xe, j) / (4 * N)
                        rec.close(D, R, key, 1e-10, scale=sc)
                        rec.outcome(key, D)
        u, v = TrialFunction(spc), TestFunction(spc)
        for j in range(5):
            key = 'fourier-form|%s,%d,%s|%d' % (task['cls'], N, dom, j)
            r = rec.guard(lambda: inner(v, Dx(u, 0, j) if j else u), key)
            if r is not None:
                k = kk * S.dfactor(d)
                rec.close(r.diags('csr').toarray(), np.diag((1j * k)**j), key, 1e-11, scale=max(1., np.abs(k**j).max()))
        rec.trace()
    rec.sample({'task': task})


def cross(task, rec):
    """Test functions of one family, trial functions of another (Petrov-Galerkin)."""
    q = task['quad']
    quick = task['tier'] == 'quick'
    fams = ['chebyshev', 'legendre', 'chebyshevu', 'ultraspherical', 'jacobi']
    cl = {'chebyshev': ['Orthogonal', 'ShenDirichlet', 'Phi1', 'ShenBiharmonic'], 'legendre': ['Orthogonal', 'ShenNeumann', 'Phi2'],
          'chebyshevu': ['Orthogonal', 'CompactDirichlet', 'Phi1'], 'ultraspherical': ['Orthogonal', 'Phi1'], 'jacobi': ['Orthogonal', 'Phi1']}
    for f0 in fams:
        for f1 in fams:
            if f0 == f1:
                continue
            for a, c0 in enumerate(cl[f0]):
                for b, c1 in enumerate(cl[f1]):
                    if quick and (a + b) % 2 and a + b > 0:
                        continue
                    for (i, j) in ((0, 0), (0, 1), (0, 2), (1, 1)):
                        for m in ('1', 'x') if not quick or (a + b + i) % 2 == 0 else ('1',):
                            q0 = q if q in S.QUADS[f0] else S.QUADS[f0][0]
                            q1 = q if q in S.QUADS[f1] else S.QUADS[f1][0]
                            ab0, ab1 = S.ab_list(f0)[-1 if quick else 0], S.ab_list(f1)[0]
                            if f0 in ('jacobi',):
                                ab0 = {'alpha': 1, 'beta': 0}
                            d0 = mk(f0, c0, q0, ab0, 11, None if (i + j) % 2 else (-1., 2.))
                            d1 = mk(f1, c1, q1, ab1, 11, None if (i + j) % 2 else (-1., 2.))
                            one_pair(d0, i, d1, j, m, None, rec, True)
    rec.sample({'task': task})


def exact(task, rec):
    """Symbolic and adaptive assembly."""
    f, c, m, how = task['fam'], task['cls'], task['m'], task['how']
    q = S.QUADS[f][0]
    for ab in S.ab_list(f)[:2]:
        for (i, j) in ((0, 0), (0, 1), (1, 1), (0, 2)):
            if f == 'chebyshev' and how == 'exact' and (i or m != '1' and (j or c != 'Orthogonal')):
                continue
            if how == 'exact' and (f == 'jacobi' and ab['alpha'] == 0.5 or f == 'ultraspherical' and ab['alpha'] == 1.5 and (i + j or m != '1')):
                continue   # SymPy does not integrate these
            if f in ('laguerre', 'hermite') and (i + j or m not in ('1', 'x')):
                continue
            dom = [None, (-1., 2.)][(i + j) % 2] if f not in ('laguerre', 'hermite') else None
            if task.get('tier') == 'quick' and f == 'chebyshevu' and (how == 'exact' and i + j == 1 or m == 'x2'):
                continue
            if m == 'cos' and (how == 'exact' or dom is None and i + j):
                continue
            n = max(S.min_n({'fam': f, 'cls': c, 'N': 0}), 4)
            if f == 'chebyshev' and how == 'exact':
                n = max(n - 1, 4)
            d = mk(f, c, q, ab, n, dom)
            key = '%s|%s|%d,%d|%s' % (how, tag(d), i, j, m)
            rec.state(key)

            def go():
                spc = S.make(d)
                return assemble(spc, i, spc, j, m, assemble=how), spc
            r = rec.guard(go, key)
            rec.trace()
            if r is not None:
                if m == 'cos':
                    compare(r[0], r[1], d, i, d, j, m, key, rec, exact=True)
                else:
                    compare(r[0], r[1], d, i, d, j, m, key, rec, exact=True)
    rec.sample({'task': task})
