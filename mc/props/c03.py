"""C03: every way of evaluating a function gives the value of the same expansion.

1D: every space of the catalogue x every unit coefficient vector (with boundary values) x every
evaluation route x derivative order. 2D/3D: every unit coefficient tensor of small spaces x the three
implementations of eval, expressions of derivatives, vector components, quadrature and uniform meshes.
"""
import itertools
import numpy as np
import sympy as sp
from mc import spaces as S
from mc.common import generic

META = {
    'bounds': '1D: all families and named bases, two sizes, mapped domain, inhomogeneous values, real/complex; derivatives '
              '0..4; unit vectors; 2D/3D: 20 (thorough 60+) combinations of families and orders, both parities, unit tensors',
    'rule': 'state = (space, unit coefficient, route); transition = one evaluation compared with the oracle expansion',
    'assumptions': ['orthogonal polynomials of scipy.special; tolerance 1e-9 relative to the largest basis value'],
}
INHOM = [1.5, -0.7, 0.4, 2.1, -1.1, 0.3, 0.9, -0.6, 0.2, -0.1, 0.8, 0.55]


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for f in S.CLASSES:
        for ci, c in enumerate(S.CLASSES[f]):
            if f == 'fourier':
                for N in (5, 6, 8) if quick else range(2, 18):
                    for dom in (None, [-1., 2.]):
                        d = {'fam': f, 'cls': c, 'quad': '', 'N': N}
                        if dom:
                            d['dom'] = dom
                        out.append({'kind': '1d', 'd': d, 'dt': 'd' if c == 'R2C' else 'D'})
                continue
            for qi, q in enumerate(S.QUADS[f]):
                for ai, ab in enumerate(S.ab_list(f)):
                    base = {'fam': f, 'cls': c, 'quad': q, 'N': 0, **ab}
                    n0 = max(S.min_n(base), 4)
                    nb = len(S.conditions(base))
                    variants = [(0, None, None, 'd'), (2, [0.5, 3.], INHOM[:nb], 'd'), (3, None, INHOM[:nb], 'D'), (1, [0.5, 3.], None, 'D')]
                    if quick:
                        variants = [variants[(ci + qi + ai) % 2], variants[2 + (ci + qi + ai) % 2]]
                        if c in ('Phi3', 'Phi4', 'Phi6'):
                            variants = variants[:1] if qi == 0 else []
                    for e, dom, vals, dt in variants:
                        if f == 'laguerre' and (vals and c == 'CompactNeumann'):
                            vals = None
                        d = dict(base, N=n0 + e)
                        if dom and f not in ('laguerre', 'hermite'):
                            d['dom'] = dom
                        if vals:
                            d['vals'] = vals
                        out.append({'kind': '1d', 'd': d, 'dt': dt})
    for f in ('chebyshev', 'legendre', 'ultraspherical'):
        for j in (0, 3, 5, 15) if quick else (0, 1, 2, 3, 4, 5, 6, 10, 15, 16, 20):
            d = {'fam': f, 'cls': 'Generic', 'quad': S.QUADS[f][0], 'N': 9, 'bc': S.GENERIC_BCS[j]}
            if j % 2:
                d['dom'] = [0.5, 3.]
            if f == 'ultraspherical':
                d['alpha'] = 0
            out.append({'kind': '1d', 'd': d, 'dt': 'd'})
    for fams, axes in nd_cases(quick):
        for v in range(2):
            out.append({'kind': 'nd', 'fams': fams, 'axes': axes, 'var': v})
    return out


def run(task, rec):
    if task['kind'] == '1d':
        one(task['d'], task['dt'], rec)
    else:
        nd(task, rec)


def tag(d):
    return '%s.%s,%s,N=%d' % (d['fam'], d['cls'], d.get('quad'), d['N']) + ''.join(
        ',%s=%s' % (k, d[k]) for k in ('alpha', 'beta', 'dom', 'vals', 'bc') if d.get(k) is not None)


def one(d, dt, rec):
    from shenfun import Function, Dx, FunctionSpace, project
    T = tag(d) + ',' + dt
    spc = S.make(dict(d, dtype=dt) if d['fam'] != 'fourier' else d)
    fourier = d['fam'] == 'fourier'
    real = d['cls'] == 'R2C'
    N, n = d['N'], S.dim(d)
    x = S.interior(d)
    X = S.to_ref(d, x)
    df = S.dfactor(d)
    kmax = 4 if d['fam'] not in ('hermite',) else 2
    K = spc.shape(True)
    slow = d['fam'] in ('ultraspherical',) or d['cls'] in ('Phi3', 'Phi4', 'Phi6')
    heavy = d['fam'] in ('ultraspherical', 'jacobi', 'laguerre')
    # ---- basis functions, all at once, one by one, symbolic; derivatives in the reference coordinate
    Bm = [S.basis(d, x, m) / df**m for m in range(kmax + 1)]
    scl = [max(1e-8, np.abs(b).max()) for b in Bm]

    def all0():
        return np.asarray(spc.evaluate_basis_all(X))[:, :n]
    r = rec.guard(all0, 'evaluate_basis_all|' + T)
    if r is not None:
        rec.close(r, Bm[0], 'evaluate_basis_all|' + T, 1e-9, scale=scl[0])
    for m in range(kmax + 1):
        r = rec.guard(lambda: np.asarray(spc.evaluate_basis_derivative_all(X, k=m))[:, :n], 'basis_derivative_all|k=%d|%s' % (m, T))
        rec.trans()
        rec.state(T, 'all', m)
        if r is not None:
            rec.close(r, Bm[m], 'basis_derivative_all|k=%d|%s' % (m, T), 1e-8, scale=scl[m])
    # implicit points: the mesh
    Bx = S.basis(d, S.from_ref(d, spc.mesh(False, False)))
    r = rec.guard(lambda: np.asarray(spc.evaluate_basis_all())[:, :n], 'evaluate_basis_all-mesh|' + T)
    if r is not None:
        rec.close(r, Bx, 'evaluate_basis_all-mesh|' + T, 1e-9, scale=max(1e-8, np.abs(Bx).max()))
    r = rec.guard(lambda: np.asarray(spc.evaluate_basis_derivative_all(k=1))[:, :n], 'basis_derivative_all-mesh|' + T)
    if r is not None:
        B1 = S.basis(d, S.from_ref(d, spc.mesh(False, False)), 1) / df
        rec.close(r, B1, 'basis_derivative_all-mesh|' + T, 1e-8, scale=max(1e-8, np.abs(B1).max()))
    sx = sp.Symbol('x', real=True)
    ks = range(n) if not heavy else sorted({0, 1, 2, 3, n - 2, n - 1} & set(range(n)))
    for i in ks:
        rec.trans(2)
        r = rec.guard(lambda: np.array(spc.evaluate_basis(X, i)), 'evaluate_basis|' + T)
        if r is not None:
            rec.close(r, Bm[0][:, i], 'evaluate_basis|' + T, 1e-9, 'i=%d' % i, scale=scl[0])
        r = rec.guard(lambda: np.array(spc.evaluate_basis(float(X[1]), i)), 'evaluate_basis-point|' + T)
        if r is not None:
            rec.close(np.ravel(r), Bm[0][1:2, i], 'evaluate_basis-point|' + T, 1e-9, 'i=%d' % i, scale=scl[0])
        if d['fam'] != 'hermite':
            for m in range(kmax + 1):
                r = rec.guard(lambda: np.array(spc.evaluate_basis_derivative(X, i, m)), 'evaluate_basis_derivative|k=%d|%s' % (m, T))
                rec.trans()
                if r is not None:
                    rec.close(r, Bm[m][:, i], 'evaluate_basis_derivative|k=%d|%s' % (m, T), 1e-8, 'i=%d' % i, scale=scl[m])
        if not slow or i < 2:
            def sym():
                e = spc.basis_function(i, sx)
                return np.array([complex(sp.sympify(e).subs(sx, float(q)).evalf(17)) for q in X[1:6:2]])
            if d['cls'] != 'Generic' and N < 14:
                r = rec.guard(sym, 'basis_function|' + T)
                if r is not None:
                    rec.close(r, Bm[0][1:6:2, i].astype(complex), 'basis_function|' + T, 1e-7, 'i=%d' % i, scale=scl[0])
    # ---- functions: every unit vector
    cplx = dt == 'D'
    units = [(k, 1.) for k in range(n)] + ([(k, 1j) for k in range(n)] if fourier else ([(0, 1j), (n - 1, 1j)] if cplx else []))
    if real:
        units = [u for u in units if not (u[1] == 1j and (u[0] == 0 or N % 2 == 0 and u[0] == n - 1))]
    xe = x
    B = [S.basis(d, xe, m) for m in range(kmax + 1)]
    Ls = [S.lift(d, xe, m) for m in range(kmax + 1)]
    xm = np.asarray(spc.mesh(), dtype=float)
    un = np.linspace(*[float(v) for v in S.domain(d)], N) if np.isfinite(S.domain(d)[1] - S.domain(d)[0]) and not fourier else None
    if fourier:
        un = xm
    scale = [max(1., np.abs(b).max()) for b in B]
    lists = [('generic', None)] + units
    for k, p in lists:
        u = Function(spc)
        if k == 'generic':
            g = generic((K,), 3, np.iscomplexobj(u))
            u[:n] = g[:n]
            if real:
                u[0] = u[0].real
                if N % 2 == 0:
                    u[-1] = u[-1].real
        else:
            u[k] = p
        if not fourier:
            u.set_boundary_dofs()
        u0 = np.array(u)
        name = '%s*%s' % (k, p)

        def want(m, pts=None, BB=None, LL=None):
            if fourier:
                v = S.evaluate(d, u0, pts if pts is not None else xe, m)
                return v.real if real else v
            bb = BB if BB is not None else (B[m] if pts is None else S.basis(d, pts, m))
            ll = LL if LL is not None else (Ls[m] if pts is None else S.lift(d, pts, m))
            return bb @ u0[:n] + ll
        routes = {'eval': lambda: u.eval(xe), 'call': lambda: u(xe), 'space': lambda: spc.eval(xe, u),
                  'out': lambda: u.eval(xe, np.full(len(xe), 7., dtype=complex if (cplx or fourier) else float)),
                  'array-coef': lambda: spc.eval(xe, u0.copy())}
        for nm, fn in routes.items():
            r = rec.guard(lambda: np.array(fn()), '%s|%s' % (nm, T))
            rec.trans()
            if r is not None:
                if real and nm == 'out':
                    r = r.real if np.iscomplexobj(r) else r
                rec.close(r, want(0), '%s|%s' % (nm, T), 1e-9, name, scale=scale[0])
        rec.state(T, name)
        for q in (0, 3):
            r = rec.guard(lambda: np.array(u.eval(float(xe[q]))), 'eval-point|' + T)
            if r is not None:
                rec.close(np.ravel(r), np.ravel(want(0)[q]), 'eval-point|' + T, 1e-9, name, scale=scale[0])
        for m in range(0, kmax + 1 if k in ('generic', n - 1) else 2):
            def ex():
                return np.array((Dx(u, 0, m) if m else 1 * u_expr(u)).eval(xe))
            r = rec.guard(ex, 'expr|k=%d|%s' % (m, T))
            rec.trans()
            if r is not None:
                if real:
                    r = r.real
                rec.close(r, want(m), 'expr|k=%d|%s' % (m, T), 1e-8, name, scale=scale[m])
        if k == 'generic':
            def ex2():
                return np.array((sx * Dx(u, 0, 1) + 2 * u_expr(u) + sp.cos(sx) * Dx(u, 0, 2)).eval(xe))
            r = rec.guard(ex2, 'expr-sum|' + T)
            if r is not None:
                w = xe * want(1) + 2 * want(0) + np.cos(xe) * want(2)
                rec.close(r.real if real else r, w, 'expr-sum|' + T, 1e-8, scale=scale[2] + scale[1] * np.abs(xe).max())
        kinds = [None, 'vandermonde'] if k in ('generic', 0) else [None]
        for kind in kinds:
            if un is not None:
                r = rec.guard(lambda: np.array(u.backward(mesh='uniform', kind=kind)), 'uniform,%s|%s' % (kind, T))
                if r is not None and not (fourier and kind):
                    rec.close(r, want(0, un), 'uniform,%s|%s' % (kind, T), 1e-9, name, scale=scale[0])
            r = rec.guard(lambda: np.array(u.backward(kind=kind, mesh='quadrature')), 'quadrature,%s|%s' % (kind, T))
            rec.trans(2)
            if r is not None:
                w = want(0, xm)
                rec.close(r, w, 'quadrature,%s|%s' % (kind, T), 1e-9, name, scale=max(1., np.abs(w).max()))
        rec.check(np.array_equal(np.array(u), u0), 'coefficients-modified|' + T)
        rec.trace()
        rec.outcome(T, name, u.backward())
    # mesh of another space with the same number of points
    if not fourier and d['fam'] in ('chebyshev', 'legendre', 'chebyshevu', 'jacobi', 'ultraspherical'):
        oth = FunctionSpace(N, 'L' if d['fam'] != 'legendre' else 'C', domain=tuple(float(v) for v in S.domain(d)), dtype=dt)
        ym = np.asarray(oth.mesh(), dtype=float)
        u = Function(spc)
        u[:n] = generic((n,), 3)
        u.set_boundary_dofs()
        r = rec.guard(lambda: np.array(u.backward(mesh=oth)), 'other-mesh|' + T)
        if r is not None:
            w = S.basis(d, ym) @ np.asarray(u)[:n] + S.lift(d, ym)
            rec.close(r, w, 'other-mesh|' + T, 1e-9, scale=max(1., np.abs(w).max()))
    rec.sample({'space': d, 'unit vectors': n})


def u_expr(u):
    from shenfun import Expr
    return Expr(u)


# ------------------------------------------------------------------ several dimensions

def nd_cases(quick):
    two = [('G', 'F'), ('F', 'L'), ('C', 'F'), ('G', 'L'), ('C', 'G'), ('L', 'C'), ('D', 'F'), ('F', 'D'), ('D', 'L'), ('U', 'Q'), ('J', 'F'), ('D', 'D'), ('E', 'F'), ('G', 'G')]
    three = [('G', 'G', 'F'), ('G', 'F', 'C'), ('C', 'G', 'F'), ('G', 'C', 'F'), ('L', 'C', 'F'), ('D', 'L', 'C'), ('F', 'D', 'L')]
    out = []
    for fs in two + three:
        dims = range(len(fs))
        ax = []
        for p in itertools.permutations(dims):
            # real-to-complex transforms come first (last axis of the list)
            if 'F' in fs and p[-1] != fs.index('F'):
                continue
            ax.append(list(p))
        if quick:
            ax = ax[:2]
        out += [(list(fs), a) for a in ax]
    return out


SIZES = {0: [5, 6, 4], 1: [6, 5, 5]}


def base1(c, N, i, var):
    dom = [[None, (0.5, 3.), (-2., 1.)], [(-2., 1.), None, (0.5, 3.)]][var][i]
    d = {'N': N, 'quad': ''}
    if c in 'FG':
        d.update(fam='fourier', cls='R2C' if c == 'F' else 'C2C')
        if dom:
            d['dom'] = [0., 3.]
        return d
    fam = {'C': 'chebyshev', 'L': 'legendre', 'U': 'chebyshevu', 'Q': 'ultraspherical', 'J': 'jacobi', 'D': 'legendre', 'E': 'chebyshev'}[c]
    d.update(fam=fam, cls='Orthogonal', quad=S.QUADS[fam][0])
    if c == 'D':
        d.update(cls='ShenDirichlet', vals=[1.5, -0.7] if var else [0, 0])
    if c == 'E':
        d.update(cls='ShenBiharmonic', N=N + 4)
    if c == 'Q':
        d['alpha'] = 1
    if c == 'J':
        d.update(alpha=1, beta=0)
    if dom:
        d['dom'] = list(dom)
    return d


def setup(fams, axes, var, sizes=None):
    from shenfun import TensorProductSpace, comm
    ds = [base1(c, (sizes or SIZES[var])[i], i, var) for i, c in enumerate(fams)]
    if [c for c in fams if c == 'D'] == ['D', 'D']:
        for d in ds:
            d['vals'] = [0, 0]
    dt = 'D' if ('G' in fams and 'F' not in fams) else 'd'
    T = TensorProductSpace(comm, [S.make(d) for d in ds], axes=tuple(axes), dtype=dt)
    return T, ds


def tens(mats, coef):
    r = np.asarray(coef)
    for ax, M in enumerate(mats):
        r = np.moveaxis(np.tensordot(M, r, (1, ax)), 0, ax)
    return r


def at_points(mats, coef):
    """sum_ij coef_ij prod mats[ax][p, i]."""
    nd = len(mats)
    s = 'ijk'[:nd]
    return np.einsum(','.join('p' + q for q in s) + ',' + s + '->p', *mats, coef)


def full_basis(d, x, m=0, conj_weight=True):
    """Basis matrix including boundary columns in their storage positions; R2C columns weighted for the real part."""
    B = S.basis(d, x, m).astype(complex)
    if d['fam'] == 'fourier':
        if d['cls'] == 'R2C':
            N = d['N']
            w = np.full(B.shape[1], 2.)
            w[0] = 1
            if N % 2 == 0:
                w[-1] = 1
            B = B * w
        return B
    c = S.conditions(d)
    if len(c):
        L = S.lift_coeffs(d)
        B = np.hstack([B, S.V(d, x, m, n=L.shape[1]) @ L.T])
    return B


def nd(task, rec):
    from shenfun import Function, Array, Dx, VectorSpace, grad, div, Expr
    T, ds = setup(task['fams'], task['axes'], task['var'])
    key = 'nd|%s|%s|%d' % (''.join(task['fams']), task['axes'], task['var'])
    ndim = len(ds)
    rng = [S.interior(d, 7) for d in ds]
    pts = np.array([[rng[a][(3 * a + 2 * q + a * q) % 7] for q in range(6)] for a in range(ndim)])
    real = T.forward.input_array.dtype.kind == 'f'
    r2c = [i for i, d in enumerate(ds) if d['cls'] == 'R2C']
    P = {m: [full_basis(d, pts[a], m) for a, d in enumerate(ds)] for m in range(3)}
    shp = T.shape(True)
    sc = np.prod([max(1., np.abs(p).max()) for p in P[0]])

    def fin(v):
        return v.real if real else v
    syms = sp.symbols('x,y,z', real=True)[:ndim]
    names = list(itertools.product(*[range(s) for s in T.dims()]))
    if ndim == 3:
        names = [t for i, t in enumerate(names) if i % 3 == task['var'] or 0 in t and sum(t) < 4]
    derivs = [(1, 0, 0), (0, 1, 0), (0, 2, 0), (1, 1, 0), (0, 0, 1), (2, 0, 1)]
    derivs = [t[:ndim] for t in derivs if not any(t[ndim:])]
    mu = [np.linspace(*[float(v) for v in S.domain(d)], d['N']) if d['fam'] != 'fourier' else np.asarray(T.bases[a].mesh(False)) for a, d in enumerate(ds)]
    U = [full_basis(d, m) for d, m in zip(ds, mu)]
    Q = [full_basis(d, np.asarray(T.bases[a].mesh(False), dtype=float)) for a, d in enumerate(ds)]
    for idx in ['generic'] + names:
        coefs = [1.] if (real and not r2c) else [1., 1j]
        for p in (coefs if idx != 'generic' else [None]):
            u = Function(T)
            if idx == 'generic':
                u[:] = generic(shp, 5, np.iscomplexobj(u))
                for a, d in enumerate(ds):
                    if d['fam'] != 'fourier':
                        sl = [slice(None)] * ndim
                        sl[a] = slice(S.dim(d), None)
                        u[tuple(sl)] = 0
                # a real field has symmetric coefficients: take them from the transform of a real array
                if r2c:
                    v = fin(tens(Q, np.array(u)))
                    u = T.forward(v.copy(), u)
            else:
                u[idx] = p
                if r2c:
                    # only self-consistent coefficients: real part of the field, projected
                    k = idx[r2c[0]]
                    N = ds[r2c[0]]['N']
                    if k == 0 or (N % 2 == 0 and k == N // 2):
                        continue
            u.set_boundary_dofs()
            c = np.array(u)
            want = fin(at_points(P[0], c))
            rec.state(key, idx, str(p))
            for meth in (0, 1, 2):
                if meth == 0 and any(d['fam'] in ('ultraspherical',) for d in ds) and idx != 'generic':
                    continue
                r = rec.guard(lambda: np.array(T.eval(pts, u, method=meth)), '%s|method%d' % (key, meth))
                rec.trans()
                if r is not None:
                    rec.close(r, want, '%s|method%d' % (key, meth), 1e-9, '%s*%s' % (idx, p), scale=sc)
            if idx == 'generic' or sum(idx) % 3 == 0:
                r = rec.guard(lambda: np.array(u.eval(pts)), key + '|Function')
                if r is not None:
                    rec.close(r, want, key + '|Function', 1e-9, idx, scale=sc)
                r = rec.guard(lambda: np.array(u(pts[:, :1])), key + '|one-point')
                if r is not None:
                    rec.close(np.ravel(r), want[:1], key + '|one-point', 1e-9, idx, scale=sc)
                for dv in derivs:
                    def ex():
                        e = Expr(u)
                        for a, m in enumerate(dv):
                            if m:
                                e = Dx(e, a, m)
                        return np.array(e.eval(pts))
                    r = rec.guard(ex, '%s|expr%s' % (key, dv))
                    rec.trans()
                    if r is not None:
                        mats = [P[m][a] for a, m in enumerate(dv)]
                        w = fin(at_points(mats, c))
                        rec.close(r.real if real else r, w, '%s|expr%s' % (key, dv), 1e-8, idx, scale=np.prod([max(1., np.abs(q).max()) for q in mats]))

                def ex3():
                    e = syms[0] * Dx(u, 1, 1) + syms[1]**2 * Expr(u) - 3 * Dx(u, 0, 2)
                    return np.array(e.eval(pts))
                r = rec.guard(ex3, key + '|expr-sum')
                if r is not None:
                    w = pts[0] * at_points([P[1 if a == 1 else 0][a] for a in range(ndim)], c) + pts[1]**2 * at_points(P[0], c) \
                        - 3 * at_points([P[2 if a == 0 else 0][a] for a in range(ndim)], c)
                    rec.close(r.real if real else r, fin(w), key + '|expr-sum', 1e-8, idx, scale=9 * sc * max(np.abs(P[2][0]).max(), np.abs(P[1][1]).max()))
            for mesh, M in (('quadrature', Q), ('uniform', U)):
                r = rec.guard(lambda: np.array(u.backward(mesh=mesh)), '%s|%s' % (key, mesh))
                rec.trans()
                if r is not None:
                    rec.close(r, fin(tens(M, c)), '%s|%s' % (key, mesh), 1e-9, '%s*%s' % (idx, p), scale=sc)
            rec.check(np.array_equal(np.array(u), c), key + '|coefficients-modified')
            rec.outcome(key, idx, want)
            rec.trace()
    # vectors: components evaluated independently
    V = VectorSpace(T)
    w = Function(V)
    for i in range(ndim):
        a = np.real(tens(Q, generic(shp, i, True))) if real else tens(Q, generic(shp, i, True))
        T.forward(a.copy(), w[i])
    w.set_boundary_dofs()
    c = np.array(w)
    for meth in (0, 1, 2):
        r = rec.guard(lambda: np.array(V.eval(pts, w, method=meth)), '%s|vector%d' % (key, meth))
        if r is not None:
            rec.close(r, np.array([fin(at_points(P[0], c[i])) for i in range(ndim)]), '%s|vector%d' % (key, meth), 1e-9, scale=sc)
    r = rec.guard(lambda: np.array(w.eval(pts)), key + '|vector')
    if r is not None:
        rec.close(r, np.array([fin(at_points(P[0], c[i])) for i in range(ndim)]), key + '|vector', 1e-9, scale=sc)
    for i in range(ndim):
        r = rec.guard(lambda: np.array(w[i].eval(pts)), key + '|component')
        if r is not None:
            rec.close(r, fin(at_points(P[0], c[i])), key + '|component', 1e-9, scale=sc)
    r = rec.guard(lambda: np.array(div(w).eval(pts)), key + '|div')
    if r is not None:
        ww = sum(at_points([P[1 if a == i else 0][a] for a in range(ndim)], c[i]) for i in range(ndim))
        rec.close(r.real if real else r, fin(ww), key + '|div', 1e-8, scale=sc * max(np.abs(q).max() for q in P[1]))
    for i in range(ndim):
        r = rec.guard(lambda: np.array(grad(w[0])[i].eval(pts)), key + '|grad')
        if r is not None:
            rec.close(r.real if real else r, fin(at_points([P[1 if a == i else 0][a] for a in range(ndim)], c[0])), key + '|grad', 1e-8,
                      scale=sc * max(np.abs(q).max() for q in P[1]))
    rec.sample({'case': task, 'shape': list(shp)})
