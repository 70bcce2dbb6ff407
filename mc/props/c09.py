"""C09: padding, truncation and convolution are free of aliasing.

All maps involved are (real) linear or bilinear, so unit arrays / pairs of unit arrays decide a configuration. The
oracle of one-dimensional spaces is the expansion itself (numpy), the oracle of multidimensional spaces is the product
of the one-dimensional maps decided here. Histories of padded transforms on the same objects are explored breadth first.
"""
import itertools
import warnings
import numpy as np

from mc import spaces as S
from mc import tsp
from mc.common import generic
from mc.props.c01 import kinds, slow_mass, tag

META = {'rule': 'state = (space, padding factor, kind or history of padded transforms); transition = one transform/convolution/mask on one unit array (pair)',
        'domain': 'all 1D families and classes, even and odd sizes, 6 padding factors; tensor products in 1-3 dimensions with every combination of padding per axis; '
                  'vector and tensor spaces; 2/3-rule; convolutions of every pair of modes; Nyquist masks; histories of padded transforms of a Function',
        'bounds': {'quick': 'Fourier N=2..10, two sizes of polynomial bases, 30 tensor spaces, histories of 3 calls',
                   'thorough': 'Fourier N=2..33 (plus sizes with rounding padding factors), more sizes and spaces, histories of 4 calls'}}

PFS = (1.5, 2, 1.25, 1.1, 1.7, 4 / 3)
SZ = {'F': 4, 'G': 5, 'K': 6, 'k': 5, 'L': 5, 'C': 6, 'U': 5, 'Q': 5, 'J': 5, 'O': 4, 'T': 5, 'Z': 4, 'S': 5, 'V': 4, 'H': 4, 'A': 5, 'D': 5, 'N': 6, 'B': 8}


def tasks(tier):
    quick = tier == 'quick'
    out = []
    ns = list(range(2, 11)) if quick else list(range(2, 34))
    for cls in ('R2C', 'C2C'):
        for n in ns + [14, 30, 21, 29] + ([] if quick else [27, 45, 57, 114, 157, 159]):
            for dom in ([None] if n % 3 else [(-1., 2.)]):
                out.append({'kind': 'four', 'cls': cls, 'N': n, 'dom': dom, 'big': n > 10})
        for n in range(2, 10) if quick else range(2, 18):
            out.append({'kind': 'conv', 'cls': cls, 'N': n})
    for f in S.CLASSES:
        if f == 'fourier':
            continue
        for c in S.CLASSES[f]:
            for base in S.descriptors([f], [c], extra_n=(0,)):
                if slow_mass(base) or (quick and c.startswith('Phi') and int(c[3:]) >= 3):
                    continue
                for e in ((0, 1) if quick else range(6)):
                    d = dict(base, N=max(base['N'], 3) + e)
                    if e % 2 and f not in ('laguerre', 'hermite'):
                        d['dom'] = [0.5, 3.]
                    out.append({'kind': 'poly', 'd': d, 'pfs': (1.5, 2) if quick else (1.5, 2, 1.25, 4 / 3)})
    for f in ('chebyshev', 'legendre', 'chebyshevu', 'ultraspherical', 'jacobi'):
        for c in ('ShenDirichlet', 'CompactDirichlet', 'ShenBiharmonic', 'CompactNeumann', 'ShenNeumann', 'LowerDirichlet'):
            if c in S.CLASSES[f]:
                for q in S.QUADS[f]:
                    base = {'fam': f, 'cls': c, 'quad': q, 'N': 0}
                    if f in ('ultraspherical', 'jacobi'):
                        base.update(S.ab_list(f)[0])
                    n = len(S.conditions(base))
                    out.append({'kind': 'poly', 'd': dict(base, N=S.min_n(base) + 2, vals=[1.5, -0.7, 0.4, 2.1][:n], dom=[0.5, 3.]), 'pfs': (1.5, 2)})
    two = ['FG', 'GF', 'GG', 'FL', 'LF', 'CF', 'GT', 'TG', 'ZF', 'FH', 'AF', 'TT', 'LC', 'OZ', 'UF', 'FV', 'kK', 'Kk', 'GB', 'NF', 'SG', 'JF', 'FQ']
    three = ['GGF', 'GFL', 'LGF', 'TGF', 'GCG', 'LTF', 'FGG'] if quick else ['GGF', 'GFL', 'LGF', 'TGF', 'GCG', 'LTF', 'FGG', 'GGG', 'GLG', 'TLT', 'KGD', 'FGC', 'CFG', 'HGF', 'GAF']
    for s in two + three:
        for odd in ((0, 1) if len(s) == 2 or not quick else (0,)):
            out.append({'kind': 'nd', 's': s, 'odd': odd})
    for s in ['FG', 'GF', 'GG', 'LF', 'GT', 'TT'] + ['GGF', 'LGF', 'GCG']:
        for odd in ((0,) if quick and len(s) > 2 else (0, 1)):
            out.append({'kind': 'prod', 's': s, 'odd': odd})
    for s in ['F', 'G', 'L', 'T'] + ['FG', 'GF', 'GG', 'LF', 'GT', 'TT', 'GGF', 'LGF'][:6 if quick else 8]:
        out.append({'kind': 'hist', 's': s, 'depth': 3 if quick else 4})
    for s in ['F', 'G', 'FG', 'GF', 'GG', 'LF', 'GT', 'TT', 'TZ', 'GGF', 'LGF', 'GFC', 'GGG', 'kK']:
        for odd in (0, 1):
            out.append({'kind': 'mask', 's': s, 'odd': odd})
    for f in S.CLASSES:
        for c in (S.CLASSES[f] if not quick else [x for x in S.CLASSES[f] if x in ('R2C', 'C2C', 'Orthogonal', 'ShenDirichlet', 'CompactDirichlet')]):
            d = {'fam': f, 'cls': c, 'quad': S.QUADS[f][0]}
            if f in ('ultraspherical', 'jacobi'):
                d.update(S.ab_list(f)[0])
            if not slow_mass(d):
                out.append({'kind': 'direct', 'd': d, 'ns': (3, 4, 5, 6, 7, 8, 9, 12) if quick else tuple(range(3, 20))})
    for s in ['FG', 'GF', 'GG', 'LF', 'GT', 'TT', 'GGF']:
        out.append({'kind': 'directnd', 's': s})
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['do_' + task['kind']](task, rec)


# ---------------------------------------------------------------- one dimension

def fourier_values(cls, N, c, M):
    """Values of the (symmetric) expansion at M uniform points of the reference domain."""
    x = 2 * np.pi * np.arange(M) / M
    u = np.zeros(M, dtype=complex)
    if cls == 'R2C':
        for k, a in enumerate(c):
            if k == 0:
                u += a.real
            elif 2 * k == N:
                u += a.real * np.cos(k * x)
            else:
                u += 2 * (a * np.exp(1j * k * x)).real
        return u.real
    for i, a in enumerate(c):
        k = i if i < (N + 1) // 2 else i - N
        u += a * (np.cos(k * x) if 2 * abs(k) == N else np.exp(1j * k * x))
    return u


def fourier_coeffs(cls, N, f):
    """Retained coefficients of an array on a finer (M > N) mesh."""
    M = len(f)
    x = 2 * np.pi * np.arange(M) / M
    F = lambda k: np.sum(f * np.exp(-1j * k * x)) / M
    if cls == 'R2C':
        c = np.array([F(k) for k in range(N // 2 + 1)])
        if N % 2 == 0:
            c[-1] = 2 * c[-1].real
        return c
    c = np.array([F(i if i < (N + 1) // 2 else i - N) for i in range(N)])
    if N % 2 == 0:
        c[N // 2] += F(N // 2)
    return c


def units(n, ph):
    for i in range(n):
        for p in ph:
            e = np.zeros(n, dtype=complex if len(ph) > 1 else float)
            e[i] = p
            yield i, p, e


def do_four(task, rec):
    from shenfun import FunctionSpace
    cls, N = task['cls'], task['N']
    kw = {'dtype': 'd' if cls == 'R2C' else 'D'}
    if task['dom']:
        kw['domain'] = task['dom']
    B = FunctionSpace(N, 'F', **kw)
    for pf in PFS:
        M = int(np.floor(N * pf + 1e-12))
        if M == N:
            continue
        for how in ('get_dealiased', 'constructor', 'planned'):
            pre = '%s,N=%d,pf=%.4g,%s' % (cls, N, pf, how)
            if how == 'get_dealiased':
                P = rec.guard(lambda: B.get_dealiased(pf), 'make|' + pre)
            elif how == 'constructor':
                P = rec.guard(lambda: FunctionSpace(N, 'F', padding_factor=pf, **kw), 'make|' + pre)
            else:
                if task['big']:
                    continue
                P = rec.guard(lambda: B.get_dealiased(padding_factor=pf).get_unplanned(), 'make|' + pre)
            if P is None:
                continue
            n = N // 2 + 1 if cls == 'R2C' else N
            rec.state(pre)
            rec.check(P.shape(False) == M and P.shape(True) == n, 'shape|' + pre, '%s %s expected %s %s' % (P.shape(False), P.shape(True), M, n))
            rec.check(P.forward.input_array.shape == (M,) and P.forward.output_array.shape == (n,), 'planned shape|' + pre,
                      '%s %s' % (P.forward.input_array.shape, P.forward.output_array.shape))
            ref = S.from_ref({'fam': 'fourier', 'cls': cls, 'N': N, 'dom': task['dom']}, 2 * np.pi * np.arange(M) / M)
            x = rec.guard(lambda: np.asarray(P.mesh()), 'mesh|' + pre)
            if x is not None:
                rec.close(x, ref, 'mesh|' + pre, 1e-12)
            its = [(i, p, e) for i, p, e in units(n, (1, 1j))]
            if task['big']:
                its = [t for t in its if t[0] in (0, 1, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1)]
            for i, p, e in its:
                want = fourier_values(cls, N, e, M)
                o = np.full(M, 7., dtype=want.dtype)
                e0 = e.copy()
                r = rec.guard(lambda: P.backward(e, o), 'backward|' + pre)
                rec.trans()
                if r is None:
                    break
                rec.close(o, want, 'backward|' + pre, 1e-11, 'unit %d*%s' % (i, p), scale=1)
                rec.check(np.array_equal(e, e0), 'input|' + pre)
                q = np.full(n, 7., dtype=complex)
                rec.guard(lambda: P.forward(o.copy(), q), 'forward|' + pre)
                # the retained function comes back (imaginary parts of real modes are not represented)
                w = e.copy()
                if cls == 'R2C':
                    if i == 0 or 2 * i == N:
                        w = w.real.astype(complex)
                rec.close(q, w, 'roundtrip|' + pre, 1e-11, 'unit %d*%s' % (i, p), scale=1)
            for j, p, f in units(M, (1,) if cls == 'R2C' else (1, 1j)):
                if task['big'] and j % 7:
                    continue
                want = fourier_coeffs(cls, N, f)
                for op in ('forward', 'scalar_product'):
                    q = np.full(n, 7., dtype=complex)
                    f0 = f.copy()
                    r = rec.guard(lambda: getattr(P, op)(f, q), op + '|' + pre)
                    rec.trans()
                    if r is None:
                        break
                    rec.close(q, want, op + '|' + pre, 1e-11, 'nodal unit %d*%s' % (j, p), scale=1)
                    rec.check(np.array_equal(f, f0), 'input|' + pre)
            rec.trace()


def do_conv(task, rec):
    from shenfun import FunctionSpace
    cls, N = task['cls'], task['N']
    n = N // 2 + 1 if cls == 'R2C' else N
    B = FunctionSpace(N, 'F', dtype='d' if cls == 'R2C' else 'D')
    big = 4 * N + 3
    for pf in (1.5 + 1. / N, 2, 3) if N % 2 == 0 else (1.5, 1.5 + 1. / N, 2, 3):
        if N < 3 and pf < 2:
            continue
        P = B.get_dealiased(pf)
        pre = 'convolve fast|%s,N=%d,pf=%.4g' % (cls, N, pf)
        rec.state(pre)
        pair(rec, cls, N, n, pre, lambda u, v: P.convolve(u, v, fast=True), lambda u, v: fourier_coeffs(cls, N, fourier_values(cls, N, u, big) * fourier_values(cls, N, v, big)))
        # output array given
        u, v = generic((n,), 1, True), generic((n,), 2, True)
        if cls == 'R2C':
            for a in (u, v):
                a[0] = a[0].real
                if N % 2 == 0:
                    a[-1] = a[-1].real
        uv = np.full(n, 5., dtype=complex)
        r = rec.guard(lambda: P.convolve(u, v, uv, fast=True), pre)
        rec.close(uv, fourier_coeffs(cls, N, fourier_values(cls, N, u, big) * fourier_values(cls, N, v, big)), pre + '|given output', 1e-11)
    pre = 'convolve direct|%s,N=%d' % (cls, N)
    rec.state(pre)

    def full(u, v):
        f = fourier_values(cls, N, u, big) * fourier_values(cls, N, v, big)
        x = 2 * np.pi * np.arange(big) / big
        F = lambda k: np.sum(f * np.exp(-1j * k * x)) / big
        if cls == 'R2C':
            return np.array([F(k) for k in range(N + 1)])
        # the full spectrum -N..N; with 2N entries the +N and -N coefficients share one slot
        return {k: F(k) for k in range(-N, N + 1)}

    def direct(u, v):
        return B.convolve(u, v, fast=False)

    def compare(got, want):
        if cls == 'R2C':
            return got, want
        w = np.zeros(2 * N, dtype=complex)
        for k, a in want.items():
            w[k % (2 * N)] += a
        return got, w
    pair(rec, cls, N, n, pre, direct, full, compare)


def pair(rec, cls, N, n, pre, f, g, compare=None):
    for (i, p, e), (j, q, h) in itertools.product(units(n, (1, 1j)), repeat=2):
        if cls == 'R2C' and any(r == 1j and (k == 0 or 2 * k == N) for k, r in ((i, p), (j, q))):
            continue    # not coefficients of real functions
        e0, h0 = e.copy(), h.copy()
        got = rec.guard(lambda: f(e, h), pre)
        rec.trans()
        if got is None:
            return
        want = g(e, h)
        if compare:
            got, want = compare(got, want)
        rec.close(got, want, pre, 1e-11, 'modes %d*%s, %d*%s' % (i, p, j, q), scale=1)
        rec.check(np.array_equal(e, e0) and np.array_equal(h, h0), pre + '|inputs')
        rec.trace()


def do_poly(task, rec):
    d = task['d']
    N = d['N']
    n = S.dim(d)
    for dt in 'dD':
        sp = rec.guard(lambda: S.make(dict(d), dtype=dt), 'space|' + tag(d))
        if sp is None:
            return
        for pf in task['pfs']:
            M = int(np.floor(N * pf + 1e-12))
            if M == N:
                continue
            pre = '%s|%s|pf=%.4g' % (tag(d), dt, pf)
            P = rec.guard(lambda: sp.get_dealiased(pf), 'make|' + pre)
            if P is None:
                continue
            x = np.asarray(P.mesh(), dtype=float)
            X, w = P.points_and_weights(M)
            X0, _ = S.make(dict(d, N=M, vals=None) if d['cls'] == 'Orthogonal' else {k: v for k, v in dict(d, N=M, cls='Orthogonal').items() if k != 'vals'}).points_and_weights(M)
            rec.check(x.shape == (M,) and P.shape(False) == M and P.dim() == n, 'shape|' + pre)
            rec.close(X, X0, 'points|' + pre, 1e-12)
            rec.close(x, S.from_ref(d, X0), 'mesh|' + pre, 1e-12)
            w = np.asarray(w, dtype=float) / S.dfactor(d)
            B = S.basis(d, x)
            L = S.lift(d, x)
            G = B.T @ (B * w[:, None])
            nodal = B * w[:, None]
            alloc = P.shape()
            tol = max(1e-9, 1e-14 * np.linalg.cond(G / np.sqrt(np.outer(np.diag(G), np.diag(G)))))
            gs = np.abs(np.linalg.solve(G, nodal.T)).max()
            for kind in kinds(d['fam']):
                if d['fam'] == 'legendre' and kind == 'fast' and d['quad'] != 'LG':
                    continue
                key = '%s|%s' % (pre, kind)
                rec.state(key)
                for i, p, e in units(n, (1, 1j) if dt == 'D' else (1,)):
                    uh = np.zeros(alloc, dtype=dt)
                    uh[:n] = e
                    if L.any():
                        P.bc.set_boundary_dofs(uh, True)
                    o = np.full(M, 7, dtype=dt)
                    r = rec.guard(lambda: P.backward(uh, o, kind=kind), 'backward|' + key)
                    rec.trans()
                    if r is None:
                        break
                    want = B @ e + L
                    rec.close(o, want, 'backward|' + key, 1e-9, 'unit %d*%s' % (i, p), scale=max(1., np.abs(want).max()))
                    q = np.zeros(alloc, dtype=dt)
                    rec.guard(lambda: P.forward(o.copy(), q, kind=kind), 'forward|' + key)
                    rec.trans()
                    rec.close(q[:n], e, 'roundtrip|' + key, tol, 'unit %d*%s' % (i, p), scale=max(1., gs))
                for j, p, f in units(M, (1,)):
                    f = f.astype(dt)
                    q = np.full(alloc, 7, dtype=dt)
                    r = rec.guard(lambda: P.scalar_product(f, q, kind=kind), 'scalar_product|' + key)
                    rec.trans()
                    if r is None:
                        break
                    rec.close(q[:n], nodal[j], 'scalar_product|' + key, 1e-9, 'nodal unit %d' % j, scale=max(np.abs(nodal).max(), 1e-300))
                    q = np.full(alloc, 7, dtype=dt)
                    r = rec.guard(lambda: P.forward(f, q, kind=kind), 'forward|' + key)
                    if r is None:
                        break
                    a = nodal[j]
                    if L.any():
                        a = a - nodal.T @ L
                    rec.close(q[:n], np.linalg.solve(G, a), 'forward|' + key, tol, 'nodal unit %d' % j, scale=max(1., gs))
                rec.trace()


def keepers(cls, N, n, fam):
    if fam == 'fourier':
        k = np.arange(n) if cls == 'R2C' else np.fft.fftfreq(N, 1. / N).astype(int)
        return abs(k) < N // 3
    return np.arange(n) < 2 * N // 3


def do_direct(task, rec):
    for N in task['ns']:
        d = dict(task['d'], N=N)
        if N < S.min_n(d):
            continue
        sp = S.make(d)
        n = S.dim(d)
        pre = 'direct|' + tag(d)
        P = rec.guard(lambda: sp.get_dealiased(1, dealias_direct=True), pre)
        if P is None:
            continue
        rec.state(pre)
        keep = keepers(d['cls'], N, n, d['fam'])
        four = d['fam'] == 'fourier'
        for kind in kinds(d['fam']):
            if d['fam'] == 'legendre' and kind == 'fast' and d['quad'] != 'LG':
                continue
            for i, p, e in units(n, (1, 1j) if four else (1,)):
                uh = np.zeros(P.shape(), dtype=e.dtype)
                uh[:n] = e
                u0 = uh.copy()
                want = np.zeros(N)
                if keep[i]:
                    want = fourier_values(d['cls'], N, e, N) if four else S.basis(d, np.asarray(sp.mesh()))[:, i] * p
                o = np.full(N, 7, dtype=float if d['cls'] != 'C2C' else complex)
                r = rec.guard(lambda: P.backward(uh, o, kind=kind), pre + '|' + kind)
                rec.trans()
                if r is None:
                    break
                rec.close(o, want, pre + '|' + kind, 1e-9, 'mode %d*%s (removed: %s)' % (i, p, not keep[i]), scale=max(1., np.abs(want).max()))
                rec.check(np.array_equal(uh, u0), pre + '|input')
                # the space itself is untouched
            e = generic((P.shape(),), 1, four)
            e[n:] = 0
            o = np.zeros(N, dtype=float if d['cls'] != 'C2C' else complex)
            f0 = sp.backward(e, o.copy()) if True else None
            rec.close(sp.forward(f0, np.zeros_like(e))[1:n - 1], e[1:n - 1], pre + '|original space', 1e-7) if n > 4 else None
            rec.trace()


# ---------------------------------------------------------------- several dimensions

def sizes(s, odd):
    return [SZ[c] + odd for c in s]


def pmesh(n, pf):
    return int(np.floor(n * pf + 1e-12))


def do_nd(task, rec):
    s = task['s']
    ns = sizes(s, task['odd'])
    D = len(s)
    for order in range(tsp.n_orders(s)):
        T = tsp.space(s, ns, order)
        combos = [(1.5,) * D, (2,) * D] + [tuple(1.5 if k == a else 1 for k in range(D)) for a in range(D)] + \
                 [tuple(1 if k == a else 2 for k in range(D)) for a in range(D)]
        combos = list(dict.fromkeys(combos))
        for ci, pf in enumerate(combos):
            if D == 3 and ci > 2 and order:
                continue
            pre = '%s,%s,%s,pf=%s' % (s, ns, order, pf)
            arg = pf[0] if ci == 0 else pf
            P = rec.guard(lambda: T.get_dealiased(arg), 'make|' + pre)
            if P is None:
                continue
            rec.state(pre)
            phys = tuple(pmesh(n, f) for n, f in zip(ns, pf))
            rec.check(P.shape(False) == phys and P.shape(True) == T.shape(True), 'shape|' + pre, '%s %s' % (P.shape(False), phys))
            rec.check(T.get_dealiased(arg) is P or T.get_dealiased(arg).shape(False) == P.shape(False), 'again|' + pre)
            for k, x in enumerate(P.mesh()):
                rec.close(np.asarray(x).ravel(), np.asarray(tsp.base(s[k], ns[k]).get_dealiased(pf[k]).mesh()).ravel(), 'mesh|' + pre, 1e-12)
            check_maps(rec, P, s, ns, order, pf, pre)
    # spaces of bases that were padded by the constructor
    if D == 2 and not task['odd']:
        from shenfun import TensorProductSpace, comm
        for pf in ((1.5, 1.5), (1.5, 1), (1, 2)):
            pre = '%s,%s,padded bases,pf=%s' % (s, ns, pf)
            kw = {'dtype': 'D'} if tsp.dtype_for(s) == 'D' else {}
            P = rec.guard(lambda: TensorProductSpace(comm, [tsp.base(c, n, padding_factor=f) for c, n, f in zip(s, ns, pf)], axes=tsp.axes_for(s), **kw), 'make|' + pre)
            if P is None:
                continue
            rec.state(pre)
            check_maps(rec, P, s, ns, 0, pf, pre)


def check_maps(rec, P, s, ns, order, pf, pre, ops=('backward', 'forward', 'scalar_product')):
    dt = P.forward.input_array.dtype
    co = P.forward.output_array.dtype
    mask = np.zeros(P.shape(True), dtype=bool)
    mask[P.slice()] = True
    for op in ops:
        si, so = (P.shape(True), P.shape(False)) if op == 'backward' else (P.shape(False), P.shape(True))
        ti, to = (co, dt) if op == 'backward' else (dt, co)
        tot = int(np.prod(si))
        step = 1 if tot <= 60 else (3 if tot <= 200 else max(1, tot // 40))
        if step > 1 and all(step % q == 0 for q in si):
            step += 1
        for i in range(0, tot, step):
            if op == 'backward' and not mask.flat[i]:
                continue
            e = np.zeros(si, dtype=ti)
            e.flat[i] = (1, 1j, 0.5 - 2j)[i % 3] if ti.kind == 'c' else 1
            want = tsp.apply(s, ns, op, e, order, pf)
            o = np.full(so, 7, dtype=to)
            e0 = e.copy()
            r = rec.guard(lambda: getattr(P, op)(e, o), op + '|' + pre)
            rec.trans()
            if r is None:
                break
            sel = mask if op != 'backward' else slice(None)
            rec.close(o[sel], want[sel] if op != 'backward' else want, op + '|' + pre, 1e-9, 'unit %d' % i, scale=max(1, np.abs(want).max()))
            rec.check(np.array_equal(e, e0), 'input|' + pre)
        rec.trace()


def do_prod(task, rec):
    """Products of functions: pf = 3/2 against pf = 3 and against CompositeSpace.convolve."""
    from shenfun import VectorSpace, TensorSpace, Function
    s = task['s']
    ns = sizes(s, task['odd'])
    D = len(s)
    T = tsp.space(s, ns)
    big = T.get_dealiased(3)
    cplx = T.forward.output_array.dtype.kind == 'c'
    mask = np.zeros(T.shape(True), dtype=bool)
    mask[T.slice()] = True

    def member(seed):
        # coefficients of a real(isable) function: pass through physical space once
        x = generic(T.shape(False), seed, T.forward.input_array.dtype.kind == 'c')
        o = np.zeros(T.shape(True), dtype=T.forward.output_array.dtype)
        T.forward(x, o)
        return o

    def ref(a, b):
        pa = np.zeros(big.shape(False), dtype=big.forward.input_array.dtype)
        pb = np.zeros_like(pa)
        big.backward(a, pa)
        big.backward(b, pb)
        o = np.zeros(T.shape(True), dtype=T.forward.output_array.dtype)
        return big.forward(pa * pb, o)
    four = [k for k in range(D) if s[k] in tsp.FOUR]
    # sufficient padding: Fourier 3N/2 (+1 for even sizes), polynomials: product of degree 2(N-1) against degree N-1
    suff = tuple((1.5 + 1. / n if n % 2 == 0 else 1.5) if k in four else 2 for k, n in enumerate(ns))
    more = tuple(2 + 0.5 * (k % 2) for k in range(D))
    us = [member(k) for k in (1, 2, 3)]
    for k in range(min(4, int(np.prod(T.shape(True))))):
        e = np.zeros(T.shape(True), dtype=us[0].dtype)
        idx = np.argwhere(mask)
        e[tuple(idx[(k * 7919) % len(idx)])] = 1
        x = T.backward(e, np.zeros(T.shape(False), dtype=T.forward.input_array.dtype)).copy()
        us.append(T.forward(x, np.zeros_like(e)).copy())
    for pf in (suff, more):
        P = T.get_dealiased(pf)
        pre = '%s,%s,pf=%s' % (s, ns, pf)
        for a, b in itertools.combinations_with_replacement(range(len(us)), 2):
            rec.state(pre, a, b)
            want = ref(us[a], us[b])
            o = np.full(T.shape(True), 3, dtype=us[0].dtype)
            r = rec.guard(lambda: P.convolve(us[a], us[b], o), 'convolve|' + pre)
            rec.trans()
            if r is None:
                break
            rec.close(o[mask], want[mask], 'convolve|' + pre, 1e-9, 'pair %d %d' % (a, b))
            # through Function.backward(padding_factor)
            fa, fb = Function(T, buffer=us[a].copy()), Function(T, buffer=us[b].copy())

            def go():
                pa = fa.backward(padding_factor=pf)
                pb = fb.backward(padding_factor=pf)
                return (pa * pb).forward(Function(T)) if False else P.forward(np.asarray(pa) * np.asarray(pb), np.zeros_like(o))
            r = rec.guard(go, 'Function.backward|' + pre)
            if r is not None:
                rec.close(r[mask], want[mask], 'Function.backward|' + pre, 1e-9, 'pair %d %d' % (a, b))
        # componentwise products in vector and tensor spaces
        for comp in ('vector', 'tensor'):
            if comp == 'tensor' and (D == 3 or pf is more):
                continue
            W = VectorSpace(T) if comp == 'vector' else TensorSpace(T)
            nc = W.num_components()
            fu, fv = Function(W), Function(W)
            A, Bv = fu.__array__().reshape((nc,) + T.shape(True)), fv.__array__().reshape((nc,) + T.shape(True))
            for c in range(nc):
                A[c] = us[c % len(us)]
                Bv[c] = us[(c + 1) % len(us)]
            WP = rec.guard(lambda: W.get_dealiased(pf), 'get_dealiased %s|%s' % (comp, pre))
            if WP is None:
                continue
            uv = Function(W)
            r = rec.guard(lambda: WP.convolve(fu, fv, uv), 'convolve %s|%s' % (comp, pre))
            rec.trans()
            if r is not None:
                got = np.asarray(uv).reshape((nc,) + T.shape(True))
                for c in range(nc):
                    rec.close(got[c][mask], ref(us[c % len(us)], us[(c + 1) % len(us)])[mask], 'convolve %s|%s' % (comp, pre), 1e-9, 'component %d' % c)
            rec.trace()
    # Convolve class: no truncation
    if not four == list(range(D)):
        return
    from shenfun.tensorproductspace import Convolve
    P = T.get_dealiased(2)
    for a, b in itertools.combinations_with_replacement(range(len(us)), 2):
        pre = 'Convolve|%s,%s' % (s, ns)
        c = rec.guard(lambda: Convolve(P), pre)
        if c is None:
            return
        r = rec.guard(lambda: c(us[a], us[b]), pre)
        rec.trans()
        if r is None:
            return
        pa, pb = (P.backward(us[q], np.zeros(P.shape(False), dtype=P.forward.input_array.dtype)) for q in (a, b))
        pa, pb = pa.copy(), pb.copy()
        ref2 = P.backward(us[a], np.zeros(P.shape(False), dtype=P.forward.input_array.dtype)).copy() * P.backward(us[b], np.zeros(P.shape(False), dtype=P.forward.input_array.dtype)).copy()
        full = tsp.apply(s, list(P.shape(False)), 'forward', ref2, 0)
        rec.close(np.asarray(r), full, pre, 1e-9, 'pair %d %d' % (a, b))


def do_hist(task, rec):
    """All histories of padded backward transforms of one Function; each must give the values on its own mesh."""
    from shenfun import Function, VectorSpace
    s = task['s']
    D = len(s)
    ns = sizes(s, 0)
    pfs = [None, 1.5, 2, (1.5,) + (1,) * (D - 1), (2,) + (1.5,) * (D - 1)] if D > 1 else [None, 1.5, 2, 1.25]
    acts = [('b', p) for p in pfs] + [('d', None), ('one', None), ('set', None), ('out', 1.5), ('out', 2)]
    T0 = tsp.space(s, ns) if D > 1 else tsp.base(s, ns[0])
    shp = T0.shape(True) if D > 1 else (T0.shape(True),)

    def want(u, pf, direct=False):
        if direct:
            u = u.copy()
            for k, c in enumerate(s):
                n = u.shape[k]
                keep = np.zeros(n, dtype=bool)
                kk = keepers('R2C' if c in 'Fk' else 'C2C', ns[k], n, 'fourier') if c in tsp.FOUR else np.arange(n) < 2 * ns[k] // 3
                keep[:] = kk[:n]
                sh = [1] * D
                sh[k] = n
                u = u * keep.reshape(sh)
            pf = None
        p = (1.,) * D if pf is None else ((pf,) * D if np.isscalar(pf) else pf)
        return tsp.apply(s, ns, 'backward', u, 0, p)
    x0 = generic(T0.shape(False) if D > 1 else (T0.shape(False),), 1, T0.forward.input_array.dtype.kind == 'c')
    x1 = generic(x0.shape, 2, x0.dtype.kind == 'c')
    c0, c1 = (T0.forward(x, np.zeros(shp, dtype=T0.forward.output_array.dtype)).copy() for x in (x0, x1))
    m = np.zeros(shp, dtype=bool)
    m[T0.slice()] = True
    c0, c1 = c0 * m, c1 * m
    for hist in itertools.product(range(len(acts)), repeat=task['depth']):
        if task['depth'] > 2 and D > 1 and len({acts[h] for h in hist}) < 2:
            continue
        T = tsp.space(s, ns) if False else T0
        if hasattr(T, '_padded_space'):
            T._padded_space.clear()
        u = Function(T)
        u[...] = c0
        cur = c0
        pre = '%s,%s' % (s, ns)
        seq = []
        rec.state(pre, hist)
        for h in hist:
            a, pf = acts[h]
            seq.append((a, pf))
            key = 'history|%s|%s' % (pre, seq)
            if a == 'set':
                cur = c1 if cur is c0 else c0
                u[...] = cur
                rec.trans()
                continue
            if a == 'd':
                def go():
                    P = T.get_dealiased(1, dealias_direct=True) if D == 1 else T.get_dealiased((1,) * D, dealias_direct=True)
                    return P.backward(u, np.zeros(P.shape(False), dtype=P.forward.input_array.dtype))
                w = want(cur, None, True)
            elif a == 'one':
                def go():
                    P = T.get_dealiased(1) if D == 1 else T.get_dealiased((1,) * D)
                    return P.backward(u, np.zeros(P.shape(False), dtype=P.forward.input_array.dtype))
                w = want(cur, None)
            elif a == 'out':
                def go():
                    P = T.get_dealiased(pf)
                    o = np.full(P.shape(False), 3, dtype=P.forward.input_array.dtype)
                    return u.backward(o, padding_factor=pf)
                w = want(cur, pf)
            else:
                def go():
                    return u.backward(padding_factor=pf)
                w = want(cur, pf)
            r = rec.guard(go, key)
            rec.trans()
            if r is None:
                break
            if not rec.close(np.asarray(r), w, key, 1e-9):
                break
            rec.check(np.array_equal(np.asarray(u), cur), key + '|function unchanged')
        rec.trace()


def do_directnd(task, rec):
    s = task['s']
    for odd in (0, 1):
        ns = [n + 2 for n in sizes(s, odd)]
        T = tsp.space(s, ns)
        pre = 'direct|%s,%s' % (s, ns)
        m = np.zeros(T.shape(True), dtype=bool)
        m[T.slice()] = True
        P = rec.guard(lambda: T.get_dealiased((1,) * len(s) if odd else 1, dealias_direct=True), pre)
        if P is None:
            continue
        rec.state(pre)
        keep = np.ones(T.shape(True), dtype=bool)
        for k, c in enumerate(s):
            n = T.shape(True)[k]
            kk = keepers('R2C' if c in 'Fk' else 'C2C', ns[k], n, 'fourier') if c in tsp.FOUR else np.arange(n) < 2 * ns[k] // 3
            sh = [1] * len(s)
            sh[k] = n
            keep = keep & kk.reshape(sh)
        for i in np.argwhere(m):
            e = np.zeros(T.shape(True), dtype=T.forward.output_array.dtype)
            e[tuple(i)] = 1
            o = np.full(P.shape(False), 7, dtype=P.forward.input_array.dtype)
            r = rec.guard(lambda: P.backward(e, o), pre)
            rec.trans()
            if r is None:
                break
            rec.close(o, tsp.apply(s, ns, 'backward', e * keep, 0), pre, 1e-9, 'mode %s' % list(i), scale=1)
        rec.trace()


def do_mask(task, rec):
    from shenfun import Function, VectorSpace, TensorSpace, CompositeSpace
    s = task['s']
    ns = sizes(s, task['odd'])
    D = len(s)
    T = tsp.space(s, ns) if D > 1 else tsp.base(s, ns[0])
    shp = T.shape(True) if D > 1 else (T.shape(True),)
    keep = np.ones(shp, dtype=bool)
    for k, c in enumerate(s):
        if c in tsp.FOUR and ns[k] % 2 == 0:
            sel = [slice(None)] * D
            sel[k] = ns[k] // 2
            keep[tuple(sel)] = False
    pre = 'mask|%s,%s' % (s, ns)
    rec.state(pre)
    if D == 1 and s not in tsp.FOUR:
        return
    mask = rec.guard(lambda: np.array(T.get_mask_nyquist() if T.get_mask_nyquist() is not None else 1), pre)
    rec.close(np.broadcast_to(mask, shp), keep, pre, 0)
    spaces = [('scalar', T)]
    if D > 1:
        spaces += [('vector', VectorSpace(T)), ('composite', CompositeSpace([T, T, T])), ('mixed', CompositeSpace([VectorSpace(T), T]))]
        if D == 2:
            spaces.append(('tensor', TensorSpace(T)))
    for nm, W in spaces:
        for given in (0, 1):
            u = Function(W)
            u[...] = 1 + generic(np.shape(u), 3, np.asarray(u).dtype.kind == 'c')
            w = np.asarray(u) * keep
            mk = rec.guard(lambda: W.get_mask_nyquist(), pre + nm)
            r = rec.guard(lambda: W.mask_nyquist(u, mk) if given else W.mask_nyquist(u), '%s|%s' % (pre, nm))
            rec.trans()
            if r is None:
                continue
            rec.check(np.array_equal(np.asarray(r), w), '%s|%s|%s' % (pre, nm, given), 'only the Nyquist coefficients become zero')
            rec.check(np.array_equal(np.asarray(u), w), '%s|%s|%s|in place' % (pre, nm, given))
            f = Function(W)
            f[...] = 1 + generic(np.shape(f), 3, np.asarray(f).dtype.kind == 'c')
            if hasattr(f, 'mask_nyquist'):
                rec.guard(lambda: f.mask_nyquist(mk if given else None), '%s|%s|method' % (pre, nm))
                rec.check(np.array_equal(np.asarray(f), w), '%s|%s|method' % (pre, nm))
    rec.trace()
