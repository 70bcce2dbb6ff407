"""C01: every 1D transform, every family/basis/quadrature/size/domain/dtype/kind, on all unit vectors.

The maps are linear: backward, scalar_product and forward are decided by their action on every
unit coefficient vector / every nodal unit array (times 1 and, for complex data, 1j), which is
enumerated completely for each configuration. Affine parts (boundary values) are enumerated too.
"""
import numpy as np
from mc import spaces as S
from mc.common import generic

META = {
    'level': 'model_checking',
    'bounds': 'all 8 families, all named bases + 22 generic boundary conditions, all documented quadratures, '
              'N from the smallest admissible size to +3/+6 (thorough: to +12) plus {31,32,33} for fast '
              'transforms, reference and mapped domain, real/complex data, all transform kinds, with and '
              'without explicit arrays; for each, every unit vector of coefficient and physical space',
    'rule': 'state = (space descriptor, dtype, kind); transition = one transform call on one unit vector',
    'assumptions': ['orthogonal polynomials of scipy.special are correct', 'float64 rounding below 1e-8 relative'],
}


def kinds(fam):
    return {'fourier': ['fast', 'vandermonde'], 'hermite': ['vandermonde'], 'laguerre': ['vandermonde'],
            'chebyshev': ['fast', 'recursive', 'vandermonde'], 'chebyshevu': ['fast', 'recursive', 'vandermonde'],
            'legendre': ['fast', 'recursive', 'vandermonde'], 'ultraspherical': ['recursive', 'vandermonde'],
            'jacobi': ['recursive', 'vandermonde']}[fam]


DOMS = {'fourier': [None, (-1., 2.)], None: [None, (0.5, 3.)]}


CHEAP_GENERIC = [0, 1, 2, 3, 4, 5, 6, 15, 16, 20, 21]
INHOM = [1.5, -0.7, 0.4, 2.1, -1.1, 0.3, 0.9, -0.6]


def slow_mass(d):
    """Bases whose symbolic mass matrix takes minutes to build: no forward in the quick tier."""
    k = (d['fam'], d['cls'], d.get('alpha'))
    return k in (('chebyshev', 'Phi6', None), ('ultraspherical', 'Phi6', 1.5), ('jacobi', 'Phi4', 0.5))


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for f in S.CLASSES:
        m = DOMS.get(f, DOMS[None])[1] if f not in ('laguerre', 'hermite') else None
        for c in S.CLASSES[f]:
            if f == 'fourier':
                for n in (range(2, 11) if quick else range(2, 34)):
                    ds = [{'fam': f, 'cls': c, 'quad': '', 'N': n}, {'fam': f, 'cls': c, 'quad': '', 'N': n, 'dom': list(m)}]
                    out.append({'ds': ds, 'dt': 'd' if c == 'R2C' else 'D'})
                continue
            for base in S.descriptors([f], [c], extra_n=(0,)):
                n0 = base['N']
                combos = [(0, None, 'd'), (1, m, 'D'), (4, m, 'd'), (5, None, 'D')] if quick else \
                    [(e, dm, t) for e in range(0, 10) for dm in ([None, m] if m else [None]) for t in 'dD']
                if c == 'Orthogonal' and quick:
                    combos += [(2, m, 'd'), (3, None, 'd')]
                if slow_mass(base):
                    combos = combos[:4] if quick else [x for x in combos if x[0] < 3]
                elif c.startswith('Phi') and int(c[3:]) >= 4:
                    combos = combos[:2] if quick else [x for x in combos if x[0] < 4]
                for e, dm, t in combos:
                    d = dict(base, N=n0 + e)
                    if dm is not None:
                        d['dom'] = list(dm)
                    out.append({'ds': [d], 'dt': t, 'fwd': not (quick and slow_mass(base))})
    for f in ('chebyshev', 'chebyshevu', 'legendre', 'fourier', 'laguerre', 'hermite'):
        for q in S.QUADS[f]:
            for n in (32, 33) if quick else (31, 32, 33, 63, 64, 65, 100, 127, 128):
                if f in ('laguerre', 'hermite') and n > 64:
                    continue
                out.append({'ds': [{'fam': f, 'cls': 'Orthogonal' if f != 'fourier' else 'R2C', 'quad': q, 'N': n}], 'dt': 'd'})
                if f == 'fourier':
                    out.append({'ds': [{'fam': f, 'cls': 'C2C', 'quad': q, 'N': n}], 'dt': 'D'})
    # inhomogeneous boundary values and generic bases
    for f in ('chebyshev', 'chebyshevu', 'legendre', 'ultraspherical', 'jacobi'):
        for ci, c in enumerate(S.CLASSES[f]):
            if c in ('Orthogonal', 'ShenBiPolar') and not (f == 'legendre' and c == 'ShenBiPolar'):
                continue
            for ab in S.ab_list(f)[-1:] if quick else S.ab_list(f):
                base = {'fam': f, 'cls': c, 'quad': S.QUADS[f][0], 'N': 0}
                base.update(ab)
                n = len(S.conditions(base))
                if n > 8:
                    continue
                for dm in [None, (0.5, 3.)] if not quick else [[None, (0.5, 3.)][ci % 2]]:
                    d = dict(base, N=S.min_n(base) + 2, vals=INHOM[:n])
                    if dm:
                        d['dom'] = list(dm)
                    out.append({'ds': [d], 'dt': 'd' if ci % 3 else 'D', 'fwd': not (quick and (slow_mass(base) or n > 6))})
        gl = [S.GENERIC_BCS[i] for i in CHEAP_GENERIC] if quick else S.GENERIC_BCS
        for j, b in enumerate(gl):
            for dm in ([j % 2] if quick else [0, 1]):
                out.append({'ds': [{'fam': f, 'cls': 'Generic', 'quad': S.QUADS[f][0], 'N': 12, 'bc': b,
                                    **({'alpha': 1, 'beta': 2} if f == 'jacobi' else {}),
                                    **({'dom': [0.5, 3.]} if dm else {})}], 'dt': 'd'})
    for c in ('CompactDirichlet', 'CompactNeumann'):
        out.append({'ds': [{'fam': 'laguerre', 'cls': c, 'quad': 'LG', 'N': 8, 'vals': [1.5]}], 'dt': 'd'})
    out.append({'ds': [{'fam': 'laguerre', 'cls': 'Generic', 'quad': 'LG', 'N': 8, 'bc': {'left': {'R': [0.7, 1.5]}}}], 'dt': 'd'})
    return out


def tag(d):
    t = '%s.%s,%s,N=%d' % (d['fam'], d['cls'], d.get('quad'), d['N'])
    for k in ('alpha', 'beta', 'dom', 'vals', 'bc', 'scaled'):
        if d.get(k) is not None:
            t += ',%s=%s' % (k, d[k])
    return t


def run(task, rec):
    for d in task['ds']:
        rec.guard(lambda: one(d, task['dt'], rec, task.get('fwd', True)), 'space|%s|%s' % (tag(d), task['dt']))


def one(d, dt, rec, fwd=True):
    if d['cls'] == 'R2C' and dt == 'D':
        return
    if d['cls'] == 'C2C' and dt == 'd':
        return
    sp = S.make(dict(d, dtype=dt) if d['fam'] != 'fourier' else d)
    T = tag(d)
    n = S.dim(d)
    N = d['N']
    cplx = dt == 'D'
    rec.check(sp.dim() == n, 'dim|%s' % T, 'dim %d expected %d' % (sp.dim(), n))
    x = np.asarray(sp.mesh(), dtype=float)
    X, w = sp.points_and_weights(N)
    rec.close(x, S.from_ref(d, X), 'mesh|%s' % T, 1e-12)
    if d['fam'] == 'fourier':
        w = np.full(N, 1. / N)
    else:
        w = np.asarray(w, dtype=float) / S.dfactor(d)
    fourier = d['fam'] == 'fourier'
    B = S.basis(d, x)                       # N x n
    L = S.lift(d, x)
    cond = np.abs(B).max(axis=0)
    alloc = sp.shape()
    ph = [1., 1j] if cplx else [1.]
    nodal = (B.conj() * w[:, None])
    # forward is well posed when the quadrature resolves the mass matrix
    G = B.conj().T @ (B * w[:, None])
    ckappa = np.linalg.cond(G / np.sqrt(np.outer(np.diag(G).real, np.diag(G).real))) if n else 1.
    tolf = max(1e-9, 1e-15 * ckappa * 50)
    odt = complex if (cplx or fourier) else float
    for kind in kinds(d['fam']):
        if d['fam'] == 'legendre' and kind == 'fast' and d['quad'] != 'LG':
            continue
        if not rec.state(T, dt, kind):
            continue
        key = '%s|%s|%s' % (T, dt, kind)
        bw, bw_in, spr = [], [], []
        if fourier and d['cls'] == 'R2C':
            herm = []
            for k in range(n):
                for p in (1., 1j):
                    if (k == 0 or (N % 2 == 0 and k == n - 1)) and p == 1j:
                        continue
                    herm.append((k, p))
        else:
            herm = [(k, p) for k in range(n) for p in ph]
        for k, p in herm:
            uh = np.zeros(alloc, dtype=odt)
            uh[k] = p
            if len(L) and L.any():
                sp_set_bc(sp, uh)
            uh0 = uh.copy()
            out = np.zeros(N, dtype=complex if cplx else float)
            r = sp.backward(uh, out, kind=kind)
            rec.trans()
            rec.check(r is out, 'backward-out|' + key, 'output array not returned')
            rec.check(np.array_equal(uh, uh0), 'backward-input|' + key, 'input array modified')
            if fourier and d['cls'] == 'R2C':
                e = np.zeros(n, dtype=complex)
                e[k] = p
                want = S.evaluate(d, e, x).real
            else:
                want = p * B[:, k] + L
            rec.close(out, want, 'backward|' + key, 1e-9, 'unit vector %d*%s' % (k, p), scale=max(1., np.abs(want).max()))
            if not fwd:
                continue
            # member array -> coefficients -> array
            f0 = want.copy()
            fin = f0.copy()
            g = np.zeros(alloc, dtype=odt)
            sp.forward(fin, g, kind=kind)
            rec.trans()
            rec.check(np.array_equal(fin, f0), 'forward-input|' + key, 'input array modified')
            wantc = np.zeros(n, dtype=odt)
            wantc[k] = p
            cs = np.abs(B).max(axis=0).max() / max(1e-300, min(cond.min(), 1.)) if n else 1
            rec.close(g[:n], wantc, 'forward|' + key, tolf * max(1, cs), 'member array of unit vector %d' % k)
            # through the internal buffers
            if kind == kinds(d['fam'])[0]:
                sp.backward.input_array[...] = uh
                r = sp.backward(kind=kind)
                rec.trans()
                rec.close(r, want, 'backward-internal|' + key, 1e-9, 'unit vector %d' % k, scale=max(1., np.abs(want).max()))
                sp.forward.input_array[...] = f0
                g2 = sp.forward(kind=kind)
                rec.close(g2[:n], wantc, 'forward-internal|' + key, tolf * max(1, cs), 'unit vector %d' % k)
                b2 = np.zeros_like(out)
                sp.backward(g, b2, kind=kind)
                rec.close(b2, want, 'roundtrip|' + key, 1e-8 * max(1, cs * tolf / 1e-9), 'unit vector %d' % k,
                          scale=max(1., np.abs(want).max()))
            rec.trace()
        for j in range(N):
            for p in ph:
                f = np.zeros(N, dtype=complex if cplx else float)
                f[j] = p
                f0 = f.copy()
                out = np.zeros(alloc, dtype=odt)
                sp.scalar_product(f, out, kind=kind)
                rec.trans()
                rec.check(np.array_equal(f, f0), 'scalar-input|' + key, 'input array modified')
                want = p * nodal[j]
                rec.close(out[:n], want, 'scalar_product|' + key, 1e-9, 'nodal unit array %d' % j,
                          scale=max(np.abs(nodal).max(), 1e-300))
                rec.trace()
        # superposition (the enumeration above assumes linearity): one generic vector
        u = generic((alloc,), 1, odt is complex)
        if fourier and d['cls'] == 'R2C':
            u[0] = u[0].real
            if N % 2 == 0:
                u[-1] = u[-1].real
            want = S.evaluate(d, u, x).real
        else:
            u[n:] = 0
            want = B @ u[:n] + L
        if L.any():
            sp_set_bc(sp, u)
        out = np.zeros(N, dtype=complex if cplx else float)
        sp.backward(u, out, kind=kind)
        rec.close(out, want, 'backward-generic|' + key, 1e-9, scale=max(1., np.abs(want).max()))
        rec.outcome(T, dt, kind, out)
        f = generic((N,), 2, cplx)
        o2 = np.zeros(alloc, dtype=odt)
        sp.scalar_product(f.copy(), o2, kind=kind)
        rec.close(o2[:n], nodal.T @ f, 'scalar-generic|' + key, 1e-9, scale=max(np.abs(nodal).max(), 1e-300) * N)
        rec.count(kind)
    rec.sample({'space': d, 'dtype': dt, 'points': len(x), 'unit_vectors': n})


def sp_set_bc(sp, uh):
    if hasattr(sp, 'bc') and sp.bc:
        sp.bc.set_boundary_dofs(uh, True)
