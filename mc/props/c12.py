"""C12: time integrators take the steps their methods define.

Breadth first exploration of all sequences of operations on one integrator (solve a number of steps with one of two step sizes,
continue, go back to the first state, explicit setup) to a bounded depth. Every state is compared with an independent reference:
dense matrices of the linear operator and of the mass, phi functions by Taylor series, published tableaux.
"""
import itertools
import math
import warnings
import numpy as np

from mc import tsp
from mc.common import generic

META = {'rule': 'state = (coefficients, time, step size last used) after a history of solve/setup calls; transition = one call; every callback is a checked event',
        'domain': 'IRK3, BackwardEuler, ETD, ETDRK4, RK4 and IMEXRK3/011/111/222/443; real and complex, scalar and vector, 1-3 dimensions, Fourier and non-periodic spaces '
                  'with and without boundary values; linear terms with real, imaginary and complex symbols, as expressions, matrices and arrays; '
                  'no, linear, quadratic, constant and time dependent nonlinear terms; updates that look and that modify',
        'bounds': {'quick': 'all histories of 2 operations of up to 2 steps each (3 for some spaces)', 'thorough': 'histories of 3 to 5 operations'}}

SZ = {'F': 6, 'G': 5, 'K': 4, 'k': 5, 'L': 6, 'C': 7, 'l': 6, 'c': 6, 'T': 5, 'O': 5, 'B': 9, 'X': 9, 'D': 7, 'N': 8, 'U': 7, 'y': 7, 'e': 7}
FT = 'FGKk'


def tasks(tier):
    quick = tier == 'quick'
    out = []

    def add(name, s, rank, L, N, deep):
        d = (3 if deep else 2) if quick else (5 if len(s) == 1 and not rank else 4 if len(s) < 3 else 3)
        out.append({'kind': 'sub', 'name': name, 's': s, 'rank': rank, 'L': L, 'N': N, 'depth': d})
    four = ['F', 'G', 'k', 'GF', 'GG', 'Kk', 'GGF'] + ([] if quick else ['K', 'GKG', 'KGk'])
    for name in ('RK4', 'ETD', 'ETDRK4'):
        for s in four:
            for rank in (0, 1):
                if rank and len(s) == 1:
                    continue
                for L in ('none', 'lap', 'Dx', 'Dx3', 'all', 'array', 'mats') + (('comp', 'comparray') if rank else ()):
                    for N in ('none', 'lin', 'quad', 'const', 'new'):
                        if quick and N != 'quad' and (L not in ('Dx3', 'comp') or s not in ('F', 'GF')):
                            continue
                        if quick and len(s) > 1 and s != 'GF' and L not in ('all', 'Dx3', 'comp'):
                            continue
                        add(name, s, rank, L, N, s == 'G' and L == 'all')
    imp = ['F', 'G', 'L', 'l', 'y', 'FL', 'GG', 'KC', 'Fl', 'Ll', 'GFL'] + ([] if quick else ['C', 'c', 'GF', 'LL', 'GLF', 'CF', 'Gc', 'GGF', 'LFL', 'U', 'N', 'D'])
    for name in ('IRK3', 'BackwardEuler'):
        for s in imp:
            for rank in (0, 1):
                if rank and (len(s) == 1 or s == 'GLF' or quick and s not in ('FL', 'Fl', 'GG')):
                    continue
                for L in ('none', 'lap', 'all') + (('comp',) if rank else ()):
                    for N in ('none', 'quad', 'const', 'time', 'new'):
                        if quick and L != 'all' and (N != 'quad' or s not in ('L', 'G', 'FL', 'Fl')):
                            continue
                        if quick and N != 'time' and s in ('GFL', 'y', 'KC', 'GG', 'Ll', 'F', 'G'):
                            continue
                        if quick and N in ('none', 'const', 'new') and (rank or s not in ('L', 'FL')):
                            continue
                        add(name, s, rank, L, N, s == 'L' and L == 'all' and N == 'time')
    for name in ('IMEXRK3', 'IMEXRK011', 'IMEXRK111', 'IMEXRK222', 'IMEXRK443'):
        for s in ['F', 'L', 'l', 'FL', 'Fl', 'GF', 'LL', 'GFL'] + ([] if quick else ['C', 'c', 'G', 'y', 'KC', 'LF', 'CK', 'Fc', 'GG', 'GLF', 'N', 'U', 'D']):
            for N in ('expr', 'list', 'func'):
                for solver in (0, 1):
                    if quick and (N, solver) not in ((('expr', 0), ('func', 1), ('list', 0)) if s in ('L', 'FL') else (('expr', 0),)):
                        continue
                    out.append({'kind': 'imex', 'name': name, 's': s, 'N': N, 'solver': solver, 'depth': 2 if quick else 3})
        out.append({'kind': 'imex', 'name': name, 's': 'FB', 'N': 'expr', 'solver': 1, 'depth': 2 if quick else 3, 'bih': 1})
        if not quick:
            out.append({'kind': 'imex', 'name': name, 's': 'XF', 'N': 'func', 'solver': 0, 'depth': 3, 'bih': 1})
    out.append({'kind': 'tableau'})
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['do_' + task['kind']](task, rec)


def space(s, rank=0):
    from shenfun import VectorSpace
    ns = [SZ[c] for c in s]
    if len(s) == 1:
        return tsp.base(s, ns[0])
    T = tsp.space(s, ns)
    return VectorSpace(T) if rank else T


def free(T):
    """Boolean array of the free coefficients that are not the highest Fourier mode of an even number of points."""
    from shenfun import Function
    u = np.zeros(np.shape(Function(T)), dtype=bool)
    comps = [(c, u[i]) for i, c in enumerate(T.spaces)] if hasattr(T, 'spaces') else [(T, u)]
    for c, m in comps:
        bs = c.bases if c.dimensions > 1 else [c]
        sl = []
        for b in bs:
            k = np.zeros(b.shape(True) if np.isscalar(b.shape(True)) else b.shape(True)[0], dtype=bool)
            k[b.slice()] = True
            if b.family() == 'fourier' and b.N % 2 == 0:
                k[b.N // 2] = False
            sl.append(k)
        o = sl[0]
        for k in sl[1:]:
            o = np.multiply.outer(o, k)
        m[...] = o
    return u


class Lin:
    """Affine map on the free coefficients given by assembled matrices: their matrix-vector products with unit vectors."""

    def __init__(self, mats, T, fr, u0):
        from shenfun import Function, BlockMatrix
        if not isinstance(mats, list):
            mats = [mats]
        self.n = n = int(fr.sum())
        if hasattr(T, 'spaces'):
            B = BlockMatrix(mats)
            mv = lambda u, c: B.matvec(u, c)
        else:
            def mv(u, c):
                w = Function(T)
                c[...] = 0
                for m in mats:
                    w[...] = 0
                    w = m.matvec(u, w)
                    c += w
                return c
        self.A = np.zeros((n, n), dtype=u0.dtype)
        w = Function(T)
        for j in range(n):
            e = Function(T)
            x = np.zeros(n, dtype=u0.dtype)
            x[j] = 1
            e[fr] = x
            w[...] = 0
            self.A[:, j] = np.asarray(mv(e, w))[fr]
        e = Function(T)
        e[...] = u0
        e[fr] = 0
        w[...] = 0
        self.c = np.array(np.asarray(mv(e, w))[fr])


def nonlinear(kind, x, ti=0.0):
    """Nonlinear terms are maps on the vector of free coefficients."""
    if kind == 'none':
        return np.zeros_like(x)
    if kind == 'lin':
        return 0.3 * np.roll(x, 1) - 0.2 * x
    if kind in ('quad', 'new'):
        return 0.25 * x * np.roll(x, 1) + 0.1 * np.roll(x, 2)
    if kind == 'const':
        return 0.3 * generic(x.shape, 5, x.dtype.kind == 'c')
    if kind == 'time':
        return np.cos(3 * ti) * x * np.roll(x, 1) + ti
    raise ValueError(kind)


def phi(k, z):
    """phi_k of an array of complex numbers, by Taylor series of a scaled argument and the doubling formulas."""
    z = np.asarray(z, dtype=complex)
    out = np.zeros_like(z)
    for i, v in np.ndenumerate(z):
        out[i] = _phi(k, complex(v))
    return out


def _phi(k, z):
    import mpmath
    if abs(z) < 1:
        return sum(z ** j / math.factorial(j + k) for j in range(30))
    with mpmath.workdps(40):
        z = mpmath.mpc(z)
        r = (mpmath.exp(z) - sum(z ** j / mpmath.factorial(j) for j in range(k))) / z ** k
        return complex(r)


class Ref:
    """Reference integrators on the vector of free coefficients: M x' = A x + a + N(x, t), with boundary terms m, a."""

    def __init__(self, name, M, A, kind, mod):
        self.name, self.M, self.A, self.kind, self.mod = name, M, A, kind, mod
        self.old = None
        if name in ('RK4', 'ETD', 'ETDRK4'):
            self.sym = np.diag(A.A) / np.diag(M.A)

    def reset(self):
        self.old = None

    def N(self, x, t=0.0):
        return nonlinear(self.kind, x, t)

    def steps(self, dt, t0, t1):
        return max(0, math.ceil((t1 - t0) / dt - 1e-6))

    def solve(self, x, dt, t0, t1):
        ev = []
        t = t0
        if self.old is not None and (self.old[1] != t0 or self.old[2] != dt):
            self.old = None
        for i in range(self.steps(dt, t0, t1)):
            x = getattr(self, 's_' + self.name)(x, dt, t)
            t = t + dt
            ev.append((t, i + 1, np.array(x)))
            if self.mod:
                x = 0.9 * x
        if self.old is not None:
            self.old = (self.old[0], t, dt)
        return x, t, ev

    def s_IRK3(self, x, dt, t):
        a, b, c = (8 / 15, 5 / 12, 3 / 4), (0, -17 / 60, -5 / 12), (0, 8 / 15, 2 / 3)
        old = 0
        for k in range(3):
            th = (a[k] + b[k]) * dt / 2
            N = self.N(x, t + c[k] * dt)
            r = (self.M.A + th * self.A.A) @ x + self.M.c + th * self.A.c + dt * (a[k] * N + b[k] * old)
            x = np.linalg.solve(self.M.A - th * self.A.A, r - (self.M.c - th * self.A.c))
            old = N
        return x

    def s_BackwardEuler(self, x, dt, t):
        N = self.N(x, t)
        old = N if self.old is None else self.old[0]
        r = self.M.A @ x + self.M.c + dt * (2 * N - old)
        self.old = (N, None, None)
        return np.linalg.solve(self.M.A - dt * self.A.A, r - (self.M.c - dt * self.A.c))

    def s_RK4(self, x, dt, t):
        f = lambda y: self.sym * y + self.N(y)
        k1 = f(x)
        k2 = f(x + dt / 2 * k1)
        k3 = f(x + dt / 2 * k2)
        k4 = f(x + dt * k3)
        return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)

    def s_ETD(self, x, dt, t):
        z = self.sym * dt
        return np.exp(z) * x + dt * phi(1, z) * self.N(x)

    def s_ETDRK4(self, x, dt, t):
        z = self.sym * dt
        e, e2 = np.exp(z), np.exp(z / 2)
        p = dt / 2 * phi(1, z / 2)
        Nx = self.N(x)
        a = e2 * x + p * Nx
        Na = self.N(a)
        b = e2 * x + p * Na
        Nb = self.N(b)
        c = e2 * a + p * (2 * Nb - Nx)
        Nc = self.N(c)
        p1, p2, p3 = phi(1, z), phi(2, z), phi(3, z)
        return e * x + dt * ((p1 - 3 * p2 + 4 * p3) * Nx + (2 * p2 - 4 * p3) * (Na + Nb) + (4 * p3 - p2) * Nc)


def lin_expr(L, u, rank, dim):
    """The linear operator as an expression of u; second derivatives damp."""
    from shenfun import div, grad, Dx, Expr
    lap = lambda: div(grad(u)) if dim > 1 else Dx(u, 0, 2)
    if L == 'lap':
        return lap()
    if L == 'Dx':
        return Dx(u, 0, 1)
    if L == 'Dx3':
        return -0.1 * Dx(u, 0, 3)
    if L in ('all', 'array', 'mats'):
        return 0.5 * lap() - 0.7 * Dx(u, dim - 1, 1) - 0.3 * Expr(u)
    if L in ('comp', 'comparray'):
        return tuple(0.3 + 0.4 * i for i in range(dim)) * lap()
    raise ValueError(L)


DT = (0.05, 0.08)


def do_sub(task, rec):
    import shenfun
    from shenfun import TrialFunction, TestFunction, inner, Function, Array
    name, s, rank, L, kind, depth = (task[k] for k in ('name', 's', 'rank', 'L', 'N', 'depth'))
    tag = '%s %s r%d L=%s N=%s' % (name, s, rank, L, kind)
    T = space(s, rank)
    dim = len(s)
    fr = free(T)
    cplx = Function(T).dtype.kind == 'c'
    n = int(fr.sum())
    start = Function(T)
    start.set_boundary_dofs()
    start[fr] = 0.8 * generic((n,), 11, cplx)
    inhom = any(c in 'lcyub' for c in s)
    u, v = TrialFunction(T), TestFunction(T)
    M = Lin(inner(v, u), T, fr, np.asarray(start))
    if L == 'none':
        A = Lin.__new__(Lin)
        A.A, A.c, A.n = 0 * M.A, 0 * M.c, M.n
    else:
        A = Lin(inner(v, lin_expr(L, u, rank, dim)), T, fr, np.asarray(start))

    seen = {}

    def LinearRHS(self, uu, **params):
        seen['L'] = dict(params)
        if L == 'mats' and name in ('RK4', 'ETD', 'ETDRK4'):
            return inner(TestFunction(T), lin_expr(L, TrialFunction(T), rank, dim))
        if L in ('array', 'comparray') and name in ('RK4', 'ETD', 'ETDRK4'):
            a = np.zeros(fr.shape, dtype=complex)
            a[fr] = np.diag(A.A) / np.diag(M.A)
            if rank and L == 'array':
                return a[0]
            return a
        return lin_expr(L, uu, rank, dim)

    const = Function(T)
    const[fr] = nonlinear('const', np.zeros(n, dtype=start.dtype))
    const0 = np.array(const)

    def NonlinearRHS(self, uu, u_hat, rhs, **params):
        seen['N'] = dict(params)
        seen['phys'] = uu
        if kind == 'const':
            return const
        out = Function(T) if kind == 'new' else rhs
        out[...] = 0
        out[fr] = nonlinear(kind, np.asarray(u_hat)[fr], params.get('ti', 0.0))
        return out

    events = []

    def make(mod):
        def update(self, uu, u_hat, t, tstep, **params):
            events.append((t, tstep, np.array(u_hat), uu is phys, params.get('kappa')))
            if mod:
                # what a filter would do: everything but the boundary values
                w = np.asarray(u_hat)
                w[fr] *= 0.9
        return getattr(shenfun.utilities.integrators, name)(T, L=None if L == 'none' else LinearRHS, N=None if kind == 'none' else NonlinearRHS,
                                                            update=update, kappa=3)

    phys = Array(T)
    ops = [('go', 1, 0), ('go', 2, 0), ('go', 1, 1), ('back', 2, 0), ('part', 0, 0), ('setup', 0, 1)]
    for mod in (0, 1):
        if mod and (L != 'all' or kind != 'quad'):
            continue
        ref = Ref(name, M, A, kind, mod)
        x0 = np.array(np.asarray(start)[fr])
        key0 = 'c12 %s' % tag
        # all histories: one integrator per history (a history extends its prefix)
        base_scale = 1 + np.abs(x0).max()
        for hist in itertools.product(range(len(ops)), repeat=depth):
            if depth > 2 and hist[0] == 3:
                continue
            try:
                integ = make(mod)
            except Exception as e:
                rec.fail(key0 + ' construct', repr(e)[:300])
                return
            uh = start.copy() if not isinstance(start, np.ndarray) else Function(T, buffer=np.array(start))
            x, t = x0, 0.25
            ref.reset()
            for pos, o in enumerate(hist):
                op, k, di = ops[o]
                dt = DT[di]
                key = '%s %s' % (key0, [ops[i][:3] for i in hist[:pos + 1]])
                events.clear()
                try:
                    if op == 'setup':
                        integ.setup(dt)
                        ref.reset()
                        rec.trans()
                        continue
                    if op == 'back':
                        uh = Function(T, buffer=np.array(start))
                        x, t = x0, 0.25
                    t1 = t + k * dt if op != 'part' else t + 1.4 * dt
                    out = integ.solve(phys, uh, dt, (t, t1))
                except Exception as e:
                    rec.fail(key + ' raises', repr(e)[:300])
                    return
                x, t, ev = ref.solve(x, dt, t, t1)
                rec.trans()
                if not rec.check(out is uh or np.shares_memory(np.asarray(out), np.asarray(uh)) or np.array_equal(out, uh), key + ' in place', ''):
                    return
                uh = out
                ok = rec.close(np.asarray(uh)[fr], x, key + ' state', tol=1e-9, scale=base_scale + np.abs(x).max())
                ok &= rec.check([e[1] for e in events] == [e[1] for e in ev], key + ' callbacks', '%s %s' % ([e[:2] for e in events], [e[:2] for e in ev]))
                for e, r in zip(events, ev):
                    ok &= rec.check(abs(e[0] - r[0]) < 1e-12, key + ' callback time', '%r %r' % (e[0], r[0]))
                    ok &= rec.close(e[2][fr], r[2], key + ' callback state', tol=1e-9, scale=base_scale + np.abs(r[2]).max())
                    ok &= rec.check(e[3] and e[4] == 3, key + ' callback arguments', '')
                if inhom:
                    w = Function(T)
                    w.set_boundary_dofs()
                    m = np.asarray(w) != 0
                    ok &= rec.close(np.asarray(uh)[m], np.asarray(w)[m], key + ' boundary values', tol=1e-10)
                ok &= rec.check(np.array_equal(const, const0), key + ' term of the user changed', '')
                if kind not in ('none', 'const') and ev:
                    ok &= rec.check(seen['N'].get('kappa') == 3 and seen['N'].get('dt') == dt and seen['phys'] is phys, key + ' arguments of N', str(seen.get('N')))
                rec.state(tag, mod, pos, np.round(x, 10).tobytes(), round(t, 10), dt)
                if not ok:
                    return
            rec.trace()
    # the end is reached whatever the size of the step
    for dt, k in ((1e-10, 3), (1e-9, 2), (3e-13, 4), (1e-3, 7), (0.1, 10), (1.0 / 3, 3)):
        integ = make(0)
        events.clear()
        uh = Function(T, buffer=np.array(start))
        key = '%s %d steps of %g' % (key0, k, dt)
        try:
            integ.solve(phys, uh, dt, (0, k * dt))
            integ.solve(phys, uh, 2 * dt, (k * dt, (k + 4) * dt))
        except Exception as e:
            rec.fail(key, repr(e)[:300])
            return
        ref = Ref(name, M, A, kind, 0)
        x, _, e1 = ref.solve(x0, dt, 0, k * dt)
        x, _, e2 = ref.solve(x, 2 * dt, k * dt, (k + 4) * dt)
        rec.trans(2)
        if not (rec.check(len(events) == k + 2, key + ' number of steps', str(len(events))) and np.isfinite(x).all()):
            return
        sc = np.abs(x - x0).max() if dt < 1e-6 else max(1, np.abs(x).max())
        if not rec.close(np.asarray(uh)[fr] - x0, x - x0, key + ' state', tol=1e-9 if dt > 1e-6 else 1e-2, scale=sc):
            return


# ------------------------------------------------------------------ IMEX Runge-Kutta: one instance per equation

G = (2 - math.sqrt(2)) / 2
DL = 1 - 1 / (2 * G)
TAB = {  # implicit, explicit (Ascher, Ruuth, Spiteri); rows are stages, the last is the new solution
    'IMEXRK011': ([[0]], [[1]]),
    'IMEXRK111': ([[1]], [[1]]),
    'IMEXRK222': ([[G, 0], [1 - G, G]], [[G, 0], [DL, 1 - DL]]),
    'IMEXRK443': ([[1 / 2, 0, 0, 0], [1 / 6, 1 / 2, 0, 0], [-1 / 2, 1 / 2, 1 / 2, 0], [3 / 2, -3 / 2, 1 / 2, 1 / 2]],
                  [[1 / 2, 0, 0, 0], [11 / 18, 1 / 18, 0, 0], [5 / 6, -5 / 6, 1 / 2, 0], [1 / 4, 7 / 4, 3 / 4, -7 / 4]]),
}


def imex_ref(name, M, A, x, dt, N):
    if name == 'IMEXRK3':
        a, b = (8 / 15, 5 / 12, 3 / 4), (0, -17 / 60, -5 / 12)
        old = 0
        for k in range(3):
            th = (a[k] + b[k]) * dt / 2
            n = N(x)
            r = (M.A + th * A.A) @ x + M.c + th * A.c + dt * (a[k] * n + b[k] * old)
            x = np.linalg.solve(M.A - th * A.A, r - (M.c - th * A.c))
            old = n
        return x
    a, b = TAB[name]
    m0 = M.A @ x + M.c
    K, L = [], []
    for k in range(len(a)):
        K.append(N(x))
        if k:
            L.append(A.A @ x + A.c)
        r = m0 + dt * sum(b[k][j] * K[j] for j in range(k + 1)) + dt * sum(a[k][j] * L[j] for j in range(k))
        th = dt * a[k][k]
        x = np.linalg.solve(M.A - th * A.A, r - (M.c - th * A.c))
    return x


def do_imex(task, rec):
    import shenfun
    from shenfun import TrialFunction, TestFunction, inner, Function, Array, Dx, div, grad, la, Expr
    name, s, kind, depth = (task[k] for k in ('name', 's', 'N', 'depth'))
    tag = '%s %s N=%s solver=%d bih=%d' % (name, s, kind, task['solver'], task.get('bih', 0))
    T = space(s)
    dim = len(s)
    fr = free(T)
    n = int(fr.sum())
    cplx = Function(T).dtype.kind == 'c'
    start = Function(T)
    start.set_boundary_dofs()
    start[fr] = 0.8 * generic((n,), 11, cplx)
    inhom = any(c in 'lcyub' for c in s)
    lap = (lambda f: div(grad(f))) if dim > 1 else (lambda f: Dx(f, 0, 2))
    bih = task.get('bih', 0)
    U = (lambda f: lap(f)) if bih else (lambda f: Expr(f))
    Lop = lambda e: 0.1 * lap(e)
    v, u = TestFunction(T), TrialFunction(T)
    M = Lin(inner(v, U(u)), T, fr, np.asarray(start))
    A = Lin(inner(v, Lop(U(u))), T, fr, np.asarray(start))
    dt = 0.05
    S = getattr(shenfun.utilities.integrators, name)
    H = Function(T)

    def setH(uh):
        H[...] = 0
        H[fr] = nonlinear('quad', np.asarray(uh)[fr])

    # the explicit term is (v, expression of H); H is recomputed by the user before every stage
    def Nexpr(f):
        if kind == 'list':
            return [Dx(f, dim - 1, 1), -0.5 * Expr(f)]
        if kind == 'func':
            return f
        return Dx(f, dim - 1, 1) - 0.5 * Expr(f)

    def Nref(x):
        w = Function(T)
        w[fr] = nonlinear('quad', x)
        return Nl.A @ np.asarray(w)[fr]
    if kind == 'func':
        Nl = Lin(inner(v, Expr(u)), T, fr, 0 * np.asarray(start))
    else:
        Nl = Lin(inner(v, Dx(u, dim - 1, 1) - 0.5 * Expr(u)), T, fr, 0 * np.asarray(start))
    solver = None
    if task['solver']:
        nd = len([c for c in s if c not in FT])
        solver = la.Solver if dim == 1 else (la.SolverDiagonal, la.SolverGeneric1ND, la.SolverGeneric2ND)[nd]
    key0 = 'c12 ' + tag
    uf = Function(T)

    def make():
        p = S(v, U(uf) if bih else uf, Lop, Nexpr(H), dt, solver=solver, latex=None)
        p.assemble()
        return p

    def step(p):
        for rk in range(p.steps()):
            setH(uf)
            p.compute_rhs(rk)
            p.solve_step(rk)

    x0 = np.array(np.asarray(start)[fr])
    memo = {}

    def ref(path):
        if path not in memo:
            memo[path] = x0 if not path else imex_ref(name, M, A, ref(path[:-1]), path[-1], Nref)
        return memo[path]
    # histories: step; back to the first state; assemble again; assemble with another step; new instance
    for hist in itertools.product(('step', 'back', 'assemble', 'dt', 'new'), repeat=depth):
        if hist[0] in ('back', 'new'):
            continue
        try:
            p = make()
            uf[...] = start
            path = ()
            for pos, op in enumerate(hist + ('step',)):
                key = '%s %s' % (key0, hist[:pos + 1])
                if op == 'step':
                    step(p)
                    path += (p.dt,)
                elif op == 'back':
                    uf[...] = start
                    path = ()
                elif op == 'assemble':
                    p.assemble()
                elif op == 'dt':
                    p.dt = 0.08 if p.dt == 0.05 else 0.05
                    p.assemble()
                else:
                    p = make()
                rec.trans()
                ok = rec.close(np.asarray(uf)[fr], ref(path), key + ' state', tol=1e-8)
                if inhom:
                    w = Function(T)
                    w.set_boundary_dofs()
                    m = np.asarray(w) != 0
                    ok &= rec.close(np.asarray(uf)[m], np.asarray(w)[m], key + ' boundary values', tol=1e-10)
                rec.state(tag, path, pos, op)
                if not ok:
                    return
        except Exception as e:
            import traceback
            rec.fail('%s %s raises' % (key0, hist), repr(e)[:200] + traceback.format_exc()[-700:])
            return
        rec.trace()


def do_tableau(task, rec):
    """Nodes agree with the rows of the tableaux, and the stages with the published ones."""
    import shenfun
    for name in ('IMEXRK011', 'IMEXRK111', 'IMEXRK222', 'IMEXRK443'):
        S = getattr(shenfun.utilities.integrators, name)
        p = S.__new__(S)
        a, b, c = p.stages()
        A, B = TAB[name]
        k = len(A)
        rec.state(name)
        rec.check(S.steps() == k, 'c12 steps ' + name, '')
        rec.close(np.array(a, float)[1:, 1:], np.array(A, float), 'c12 implicit tableau ' + name)
        rec.close(np.array(b, float)[1:, :-1], np.array(B, float), 'c12 explicit tableau ' + name)
        rec.close(np.array(c, float), np.array(b, float).sum(axis=1), 'c12 nodes ' + name)
        if name not in ('IMEXRK011',):
            rec.close(np.array(c, float), np.array(a, float).sum(axis=1), 'c12 implicit nodes ' + name)
        rec.trans(5)
    S = shenfun.utilities.integrators.IMEXRK3
    a, b, c = S.stages(S.__new__(S))
    rec.close(np.array(c, float)[1:], np.cumsum(np.array(a, float) + np.array(b, float)), 'c12 nodes IMEXRK3')
