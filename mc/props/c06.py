"""C06: every linear solver solves its system.

Explicit-state exploration of histories of one solver object.  An event is one call of the solver: a right-hand
side, in place or into a separate output, with one of several constraints or none.  Every history up to the
stated depth is executed on the real solver; after every event the returned solution is put into the system
that was assembled independently (dense 1D matrices, Kronecker structure), with its boundary contributions, and
constrained rows must have the prescribed value.
"""
import copy
import itertools
import warnings
import numpy as np

from mc import spaces as S
from mc.common import generic

META = {'rule': 'A system is assembled from freshly built matrices, independently of the solver. Every event of every enumerated history '
                'is checked by its residual, relative to the size of the terms, and constrained rows by their value.',
        'domain': 'banded solver classes on generic banded matrices (every unit right-hand side, size, axis, real/complex); matrices of every '
                  'family and boundary condition; tensor product solvers with 0-3 non-periodic directions; tailored Helmholtz/biharmonic/Poisson '
                  'solvers; block systems',
        'bounds': {'quick': 'histories of 2 events', 'thorough': 'histories of 3 events, more sizes'}}


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for c in BAND:
        out.append({'kind': 'band', 'cls': c, 'depth': 2 if quick else 3, 'ns': [9, 12] if quick else [9, 10, 11, 12, 13, 16]})
    for f in S.CLASSES:
        if f == 'fourier':
            continue
        if f == 'ultraspherical' and quick:
            continue
        for q in S.QUADS[f][:1 if quick else 2]:
            ns = {'chebyshev': 12, 'legendre': 10, 'chebyshevu': 8}.get(f, 4)
            for i in range(ns):
                out.append({'kind': 'one', 'fam': f, 'quad': q, 'N': 12, 'part': [i, ns], 'depth': 2 if quick else 3, 'quick': quick})
                if not quick:
                    out.append({'kind': 'one', 'fam': f, 'quad': q, 'N': 15, 'part': [i, ns], 'depth': 2})
    for t in TPS:
        out.append({'kind': 'tp', 'sys': t, 'depth': 2 if quick else 3})
    for t in BLOCKS:
        out.append({'kind': 'block', 'sys': t, 'depth': 2 if quick else 3})
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            {'band': band, 'one': one, 'tp': tp, 'block': block}[task['kind']](task, rec)


def fresh(ms):
    """Independent copies of assembled matrices (a solver may modify what it is given)"""
    if ms is None:
        return None
    out = []
    for m in ms:
        c = object.__new__(type(m))
        c.__dict__.update(m.__dict__)
        if hasattr(m, 'mats'):
            c.mats = fresh(m.mats)
            c.scale = copy.deepcopy(m.scale)
            if m._issimplified:
                c.pmat = c.mats[c.naxes[0]] if len(c.naxes) == 1 else c.mats
        else:
            c._storage = {k: np.array(v) if np.ndim(v) else v for k, v in m._storage.items()}
            c._diags = m._diags.copy()
        out.append(c)
    return out


def once(f):
    """f() evaluated once, then copied: the assembled matrices themselves are never handed out"""
    memo = []

    def g():
        if not memo:
            memo.append(f())
        return fresh(memo[0])
    return g


def dense(M):
    return np.asarray(M.diags('csr').todense())


# ---------------------------------------------------------------- banded classes

BAND = {'DiagMA': (0,), 'TDMA': (-2, 0, 2), 'TDMA_O': (-1, 0, 1), 'PDMA': (-4, -2, 0, 2, 4), 'FDMA': (-2, 0, 2, 4), 'TwoDMA': (0, 2),
        'ThreeDMA': (0, 2, 4), 'HeptaDMA': (-4, -2, 0, 2, 4, 6, 8), 'Solve': (-3, -1, 0, 2, 5), 'TDMA_O nonsym': (-1, 0, 1), 'Solve complex': (-1, 0, 2), 'default': (0, 1, 3)}


def constrain(D, b, cons, ax=0):
    D = D.copy()
    b = np.moveaxis(b, ax, 0).copy()
    for row, val in cons:
        D[row] = 0
        D[row, row] = 1
        b[row] = val
    return D, b


def band(task, rec):
    from shenfun import SparseMatrix, la
    for n in task['ns']:
        for var in ('array', 'scaled', 'constant'):
            def mk():
                d = {}
                for k in BAND[task['cls']]:
                    m = n - abs(k)
                    v = generic((m,), abs(k) + 3)
                    if k == 0:
                        v = 6 + v
                    if var == 'constant':
                        v = 7. if k == 0 else 0.5 + 0.1 * abs(k)
                    if task['cls'] == 'Solve complex':
                        v = v * (1 + 0.3j)
                    d[k] = v
                if task['cls'] == 'TDMA_O':
                    d[1] = d[-1]
                A = SparseMatrix(d, (n, n))
                if var == 'scaled':
                    A *= -2.5
                return A
            D = dense(mk())
            cls = getattr(la, task['cls'].split()[0], None)

            def solver():
                A = mk()
                if cls is None:
                    return A.solve
                return cls(A)
            # every unit right-hand side
            for dt in 'dD':
                rec.state(n, var, dt)
                for i in range(n):
                    key = 'band|%s|%s n=%d|unit %d %s' % (task['cls'], var, n, i, dt)
                    b = np.zeros(n, dtype=dt)
                    b[i] = 1 if dt == 'd' else 1 - 0.5j
                    if dt == 'd' and np.iscomplexobj(D):
                        continue
                    u = rec.guard(lambda: solver()(b.copy()), key)
                    if u is not None:
                        rec.trans()
                        rec.close(D @ u, b, key, 1e-11)
            cons = [(), ((0, 1.5),), ((0, -2.),)]
            if task['cls'] in ('Solve', 'Solve complex', 'default'):
                cons += [((2, 0.5),), ((0, 1.), (n - 1, -1.)), ((1, 3.),)]
            for nd, ax, dt in [(1, 0, 'd'), (1, 0, 'D')] + [(d_, a_, t_) for d_ in (2, 3) for a_ in range(d_) for t_ in 'dD']:
                if dt == 'd' and np.iscomplexobj(D):
                    continue
                shp = [3, 2, 4][:nd]
                shp[ax] = n
                evs = [(c, p, r) for c in (cons if nd == 1 or not task['cls'].startswith(('Solve', 'default')) else [()]) for p in (0, 1) for r in (0, 1)]
                if nd > 1:
                    evs = evs[:4] + evs[4::3]
                depth = task['depth'] if nd == 1 and n == task['ns'][0] else 2
                if nd == 3 or n != task['ns'][0]:
                    depth = 1 if depth == 2 else 2
                for path in itertools.product(range(len(evs)), repeat=depth):
                    sol = solver()
                    for step, e in enumerate(path):
                        c, inplace, r = evs[e]
                        b = generic(tuple(shp), 2 + r, dt == 'D').astype(dt)
                        key = 'band|%s|%s n=%d|%dD axis%d %s|%s' % (task['cls'], var, n, nd, ax, dt, '; '.join(str(evs[k]) for k in path[:step + 1]))
                        rec.trans()

                        def go():
                            if inplace:
                                return sol(b.copy(), axis=ax, constraints=c)
                            u = np.full(b.shape, 3., dtype=dt)
                            r_ = sol(b.copy(), u, axis=ax, constraints=c)
                            rec.check(r_ is u or np.shares_memory(r_, u), key + '|output not returned')
                            return u
                        u = rec.guard(go, key)
                        if u is None:
                            break
                        Dc, bc = constrain(D, b, c, ax)
                        if not rec.close(np.tensordot(Dc, np.moveaxis(u, ax, 0), axes=(1, 0)), bc, key, 1e-10):
                            break
                    rec.trace()
    rec.outcome(task['cls'], D)


# ---------------------------------------------------------------- one dimension, all families

def bases(f, q, N, quick=False):
    out = []
    for c in S.CLASSES[f]:
        if c == 'Generic' or (quick and c in ('Phi6', 'Phi3', 'Compact3') and f == 'chebyshev'):
            continue
        for nh in ((0, 1) if c != 'Orthogonal' else (0,)):
            d = {'fam': f, 'cls': c, 'quad': q, 'N': N, **S.ab_list(f)[0]}
            if nh:
                d['vals'] = 1
            if d['N'] <= S.min_n(d):
                continue
            try:
                b = S.make(d)
            except Exception:  # pylint: disable=broad-except
                continue
            if nh and not b.has_nonhomogeneous_bcs:
                continue
            out.append((c + ('+bc' if nh else ''), b))
    return out


def forms1(D):
    from shenfun import inner, TestFunction, TrialFunction, Dx
    v, u = TestFunction(D), TrialFunction(D)
    ls = lambda x: x if isinstance(x, list) else [x]
    yield 'B', lambda: ls(inner(v, u))
    yield 'A', lambda: ls(inner(v, Dx(u, 0, 2)))
    yield 'W', lambda: ls(inner(Dx(v, 0, 1), Dx(u, 0, 1)))
    yield 'H', lambda: ls(inner(v, Dx(u, 0, 2) - 7 * u))
    yield 'C', lambda: ls(inner(v, Dx(u, 0, 1) + 3 * u))
    yield '4', lambda: ls(inner(v, Dx(u, 0, 4) - Dx(u, 0, 2)))
    try:
        tD = D.get_testspace(kind='PG')
    except Exception:  # pylint: disable=broad-except
        return
    vp = TestFunction(tD)
    if tD.dim() == D.dim():
        yield 'PG B', lambda: ls(inner(vp, u))
        yield 'PG A', lambda: ls(inner(vp, Dx(u, 0, 2)))
        yield 'PG H', lambda: ls(inner(vp, Dx(u, 0, 2) - 7 * u))


def total1(ms, D):
    """Dense (rows, columns) operator on the full coefficient vector of a Function of D"""
    A = None
    for m in ms:
        d = dense(m)
        if A is None:
            A = np.zeros((d.shape[0], D.N), dtype=complex if np.iscomplexobj(d) else float)
        sl = m.trialfunction[0].slice()
        A[:, sl] += d
    return A


def one(task, rec):
    from shenfun import Function, la
    from shenfun.chebyshev.la import Helmholtz, Biharmonic
    f, q, N = task['fam'], task['quad'], task['N']
    for nm, D in bases(f, q, N, task.get('quick', False))[task['part'][0]::task['part'][1]]:
        for fn, mkform in forms1(D):
            mkform = once(mkform)
            pre = 'one|%s,%s,%d|%s|%s' % (f, q, N, nm, fn)
            try:
                ms = mkform()
            except NotImplementedError:
                continue          # the family refuses this derivative
            except Exception:  # pylint: disable=broad-except
                ms = rec.guard(mkform, pre + '|assemble')
            if ms is None:
                continue
            A = total1(ms, D)
            sl = D.slice()
            n = sl.stop - sl.start
            A0 = A[:, sl]
            if A0.shape[0] != A0.shape[1]:
                continue
            cons = []
            w = np.abs(A0)
            rs, cs = w.max(1), w.max(0)
            good = np.isfinite(A0).all() and rs.min() > 0 and cs.min() > 0
            if good and np.linalg.cond(A0 / rs[:, None] / (w / rs[:, None]).max(0)) < 1e8:
                cons.append(())
            Dc, _ = constrain(A0, np.zeros(n), ((0, 1),))
            w = np.abs(Dc)
            if np.isfinite(A0).all() and (w.max(0) > 0).all() and (w.max(1) > 0).all() and \
                    np.linalg.cond(Dc / w.max(1)[:, None] / (w / w.max(1)[:, None]).max(0)) < 1e8:
                cons += [((0, 1.5),), ((0, -2.),)]
            if not cons:
                continue
            bcd = Function(D)
            bcd.set_boundary_dofs()
            solvers = {}
            ncb = sum(m.is_bc_matrix() for m in ms)
            solvers['Solver'] = lambda: la.Solver(mkform())
            solvers['Solve'] = lambda: la.Solve(mkform())
            if len(ms) == 1:
                solvers['mat.solve'] = lambda: mkform()[0].solve
                solvers['get_solver'] = lambda: mkform()[0].get_solver()(mkform()[0])
            keys = [m.get_key() for m in ms if not m.is_bc_matrix()]
            if set(keys) in ({'ASDSDmat', 'BSDSDmat'}, {'ASNSNmat', 'BSNSNmat'}) and f == 'chebyshev':
                solvers['Helmholtz'] = lambda: Helmholtz(mkform())
            for sn, mks in solvers.items():
                cn = cons
                if sn == 'Solve':
                    cn = cons + [((2, 0.25),)] if () in cons else cons
                    if n > 4 and () in cons:
                        cn = cn + [((0, 1.), (n - 1, 2.))]
                if sn.startswith('Helm') or (sn == 'mat.solve' and nm == 'Orthogonal' and fn in ('B', 'PG B') and f in ('chebyshev', 'hermite', 'laguerre')):
                    cn = [c for c in cons if c == ()]      # constraints are refused
                isann = False
                try:
                    s0 = mks()
                    if s0 is None:
                        continue
                    isann = type(s0).__name__ == 'ANNSolver' or 'ASNSNmat' in keys and len(keys) == 1
                except AssertionError:
                    continue
                except Exception:  # pylint: disable=broad-except
                    rec.guard(mks, pre + '|' + sn)
                    continue
                if isann and sn != 'Solve':
                    cn = [c for c in cn if c]     # the Poisson solver for Neumann conditions fixes the mean value
                evs = [(c, p, r) for c in cn for p in (0, 1) for r in (0, 1)]
                evs = [e for e in evs if not (e[1] and e[2])]
                depth = task['depth'] if sn in ('Solver', 'Solve') and fn in ('B', 'A', 'PG A') else min(task['depth'], 2)
                if sn == 'mat.solve' and fn not in 'BA':
                    depth = 1
                for path in itertools.product(range(len(evs)), repeat=depth):
                    sol = mks()
                    for step, e in enumerate(path):
                        c, inplace, r = evs[e]
                        key = '%s|%s|%s' % (pre, sn, '; '.join(str(evs[k]) for k in path[:step + 1]))
                        b = Function(D)
                        b.v[:] = generic(b.shape, 3 + r)
                        b.v[D.dim():] = 0
                        b0 = np.asarray(b).copy()
                        rec.trans()

                        def go():
                            kw = {'constraints': c} if c else {}
                            if inplace:
                                x = sol(b, **kw)
                                return b if x is None else x
                            u = Function(D)
                            u.v[:] = 5.
                            x = sol(b, u, **kw)
                            rec.check(x is u, key + '|output not returned')
                            return u
                        if inplace and sn.startswith('Helm'):
                            continue
                        try:
                            u = rec.guard(go, key) if True else None
                        except AssertionError:
                            break
                        if u is None:
                            break
                        u = np.asarray(u)
                        want_bc = np.asarray(bcd)[D.dim():]
                        if ncb and not sn.startswith('Helm'):
                            rec.close(u[D.dim():], want_bc, key + '|boundary dofs', 1e-12)
                        full = A.copy()
                        rhs = b0[:n].copy()
                        for row, val in c:
                            full[row] = 0
                            full[row, row] = 1
                            rhs[row] = val
                        uu = u.copy()
                        if ncb == 0:
                            uu[D.dim():] = 0
                        got = full @ uu
                        sc = np.abs(full) @ np.abs(uu) + np.abs(rhs)
                        if not rec.close(got / sc.max(), rhs / sc.max(), key, 1e-11):
                            break
                    rec.trace()
                rec.state(pre, sn)
    rec.outcome(f, q)


# ---------------------------------------------------------------- tensor products

# name: (bases, equation, solver names)
TPS = []
for _s in ('FL', 'LF', 'GL', 'LG', 'FC', 'CF', 'FGL', 'GLF', 'LGF', 'GFC', 'CGF', 'GCF', 'FU', 'FJ', 'FQ'):
    for _e in ('helm', 'mass', 'poisson'):
        TPS.append([_s, _e, ''])
for _s in ('Fl', 'lG', 'cF', 'Gc', 'GFc', 'lGF'):
    TPS.append([_s, 'helm', 'bc'])
    TPS.append([_s, 'poisson', 'bc'])
for _s in ('Fn', 'nF', 'FN', 'NF', 'GFn', 'nGF', 'NGF', 'GNF', 'GN'):
    TPS.append([_s, 'poisson', 'neumann'])
    TPS.append([_s, 'helm', 'neumann'])
for _s in ('LL', 'CL', 'LC', 'll', 'lc', 'FLL', 'LFC', 'LLF', 'GLL'):
    TPS.append([_s, 'helm', 'two'])
    if _s.lower() == _s:
        TPS.append([_s, 'poisson', 'two'])
for _s in ('LLL', 'lCL'):
    TPS.append([_s, 'helm', 'three'])
for _s in ('nn', 'NN'):
    TPS.append([_s, 'poisson', 'two neumann'])
for _s in ('FB', 'BF', 'GFB', 'GBF', 'BGF', 'Fb', 'FX'):
    TPS.append([_s, 'bihar', ''])
for _s in ('GF', 'GG', 'GGF', 'FG'):
    TPS.append([_s, 'helm', 'fourier'])
    TPS.append([_s, 'poisson', 'fourier'])


def space(s):
    from shenfun import FunctionSpace, TensorProductSpace, comm
    b = []
    for k, c in enumerate(s):
        if c == 'F':
            z = FunctionSpace(4 + k, 'F', dtype='d')
        elif c == 'G':
            z = FunctionSpace(4 + k, 'F', dtype='D')
        elif c == 'n':
            z = FunctionSpace(9 + k, 'L', bc={'left': {'N': 0}, 'right': {'N': 0}})
        elif c == 'N':
            z = FunctionSpace(9 + k, 'C', basis='ShenNeumann')
        elif c == 'B':
            z = FunctionSpace(12 + k, 'C', basis='ShenBiharmonic')
        elif c == 'X':
            z = FunctionSpace(12 + k, 'L', basis='ShenBiharmonic')
        elif c == 'b':
            z = FunctionSpace(12 + k, 'C', basis='ShenBiharmonic', bc=(1, 0, -1, 2))
        elif c.islower():
            z = FunctionSpace(8 + k, c.upper(), bc=(1.5, -0.5))
        elif c == 'J':
            z = FunctionSpace(8 + k, c, bc=(0, 0), alpha=0, beta=0)
        else:
            z = FunctionSpace(8 + k, c, bc=(0, 0))
        b.append(z)
    axes = tuple(k for k, c in enumerate(s) if c not in 'FG')
    axes = axes + tuple(k for k, c in enumerate(s) if c == 'G') + tuple(k for k, c in enumerate(s) if c == 'F')
    if len([c for c in s if c not in 'FG']) == 0:
        axes = tuple(k for k, c in enumerate(s) if c == 'G') + tuple(k for k, c in enumerate(s) if c == 'F')
    dt = {'dtype': 'D'} if 'G' in s and 'F' not in s else {}
    return TensorProductSpace(comm, b, axes=axes, **dt)


def equation(T, e):
    from shenfun import inner, TestFunction, TrialFunction, grad, div, Dx
    v, u = TestFunction(T), TrialFunction(T)
    if e == 'mass':
        m = inner(v, u)
    elif e == 'poisson':
        m = inner(v, div(grad(u)))
    elif e == 'helm':
        m = inner(v, div(grad(u)) - 6 * u)
    elif e == 'bihar':
        m = inner(v, div(grad(div(grad(u)))))
    return m if isinstance(m, list) else [m]


def tp_op(ms, T):
    """[(ops, slices, scale, is bc)] of an independent application of the unsimplified products"""
    out = []
    for m in ms:
        ops = [(dense(q), q.testfunction[0].slice() if hasattr(q, 'testfunction') else slice(0, q.shape[0]),
                q.trialfunction[0].slice() if hasattr(q, 'trialfunction') else slice(0, q.shape[1])) for q in m.mats]
        out.append((ops, np.asarray(m.scale), m.is_bc_matrix()))
    return out


def tp_apply(op, u, mag=False):
    tot = np.zeros(u.shape, dtype=complex)
    for ops, sc, _ in op:
        c = u
        for ax, (M, rs, cs) in enumerate(ops):
            c = np.moveaxis(c, ax, 0)
            t = np.tensordot(np.abs(M) if mag else M, c[cs], axes=(1, 0))
            o = np.zeros((c.shape[0],) + c.shape[1:], dtype=complex)
            o[rs] = t
            c = np.moveaxis(o, 0, ax)
        tot += (np.abs(sc) if mag else sc) * c
    return tot


def tp(task, rec):
    from shenfun import Function, la
    from shenfun.chebyshev.la import Helmholtz, Biharmonic
    s, e, opt = task['sys']
    T = space(s)
    eq = once(lambda: equation(T, e))
    ms = eq()
    op = tp_op(ms, T)
    uh = Function(T)
    dims = tuple(b.slice() for b in T.bases)
    mask = np.zeros(uh.shape)
    mask[dims] = 1
    anybc = any(b.has_nonhomogeneous_bcs for b in T.bases)
    bcd = Function(T)
    bcd.set_boundary_dofs()
    npx = [k for k, c in enumerate(s) if c not in 'FG']
    zero = tuple(0 if c in 'FG' else slice(None) for c in s)
    solvers = {}
    if len(npx) == 0:
        solvers['SolverDiagonal'] = lambda: la.SolverDiagonal(eq())
        solvers['mat.solve'] = lambda: tpsolve(la, eq())
    elif len(npx) == 1:
        solvers['1ND'] = lambda: la.SolverGeneric1ND(eq())
        solvers['1ND slow'] = lambda: partial1(la.SolverGeneric1ND(eq()))
    elif len(npx) == 2:
        solvers['2ND'] = lambda: la.SolverGeneric2ND(eq())
    if len(s) == 2 and 'neumann' not in opt and opt != 'fourier':
        solvers['Solver2D'] = lambda: la.Solver2D(eq())
    if len(s) == 3 and 'neumann' not in opt and opt != 'fourier':
        solvers['Solver3D'] = lambda: la.Solver3D(eq())
    if opt == 'two neumann':
        solvers['Solver2D'] = lambda: la.Solver2D(eq())
    if len(npx) == 1 and s[npx[0]] in 'CcN' and e in ('helm', 'poisson'):
        solvers['Helmholtz'] = lambda: Helmholtz(eq())
    if len(npx) == 1 and s[npx[0]] in 'Bb' and e == 'bihar':
        solvers['Biharmonic'] = lambda: Biharmonic(eq())
    if s == 'LL' and e == 'helm':
        from shenfun.legendre.la import Helmholtz_2dirichlet
    if len(ms) == 1 and len(npx) < 3 and not anybc:
        solvers['TPMatrix.solve'] = lambda: eq()[0].solve
    singular = (opt == 'fourier' and e == 'poisson') or ('neumann' in opt and e == 'poisson')
    cons = [()] if not singular else []
    if opt == 'fourier':
        cons += [((0, 0.),)] if singular else []
    elif len(npx) == 1 and (singular or opt in ('', 'neumann')):
        cons += [((0, 1.25),), ((0, -3.),)]
    elif len(npx) >= 2:
        cons += [((0, 1.25),), ((0, -3.),)]
    for sn, mks in solvers.items():
        cn = cons
        if sn in ('Biharmonic', 'Helmholtz') and opt != 'x':
            cn = [()] if not singular else [((0, 1.25),), ((0, -3.),)]
        if sn in ('Solver3D',) and 'F' in s:
            cn = [()]
        if sn == 'TPMatrix.solve' and len(npx):
            cn = [()]
        if sn in ('1ND', '1ND slow') and opt == '' and e != 'mass':
            cn = cons
        evs = [(c, p, r) for c in cn for p in (0, 1) for r in (0, 1)]
        evs = [x for x in evs if not (x[1] and x[2])]
        depth = task['depth']
        if sn.startswith('Solver') and len(s) == 3:
            depth = 1
        for path in itertools.product(range(len(evs)), repeat=depth):
            pre = 'tp|%s|%s|%s' % (s, e, sn)
            sol = rec.guard(mks, pre + '|construct')
            if sol is None:
                break
            for step, q in enumerate(path):
                c, inplace, r = evs[q]
                if inplace and (sn in ('Helmholtz', 'Biharmonic')):
                    continue
                key = '%s|%s' % (pre, '; '.join(str(evs[k]) for k in path[:step + 1]))
                b = Function(T)
                b.v[...] = generic(b.shape, 3 + r, b.dtype.kind == 'c') * mask
                b0 = np.asarray(b).copy()
                rec.trans()

                def go():
                    kw = {'constraints': c} if c else {}
                    if inplace:
                        x = sol(b, **kw)
                        return x
                    u = Function(T)
                    u.v[...] = 5.
                    x = sol(b, u, **kw)
                    rec.check(x is u, key + '|output not returned')
                    return u
                u = rec.guard(go, key)
                if u is None:
                    break
                u = np.asarray(u)
                if anybc and sn not in ('Helmholtz', 'Biharmonic'):
                    rec.close(u * (1 - mask), np.asarray(bcd) * (1 - mask), key + '|boundary dofs', 1e-12)
                uu = u if anybc else u * mask
                got = tp_apply(op, uu) * mask
                rhs = b0 * mask
                sc = np.abs(tp_apply(op, np.abs(uu), True)) + np.abs(rhs)
                for row, val in c:
                    w = np.zeros(uh.shape)
                    w[zero] = 1
                    if sn in ('Solver2D', 'Solver3D') and len(npx) < len(s):
                        # the row counts all degrees of freedom
                        idx = tuple(0 for _ in s)
                    else:
                        idx = tuple(0 for _ in s)
                    rec.close(u[idx], val, key + '|constrained row', 1e-11)
                    got[idx] = rhs[idx] = val
                scale = sc.max()
                if not rec.close(got / scale, rhs / scale, key, 1e-10):
                    break
            rec.trace()
        rec.state(s, e, sn)
    rec.outcome(s, e)


def partial1(sol):
    return lambda b, u=None, constraints=(): sol(b, u, constraints=constraints, fast=False)


def tpsolve(la, ms):
    from shenfun.matrixbase import get_simplified_tpmatrices
    m = get_simplified_tpmatrices(ms)
    assert len(m) == 1
    return m[0].solve


# ---------------------------------------------------------------- block systems

BLOCKS = [['1d', ''], ['FL', ''], ['LF', ''], ['LL', ''], ['GF', ''], ['GFL', ''], ['LGF', ''], ['FLL', ''], ['1d', 'bc'], ['FL', 'bc'], ['LL', 'bc'], ['GFL', 'bc'],
          ['FL', 'stokes'], ['LL', 'stokes'], ['GF', 'poisson'], ['GGF', 'poisson'], ['GG', 'poisson']]


def bspace(s, opt):
    from shenfun import FunctionSpace, TensorProductSpace, CompositeSpace, MixedFunctionSpace, VectorSpace, comm
    bc = (1.5, -0.5) if opt == 'bc' else (0, 0)
    if s == '1d':
        D = FunctionSpace(9, 'L', bc=bc, domain=(0, 3))
        O = FunctionSpace(9, 'L', domain=(0, 3))
        return MixedFunctionSpace([D, O])
    b, o = [], []
    for k, c in enumerate(s):
        if c in 'FG':
            z = FunctionSpace(4 + k, 'F', dtype={'F': 'd', 'G': 'D'}[c])
            b.append(z)
            o.append(z)
        else:
            z = FunctionSpace(7 + k, 'L', bc=bc)
            y = FunctionSpace(7 + k, 'L')
            if opt == 'stokes':
                y.slice = lambda n=7 + k: slice(0, n - 2)
            b.append(z)
            o.append(y)
    axes = tuple(k for k, c in enumerate(s) if c not in 'FG') + tuple(k for k, c in enumerate(s) if c == 'G') + tuple(k for k, c in enumerate(s) if c == 'F')
    dt = {'dtype': 'D'} if 'G' in s and 'F' not in s else {}
    T = TensorProductSpace(comm, b, axes=axes, **dt)
    O = TensorProductSpace(comm, o, axes=axes, modify_spaces_inplace=opt == 'stokes', **dt)
    if opt == 'stokes':
        return CompositeSpace([VectorSpace(T), O])
    return CompositeSpace([T, O])


def bmats(Q, opt):
    from shenfun import TestFunction, TrialFunction, inner, grad, div, Dx
    u, p = TrialFunction(Q)
    v, q = TestFunction(Q)
    lap = (lambda f: Dx(f, 0, 2)) if Q.dimensions == 1 else lambda f: div(grad(f))
    if opt == 'stokes':
        ms = [inner(v, lap(u)), inner(v, -grad(p)), inner(q, div(u))] if False else [inner(grad(v), -grad(u)), inner(div(v), p), inner(q, div(u))]
    elif opt == 'poisson':
        ms = [inner(v, lap(u)), inner(v, 2 * p), inner(q, lap(p))]
    else:
        ms = [inner(v, lap(u)), inner(v, -3 * u), inner(v, Dx(p, 0, 1)), inner(q, Dx(u, 0, 1)), inner(q, 4 * p)]
    flat = []
    for m in ms:
        flat += m if isinstance(m, list) else [m]
    return flat


def block(task, rec):
    from shenfun import Function, la
    s, opt = task['sys']
    Q = bspace(s, opt)
    bm = once(lambda: bmats(Q, opt))
    ms = bm()
    ops = []
    for m in ms:
        i, j = m.global_index
        if hasattr(m, 'mats'):
            ops.append((i, j, tp_op([m], None)))
        else:
            ops.append((i, j, [([(dense(m), m.testfunction[0].slice(), m.trialfunction[0].slice())], np.asarray(1.), False)]))
    uh = Function(Q)
    mask = np.zeros(uh.shape)
    flat = Q.flatten()
    for k, sp_ in enumerate(flat):
        bs = sp_.bases if hasattr(sp_, 'bases') else [sp_]
        mask[(k,) + tuple(b.slice() for b in bs)] = 1
    anybc = opt == 'bc'
    bcd = Function(Q)
    bcd.set_boundary_dofs()

    def app(u, mag=False):
        out = np.zeros(uh.shape, dtype=complex)
        for i, j, o in ops:
            out[i] += tp_apply(o, u[j], mag)
        return out * mask
    nl = uh.shape[0] - 1
    if opt == 'stokes':
        cons = [((nl, 0, 0.),), ((nl, 0, 2.5),)]
    elif opt == 'poisson':
        cons = [((0, 0, 0.5), (1, 0, -2.)), ((0, 0, 0.), (1, 0, 0.))]
    else:
        cons = [(), ((nl, 0, 1.25),), ((nl, 0, -3.),), ((0, 0, 1.), (nl, 1, 2.))]
        if 'L' not in s and s != '1d':
            cons = cons[:3]
    evs = [(c, r) for c in cons for r in (0, 1)]
    for mk in ('BlockMatrixSolver', 'BlockMatrix.solve'):
        if mk == 'BlockMatrix.solve' and anybc:
            pass
        for path in itertools.product(range(len(evs)), repeat=task['depth'] if len(s) < 3 else 2):
            pre = 'block|%s|%s|%s' % (s, opt, mk)

            def make():
                if mk == 'BlockMatrixSolver':
                    return la.BlockMatrixSolver(bm())
                from shenfun import BlockMatrix
                return BlockMatrix(bm()).solve
            sol = rec.guard(make, pre + '|construct')
            if sol is None:
                break
            for step, q in enumerate(path):
                c, r = evs[q]
                key = '%s|%s' % (pre, '; '.join(str(evs[k]) for k in path[:step + 1]))
                b = Function(Q)
                b.v[...] = generic(b.shape, 3 + r, b.dtype.kind == 'c') * mask
                b0 = np.asarray(b).copy()
                rec.trans()

                def go():
                    u = Function(Q)
                    u.v[...] = 0
                    x = sol(b, u, constraints=c)
                    return np.asarray(x)
                u = rec.guard(go, key)
                if u is None:
                    break
                if anybc:
                    rec.close(u * (1 - mask), np.asarray(bcd) * (1 - mask), key + '|boundary dofs', 1e-12)
                uu = u if anybc else u * mask
                got = app(uu)
                rhs = b0 * mask
                sc = np.abs(app(np.abs(uu), True)) + np.abs(rhs)
                for k, row, val in c:
                    idx = (k,) + tuple(0 for _ in range(uh.ndim - 1))
                    if row:
                        sp_ = flat[k]
                        bs = sp_.bases if hasattr(sp_, 'bases') else [sp_]
                        npx = [a for a, z in enumerate(bs) if z.family() != 'fourier']
                        if not npx:
                            continue
                        idx = list(idx)
                        idx[1 + npx[-1]] = row
                        idx = tuple(idx)
                    rec.close(u[idx], val, key + '|constrained row', 1e-10)
                    got[idx] = rhs[idx] = val
                if not rec.close(got / sc.max(), rhs / sc.max(), key, 1e-10):
                    break
            rec.trace()
        rec.state(s, opt, mk)
    rec.outcome(s, opt)
