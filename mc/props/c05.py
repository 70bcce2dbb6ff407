"""C05: matrix objects obey linear algebra in any sequence of operations.

Explicit-state exploration: a pool of live matrix objects, an alphabet of operations, every sequence up to
a depth. A dense (numpy) shadow of every object is advanced with each operation and every live object is
compared with its shadow after each one, through diags, matvec in all formats, and solve.
Plus: every matvec specialisation against the dense product for all unit vectors, axes and formats.
"""
import itertools
import warnings
import numpy as np
from mc import spaces as S
from mc.common import generic

META = {
    'bounds': 'SparseMatrix: 11 pools of two matrices, 32 operations, all sequences of depth 2 (thorough 3; states deduplicated by raw contents); '
              'TPMatrix: 7 space combinations, 17 operations, depth 3; BlockMatrix: 5 systems, 11 operations, depth 3 (thorough 4); '
              'matvec: every registered matrix class x formats x axes x 1-3 dimensions x real/complex x scale states x all unit vectors',
    'rule': 'state = raw contents of all live objects (diagonals, scales, whether a solver is cached); transition = one operation followed by comparison of every object',
    'assumptions': ['numpy dense arithmetic as reference; matrices have condition numbers below 1e4'],
}

POOLS = ['scalar', 'arrays', 'int', 'scaled', 'zero', 'complex', 'tdma', 'rect', 'spectral', 'keyscale', 'identity', 'disjoint', 'pdma', 'upper']
TP = ['FL', 'LF', 'LL', 'GF', 'GFL', 'FLL', 'GD']
BLOCK = ['1d', 'FL', 'LL', 'GF', 'GFL']


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for p in POOLS:
        if quick:
            out.append({'kind': 'sparse', 'pool': p, 'depth': 2, 'first': None})
        else:
            for k in range(len(OPS)):
                out.append({'kind': 'sparse', 'pool': p, 'depth': 4 if p in ('scalar', 'tdma') else 3, 'first': k})
    for s in TP:
        out.append({'kind': 'tp', 'space': s, 'depth': 2 if quick and s != 'FL' else 3})
    for s in BLOCK:
        out.append({'kind': 'block', 'space': s, 'depth': 2 if quick else 3})
    for f in S.CLASSES:
        for q in S.QUADS[f]:
            for N in ((9,) if quick else (6, 7, 8, 9, 12, 13)):
                ns = 6 if f == 'chebyshev' else 2 if f in ('ultraspherical', 'chebyshevu', 'legendre') else 1
                for i in range(ns):
                    out.append({'kind': 'matvec', 'fam': f, 'quad': q, 'N': N + (QI(f, q) if quick else 0), 'part': [i, ns]})
    return out


def QI(f, q):
    return S.QUADS[f].index(q)


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            {'sparse': sparse, 'tp': tp, 'block': block, 'matvec': matvec}[task['kind']](task, rec)


# ------------------------------------------------------------------ SparseMatrix

def build(pool):
    from shenfun import SparseMatrix, FunctionSpace, TestFunction, TrialFunction, inner, Dx
    from shenfun.matrixbase import Identity
    n = 6
    r = lambda k, m: generic((m,), k)
    if pool == 'scalar':
        A = SparseMatrix({-1: 1, 0: 4., 1: 1}, (n, n))
        B = SparseMatrix({0: -5., 2: 1.}, (n, n))
    elif pool == 'arrays':
        A = SparseMatrix({-1: r(1, n - 1), 0: 4 + r(2, n), 1: r(3, n - 1)}, (n, n))
        B = SparseMatrix({1: r(4, n - 1), 0: 5 + r(5, n), -2: r(6, n - 2)}, (n, n))
    elif pool == 'int':
        A = SparseMatrix({0: np.arange(3, 3 + n), 1: np.ones(n - 1, dtype=int)}, (n, n))
        B = SparseMatrix({0: np.array([7] * n), -1: np.arange(1, n)}, (n, n))
    elif pool == 'scaled':
        A = SparseMatrix({-1: r(1, n - 1), 0: 4 + r(2, n)}, (n, n), scale=2.)
        B = SparseMatrix({0: 5 + r(5, n), 1: r(6, n - 1)}, (n, n), scale=-0.5)
    elif pool == 'zero':
        A = SparseMatrix({-1: r(1, n - 1), 0: 4 + r(2, n)}, (n, n), scale=0)
        B = SparseMatrix({0: 5 + r(5, n), 1: r(6, n - 1)}, (n, n), scale=1.5)
    elif pool == 'complex':
        A = SparseMatrix({-1: r(1, n - 1) * 1j, 0: 4 + 1j * r(2, n)}, (n, n))
        B = SparseMatrix({0: 5 + r(5, n) * 1j, 1: 1j}, (n, n), scale=2)
    elif pool == 'tdma':
        A = SparseMatrix({-2: -1., 0: 4 + r(2, n), 2: r(1, n - 2)}, (n, n))
        B = SparseMatrix({-2: r(3, n - 2), 0: 5 + r(5, n), 2: 1.}, (n, n), scale=3.)
    elif pool == 'rect':
        A = SparseMatrix({-2: r(1, n - 2), 0: 4 + r(2, n), 1: r(3, n), 3: r(4, n - 1)}, (n, n + 2))
        B = SparseMatrix({0: 3 + r(5, n), 2: r(4, n)}, (n, n + 2), scale=2.)
    elif pool == 'spectral':
        D = FunctionSpace(n + 2, 'L', bc=(0, 0), domain=(0, 3))
        u, v = TrialFunction(D), TestFunction(D)
        A = inner(v, u)
        B = inner(v, -Dx(u, 0, 2))
    elif pool == 'keyscale':
        D = FunctionSpace(n + 2, 'C', bc=(0, 0))
        u, v = TrialFunction(D), TestFunction(D)
        A = inner(v, -2 * Dx(u, 0, 2))
        B = inner(v, u)
    elif pool == 'identity':
        A = Identity((n, n))
        B = SparseMatrix({0: 3 + r(5, n), 1: r(6, n - 1)}, (n, n))
    elif pool == 'disjoint':
        A = SparseMatrix({0: 4 + r(2, n)}, (n, n))
        B = SparseMatrix({0: 2., -1: r(3, n - 1), 4: r(1, n - 4)}, (n, n))
    elif pool == 'pdma':
        A = SparseMatrix({-4: r(1, n - 4), -2: r(3, n - 2), 0: 6 + r(2, n), 2: r(4, n - 2), 4: r(5, n - 4)}, (n, n))
        B = SparseMatrix({-2: r(3, n - 2), 0: 5 + r(5, n), 2: 1., 4: r(6, n - 4)}, (n, n))
    elif pool == 'upper':
        A = SparseMatrix({0: 5 + r(2, n), 2: r(4, n - 2), 4: r(5, n - 4)}, (n, n))
        B = SparseMatrix({0: 5 + r(5, n), 2: 1.}, (n, n))
    return {'A': A, 'B': B}


def dense(M):
    return np.asarray(M.diags('csr').todense())


def _new(pool, shadow, name, obj, val):
    pool[name] = obj
    shadow[name] = val


def op_imul(x, f):
    def op(p, s):
        q = p[x]
        q *= f
        p[x] = q
        s[x] = s[x] * f
    return op


def op_inplace(x, y, sign):
    def op(p, s):
        a = p[x]
        if sign > 0:
            a += p[y]
        else:
            a -= p[y]
        p[x] = a
        s[x] = s[x] + sign * s[y]
    return op


def op_bin(x, y, sign, z='C'):
    def op(p, s):
        _new(p, s, z, p[x] + p[y] if sign > 0 else p[x] - p[y], s[x] + sign * s[y])
    return op


def op_un(x, f, g, z):
    def op(p, s):
        _new(p, s, z, f(p[x]), g(s[x]))
    return op


def op_do(x, f):
    def op(p, s):
        f(p[x])
    return op


def op_set(x):
    def op(p, s):
        if p[x].__class__.__name__ == 'Identity' or 0 not in p[x] or abs(np.atleast_1d(p[x].scale)[0]) < 1e-12:
            return
        n = min(s[x].shape)
        old = np.array(np.broadcast_to(p[x][0], (n,)))
        p[x][0] = old + 1.
        s[x] = s[x] + np.eye(*s[x].shape) * p[x].scale
    return op


def op_scale(x):
    def op(p, s):
        if abs(np.atleast_1d(p[x].scale)[0]) < 1e-12:
            return
        s[x] = s[x] / p[x].scale * 1.75
        p[x].scale = 1.75
    return op


def op_solve(x):
    def op(p, s, rec=None, key=''):
        M = s[x]
        if M.shape[0] != M.shape[1] or np.linalg.cond(M) > 1e6:
            return
        b = generic((M.shape[0],), 3, M.dtype.kind == 'c')
        if p[x].__class__.__name__.endswith('mat') or hasattr(p[x], 'testfunction'):
            bb = np.zeros(p[x].testfunction[0].N, dtype=b.dtype)
            bb[:len(b)] = b
        else:
            bb = b.copy()
        u = p[x].solve(bb.copy())
        rec.close(u[:len(b)], np.linalg.solve(M, b), key + '|solve', 1e-9)
        u2 = np.zeros_like(bb)
        b1 = bb.copy()
        u2 = p[x].solve(b1, u2)
        rec.close(u2[:len(b)], np.linalg.solve(M, b), key + '|solve-into', 1e-9)
        rec.close(b1, bb, key + '|solve-into modifies b', 1e-14)
    op.needs_rec = True
    return op


def op_prod(x, y):
    def op(p, s, rec=None, key=''):
        if s[x].shape[1] == s[y].shape[0]:
            rec.close(np.asarray((p[x] * p[y]).todense()), s[x] @ s[y], key + '|product', 1e-10)
    op.needs_rec = True
    return op


def op_eq(x, y):
    def op(p, s, rec=None, key=''):
        e = p[x] == p[y]
        if x == y:
            rec.check(e, key + '|not equal to itself', '')
    op.needs_rec = True
    return op


OPS = [
    ('A*=2', op_imul('A', 2)), ('A*=-0.5', op_imul('A', -0.5)), ('B*=3', op_imul('B', 3)),
    ('A+=B', op_inplace('A', 'B', 1)), ('A-=B', op_inplace('A', 'B', -1)), ('B+=A', op_inplace('B', 'A', 1)), ('A+=A', op_inplace('A', 'A', 1)),
    ('C=A+B', op_bin('A', 'B', 1)), ('C=A-B', op_bin('A', 'B', -1)), ('C=B-A', op_bin('B', 'A', -1)), ('C=A+A', op_bin('A', 'A', 1)),
    ('A=A+B', op_bin('A', 'B', 1, 'A')), ('A=B-A', op_bin('B', 'A', -1, 'A')), ('A-=A', op_inplace('A', 'A', -1)),
    ('C=-A', op_un('A', lambda a: -a, lambda a: -a, 'C')), ('A=-A', op_un('A', lambda a: -a, lambda a: -a, 'A')),
    ('C=2*A', op_un('A', lambda a: 2 * a, lambda a: 2 * a, 'C')), ('C=A/4', op_un('A', lambda a: a / 4, lambda a: a / 4, 'C')),
    ('C=A.copy()', op_un('A', lambda a: a.copy(), lambda a: a, 'C')), ('C=copy(A)', op_un('A', lambda a: a.__copy__(), lambda a: a, 'C')),
    ('A=A*0.', op_un('A', lambda a: a * 0, lambda a: a * 0, 'A')),
    ('C*=2', op_imul('C', 2)), ('C+=B', op_inplace('C', 'B', 1)), ('B=C', None),
    ('A.incorporate_scale', op_do('A', lambda a: a.incorporate_scale())), ('A.clean_diagonals', op_do('A', lambda a: a.clean_diagonals())),
    ('A.simplify_diagonal_matrices', op_do('A', lambda a: a.simplify_diagonal_matrices() if all(np.size(x) == 1 for x in a.values()) else None)), ('A.diags', op_do('A', lambda a: a.diags('csc').toarray().fill(7))),
    ('A[0]+=1', op_set('A')), ('A.scale=1.75', op_scale('A')),
    ('A.solve', op_solve('A')), ('B.solve', op_solve('B')), ('C.solve', op_solve('C')),
    ('A@B', op_prod('A', 'B')), ('A==B', op_eq('A', 'B')), ('A==A', op_eq('A', 'A')),
    ('A.inspect', op_do('A', lambda a: (a.isdiagonal(), a.isidentity(), a.issymmetric, a.get_key(), hash(a), a.sorted_keys(), a.is_bc_matrix(), a.get_solver()))),
]


def op_rename(p, s):
    p['B'] = p.pop('C')
    s['B'] = s.pop('C')


OPS[[k for k, _ in OPS].index('B=C')] = ('B=C', op_rename)


def needs(name):
    return 'C' in name.split('=')[-1] or name.startswith('C.') or name.startswith('C*') or name.startswith('C+')


def raw(pool):
    out = []
    for k in sorted(pool):
        a = pool[k]
        out.append((k, type(a).__name__, [(int(i), np.round(np.atleast_1d(np.array(a[i], dtype=complex)), 9).tolist()) for i in sorted(a)],
                    str(np.round(complex(np.atleast_1d(a.scale)[0]), 9)), a.solver is not None if hasattr(a, 'solver') else None,
                    sorted((k2, id(v)) for k2, v in ()),
                    [k2 for k2 in pool if pool[k2] is a]))
    return out


def check_pool(pool, shadow, rec, key, deep=True):
    for k in sorted(pool):
        a = pool[k]
        d = dense(a)
        if not rec.close(d, shadow[k], key + '|%s value' % k, 1e-10):
            return False
        if deep:
            M = shadow[k]
            isp = hasattr(a, 'testfunction')
            nv = a.trialfunction[0].N if isp else max(M.shape)
            v = generic((nv,), 1, M.dtype.kind == 'c')
            for fmt in (None, 'python', 'csr', 'dia'):
                c = np.full_like(v, 7.)
                c = a.matvec(v.copy(), c, format=fmt)
                if not rec.close(c[:M.shape[0]], M @ v[:M.shape[1]], key + '|%s matvec %s' % (k, fmt), 1e-10):
                    return False
    return True


def sparse(task, rec):
    p0 = task['pool']
    first = [task['first']] if task['first'] is not None else range(len(OPS))
    seen = set()
    frontier = [[k] for k in first]
    depth = 1
    while frontier and depth <= task['depth']:
        nxt = []
        for path in frontier:
            pool = build(p0)
            shadow = {k: dense(pool[k]) for k in pool}
            names = '; '.join(OPS[k][0] for k in path)
            key = 'sparse|%s|%s' % (p0, names)
            ok = True
            valid = True
            for j, k in enumerate(path):
                nm, op = OPS[k]
                if needs(nm) and 'C' not in pool:
                    valid = False
                    break
                last = j == len(path) - 1
                try:
                    if getattr(op, 'needs_rec', False):
                        op(pool, shadow, rec, key)
                    else:
                        op(pool, shadow)
                except Exception as e:  # pylint: disable=broad-except
                    if last:
                        rec.guard(lambda: (_ for _ in ()).throw(e), key)
                    ok = False
                    break
                rec.trans()
            if not valid or not ok:
                continue
            n = len(rec.violations)
            r = rec.guard(lambda: (check_pool(pool, shadow, rec, key), True), key + '|check')
            if r is None or len(rec.violations) > n:
                continue
            # a final solve of everything: stale solvers show here
            for k in sorted(pool):
                rec.guard(lambda k=k: op_solve(k)(pool, shadow, rec, key + '|final ' + k), key + '|final ' + k)
            if len(rec.violations) > n:
                continue
            rec.trace()
            st = raw(pool)
            if rec.state(p0, st) or depth == 1:
                for k in range(len(OPS)):
                    nxt.append(path + [k])
        frontier = nxt
        depth += 1
    rec.outcome(p0, len(rec.states))


# ------------------------------------------------------------------ TPMatrix

def space_nd(s, dtype=None):
    from shenfun import FunctionSpace, TensorProductSpace, comm
    b = []
    for k, c in enumerate(s):
        if c == 'F':
            b.append(FunctionSpace(4 + k, 'F', dtype='d'))
        elif c == 'G':
            b.append(FunctionSpace(4 + k, 'F', dtype='D'))
        elif c == 'L':
            b.append(FunctionSpace(6 + k, 'L', bc=(0, 0), domain=(-1, 2)))
        elif c == 'C':
            b.append(FunctionSpace(6 + k, 'C', bc=(0, 0)))
        elif c == 'O':
            b.append(FunctionSpace(5 + k, 'L'))
        elif c == 'D':
            b.append(FunctionSpace(6 + k, 'L', bc=(0, 0), domain=(-1, 2)))
    axes = tuple(k for k, c in enumerate(s) if c not in 'FG')
    axes = axes + tuple(k for k, c in enumerate(s) if c == 'G') + tuple(k for k, c in enumerate(s) if c == 'F')
    dt = {'dtype': 'D'} if 'G' in s and 'F' not in s else {}
    return TensorProductSpace(comm, b, axes=axes, **dt)


def tpmats(T, which):
    from shenfun import inner, TestFunction, TrialFunction, grad, div, Dx
    u, v = TrialFunction(T), TestFunction(T)
    if which == 0:
        A = inner(v, div(grad(u)))
    elif which == 1:
        A = inner(v, u * 1)
    else:
        A = inner(v, Dx(u, 0, 1))
    return A if isinstance(A, list) else [A]


def kron_dense(m):
    """Dense operator of a TPMatrix on full coefficient arrays, from its 1D matrices (as they are before simplification)."""
    ops = []
    for mat in m.mats:
        d = dense(mat) if not np.ndim(mat.scale) else dense(mat)
        ops.append(d)
    return ops


def apply_kron(ops, scale, v):
    c = v
    for ax, M in enumerate(ops):
        c = np.moveaxis(c, ax, 0)
        out = np.zeros((c.shape[0],) + c.shape[1:], dtype=complex)
        t = np.tensordot(M, c[:M.shape[1]], axes=(1, 0))
        out[:M.shape[0]] = t
        c = np.moveaxis(out, 0, ax)
    return c * scale


TPOPS = ['P*=2', 'P=P*3', 'P=2*P', 'P=-P', 'P=P/4', 'P+=Q', 'P-=Q', 'P=P+Q', 'P=Q-P', 'Q=P.copy()', 'Q=copy(P)', 'P.matvec', 'P.solve', 'S=P.get_simplified', 'P.simplify',
         'Q*=-1', 'P==Q', 'Q=P*1.5']


def tp(task, rec):
    from copy import copy
    from shenfun import Function
    s = task['space']
    T = space_nd(s)
    uh = Function(T)
    v = np.zeros(uh.shape, dtype=uh.dtype)
    v[:] = generic(uh.shape, 5, uh.dtype.kind == 'c')
    # only genuine degrees of freedom
    sl = tuple(b.slice() for b in T.bases)
    mask = np.zeros(uh.shape)
    mask[sl] = 1
    v *= mask

    def fresh(which, i):
        ms = tpmats(T, which)
        m = ms[i]
        return m
    n0 = [len(tpmats(T, w)) for w in (0, 1, 2)]
    base = []
    for w in (0, 1, 2):
        for i in range(n0[w]):
            base.append((w, i))
    for w, i in base:
        m0 = fresh(w, i)
        ops = rec.guard(lambda: kron_dense(m0), 'tp|%s|%d.%d|dense' % (s, w, i))
        if ops is None:
            continue
        ref = np.ascontiguousarray(apply_kron(ops, float(np.atleast_1d(m0.scale).ravel()[0]) if np.size(m0.scale) == 1 else m0.scale, v))
        depth = task['depth'] if (w, i) == base[0] else min(task['depth'], 2)
        inv_ok = w == 0 and 'F' not in s and 'G' not in s or w == 1
        seen = set()
        frontier = [[k] for k in TPOPS]
        d = 1
        while frontier and d <= depth:
            nxt = []
            for path in frontier:
                key = 'tp|%s|%d.%d|%s' % (s, w, i, '; '.join(path))
                def go():
                    P = fresh(w, i)
                    Q = fresh(w, i)
                    Q *= 2.5
                    pool = {'P': (P, 1.), 'Q': (Q, 2.5)}
                    for nm in path:
                        P, a = pool['P']
                        Q, b = pool['Q']
                        if nm in ('P+=Q', 'P-=Q', 'P=P+Q', 'P=Q-P'):
                            # copies and simplified products have lost the classes of their matrices, and
                            # the library refuses (asserts) to add such products to unsimplified originals
                            try:
                                P + Q
                                Q - P
                            except AssertionError:
                                return None
                        if nm == 'P*=2':
                            P *= 2
                            pool['P'] = (P, a * 2)
                        elif nm == 'P=P*3':
                            pool['P'] = (P * 3, a * 3)
                        elif nm == 'P=2*P':
                            pool['P'] = (2 * P, a * 2)
                        elif nm == 'P=-P':
                            pool['P'] = (-P, -a)
                        elif nm == 'P=P/4':
                            pool['P'] = (P.__div__(4), a / 4)
                        elif nm == 'P+=Q':
                            P += Q
                            pool['P'] = (P, a + b)
                        elif nm == 'P-=Q':
                            P -= Q
                            pool['P'] = (P, a - b)
                        elif nm == 'P=P+Q':
                            pool['R'] = pool['P']
                            pool['P'] = (P + Q, a + b)
                        elif nm == 'P=Q-P':
                            pool['R'] = pool['P']
                            pool['P'] = (Q - P, b - a)
                        elif nm == 'Q=P.copy()':
                            pool['Q'] = (P.copy(), a)
                        elif nm == 'Q=copy(P)':
                            pool['Q'] = (copy(P), a)
                        elif nm == 'Q=P*1.5':
                            pool['Q'] = (P * 1.5, a * 1.5)
                        elif nm == 'Q*=-1':
                            Q *= -1
                            pool['Q'] = (Q, -b)
                        elif nm == 'P.matvec':
                            P.matvec(v.copy(), np.zeros_like(v))
                        elif nm == 'S=P.get_simplified':
                            S = P.get_simplified()
                            if S is not P:
                                pool['S'] = (S, a)
                        elif nm == 'P.simplify':
                            P.simplify_diagonal_matrices()
                        elif nm == 'P==Q':
                            rec.check(P == P, key + '|not equal to itself')
                            P == Q
                        elif nm == 'P.solve':
                            if inv_ok and abs(a) > 1e-12:
                                rhs = ref * a
                                x = P.solve(np.array(rhs, dtype=v.dtype), np.zeros_like(v))
                                rec.close(np.asarray(x) * mask, v, key + '|solve', 1e-8)
                                x = P.solve(np.array(rhs, dtype=v.dtype))
                                rec.close(np.asarray(x) * mask, v, key + '|solve inplace', 1e-8)
                        rec.trans()
                    for k in sorted(pool):
                        m, a = pool[k]
                        c = Function(T)
                        c.v[...] = 7
                        vv = Function(T, buffer=v.copy())
                        c = m.matvec(vv, c)
                        rec.close(np.asarray(c) * mask, ref * mask * a, key + '|%s matvec' % k, 1e-9, scale=np.abs(ref).max() * max(1, abs(a)))
                        rec.close(np.asarray(vv), v, key + '|%s matvec changes v' % k, 1e-14)
                    return [(k, m._issimplified, [(type(q).__name__, float(np.atleast_1d(np.abs(q.scale)).ravel()[0])) for q in m.mats],
                             np.round(np.abs(np.atleast_1d(m.scale)).ravel()[:6], 8).tolist(), a, [k2 for k2 in pool if pool[k2][0] is m],
                             [k2 for k2 in pool if pool[k2][0].mats is m.mats]) for k, (m, a) in sorted(pool.items())]
                n = len(rec.violations)
                st = rec.guard(go, key)
                if st is None or len(rec.violations) > n:
                    continue
                rec.trace()
                if rec.state(s, w, i, st):
                    nxt += [path + [k] for k in TPOPS]
            frontier = nxt
            d += 1
    rec.outcome(s, ref)


# ------------------------------------------------------------------ BlockMatrix

def system(s):
    """(composite space, list of matrices from a Stokes-like system, constraint)"""
    from shenfun import FunctionSpace, TensorProductSpace, CompositeSpace, MixedFunctionSpace, TestFunction, TrialFunction, inner, grad, div, Dx, comm
    if s == '1d':
        D = FunctionSpace(8, 'L', bc=(0, 0), domain=(0, 3))
        O = FunctionSpace(8, 'L', domain=(0, 3))
        Q = MixedFunctionSpace([D, O])
        u, p = TrialFunction(Q)
        v, q = TestFunction(Q)
        ms = [inner(v, Dx(u, 0, 2)), inner(v, 2 * u), inner(v, Dx(p, 0, 1)), inner(q, Dx(u, 0, 1)), inner(q, 3 * p)]
    else:
        b = []
        o = []
        for k, c in enumerate(s):
            if c in 'FG':
                z = FunctionSpace(4 + k, 'F', dtype={'F': 'd', 'G': 'D'}[c])
                b.append(z)
                o.append(z)
            else:
                b.append(FunctionSpace(6 + k, 'L', bc=(0, 0)))
                o.append(FunctionSpace(6 + k, 'L'))
        axes = tuple(k for k, c in enumerate(s) if c not in 'FG') + tuple(k for k, c in enumerate(s) if c == 'G') + tuple(k for k, c in enumerate(s) if c == 'F')
        dt = {'dtype': 'D'} if 'G' in s and 'F' not in s else {}
        T = TensorProductSpace(comm, b, axes=axes, **dt)
        O = TensorProductSpace(comm, [x.get_unplanned() if 0 else x for x in o], axes=axes, **dt) if any(c == 'L' for c in s) else T
        Q = CompositeSpace([T, O])
        u, p = TrialFunction(Q)
        v, q = TestFunction(Q)
        ms = [inner(v, div(grad(u))), inner(v, 2 * u), inner(v, Dx(p, 0, 1)), inner(q, Dx(u, 0, 1)), inner(q, 3 * p)]
    flat = []
    for m in ms:
        flat += m if isinstance(m, list) else [m]
    return Q, flat


BOPS = ['M.matvec', 'M.matvec scipy', 'M.diags', 'M.assemble', 'N=M+M', 'N=M+K', 'M+=K', 'M+=list', 'K=BlockMatrix(mats)', 'mats*2', 'M.solve', 'M.get_mats', 'M=BlockMatrix(M.get_mats)']


def block(task, rec):
    from shenfun import BlockMatrix, Function
    s = task['space']
    Q, m0 = system(s)
    uh = Function(Q)
    v = generic(uh.shape, 6, uh.dtype.kind == 'c').astype(uh.dtype)
    mask = np.zeros(uh.shape)
    for k, sp_ in enumerate(Q.flatten()):
        bs = sp_.bases if hasattr(sp_, 'bases') else [sp_]
        mask[(k,) + tuple(b.slice() for b in bs)] = 1
    v = v * mask

    def ref_of(m):
        c = np.zeros(uh.shape, dtype=complex)
        i, j = m.global_index
        if hasattr(m, 'mats'):
            sc = m.scale if np.size(m.scale) > 1 else complex(np.atleast_1d(m.scale).ravel()[0])
            c[i] = apply_kron(kron_dense(m), sc, v[j])
        else:
            c[i] = apply_kron([dense(m)], 1., v[j])
        return c * mask
    refs = [ref_of(m) for m in m0]
    tot = sum(refs)
    lastk = refs[-1]
    frontier = [[k] for k in BOPS]
    d = 1
    while frontier and d <= task['depth']:
        nxt = []
        for path in frontier:
            key = 'block|%s|%s' % (s, '; '.join(path))
            if s == '1d' and 'mats*2' in path:
                continue      # products of 1D matrices carry no block index

            def go():
                Q1, mats = Q, system_mats(Q)
                M = BlockMatrix(mats)
                K = BlockMatrix([system_mats(Q)[-1]])
                pool = {'M': (M, tot), 'K': (K, lastk)}
                mval = 1.
                for nm in path:
                    M, mv = pool['M']
                    K, kv = pool['K']
                    if nm.startswith('M.matvec'):
                        M.matvec(fun(Q, v), Function(Q), use_scipy='scipy' in nm)
                    elif nm == 'M.diags':
                        M.diags(it=idx(s), format='csr')
                    elif nm == 'M.assemble':
                        M.assemble('csr')
                    elif nm == 'N=M+M':
                        pool['N'] = (M + M, mv * 2)
                    elif nm == 'N=M+K':
                        pool['N'] = (M + K, mv + kv)
                    elif nm == 'M+=K':
                        M += K
                        pool['M'] = (M, mv + kv)
                    elif nm == 'M+=list':
                        M += [mats[-1]]
                        pool['M'] = (M, mv + refs[-1] * mval)
                    elif nm == 'K=BlockMatrix(mats)':
                        pool['K'] = (BlockMatrix(mats), tot * mval)
                    elif nm == 'mats*2':
                        mats = [m * 2 for m in mats]
                        mval *= 2
                    elif nm == 'M.get_mats':
                        M.get_mats()
                    elif nm == 'M=BlockMatrix(M.get_mats)':
                        pool['M'] = (BlockMatrix(M.get_mats()), mv)
                    elif nm == 'M.solve':
                        rhs = fun(Q, mv)
                        x = M.solve(rhs, Function(Q))
                        rec.close(np.asarray(x) * mask, v, key + '|solve', 1e-7)
                    rec.trans()
                for k in sorted(pool):
                    m, val = pool[k]
                    for us in (False, True):
                        c = m.matvec(fun(Q, v), Function(Q), use_scipy=us)
                        rec.close(np.asarray(c) * mask, val, key + '|%s matvec scipy=%s' % (k, us), 1e-9, scale=np.abs(tot).max() * 4)
                for q, (m, r) in enumerate(zip(mats, refs)):
                    # the matrices the block matrix was made from keep their value
                    c = np.zeros(uh.shape, dtype=complex)
                    i, j = m.global_index
                    c[i] = np.asarray(m.matvec(v[j].copy(), np.zeros_like(v[i])))
                    rec.close(c * mask, r * mval, key + '|source matrix %d' % q, 1e-9, scale=np.abs(tot).max())
                x = pool['M'][0].solve(fun(Q, pool['M'][1]), Function(Q))
                rec.close(np.asarray(x) * mask, v, key + '|final solve', 1e-7)
                return [(k, m._Ai is not None, m.solver is not None, [[len(q) if isinstance(q, list) else 0 for q in r] for r in m.mats], round(float(abs(val).max()), 7))
                        for k, (m, val) in sorted(pool.items())]
            n = len(rec.violations)
            st = rec.guard(go, key)
            if st is None or len(rec.violations) > n:
                continue
            rec.trace()
            if rec.state(s, st):
                nxt += [path + [k] for k in BOPS]
        frontier = nxt
        d += 1
    rec.outcome(s, tot)


def system_mats(Q):
    from shenfun import TestFunction, TrialFunction, inner, grad, div, Dx
    u, p = TrialFunction(Q)
    v, q = TestFunction(Q)
    lap = Dx(u, 0, 2) if Q.dimensions == 1 else div(grad(u))
    flat = []
    for m in [inner(v, lap), inner(v, 2 * u), inner(v, Dx(p, 0, 1)), inner(q, Dx(u, 0, 1)), inner(q, 3 * p)]:
        flat += m if isinstance(m, list) else [m]
    return flat


def fun(Q, v):
    from shenfun import Function
    f = Function(Q)
    f.v[...] = v
    return f


def idx(s):
    n = sum(c in 'FG' for c in s)
    if s == '1d' or n == 0:
        return (0,)
    return 1 if n == 1 else (1,) * n


# ------------------------------------------------------------------ matvec specialisations

def registered(f):
    import importlib
    mod = importlib.import_module('shenfun.%s.matrices' % f)
    return mod.mat


def bases_of(f, q, N, dN=0):
    out = {}
    for c in S.CLASSES[f]:
        if c in ('Generic',):
            continue
        d = {'fam': f, 'cls': c, 'quad': q, 'N': N + dN, **S.ab_list(f)[0]}
        d['N'] = max(d['N'], S.min_n(d) + 1)
        try:
            b = S.make(d)
        except Exception:  # pylint: disable=broad-except
            continue
        out[type(b).__name__] = (type(b), b, c)
        # boundary space as trial
        try:
            bb = b.get_bc_space() if b.has_nonhomogeneous_bcs or c not in ('Orthogonal',) else None
        except Exception:  # pylint: disable=broad-except
            bb = None
        if bb is not None and hasattr(bb, 'bases') is False:
            out.setdefault('bc:' + type(b).__name__, (type(bb), bb, 'bc:' + c))
    return out


def matvec(task, rec):
    from shenfun.matrixbase import SpectralMatrix
    f, q, N = task['fam'], task['quad'], task['N']
    bs = bases_of(f, q, N)
    if f == 'fourier':
        from shenfun import FunctionSpace
        bs = {'R2C': (None, FunctionSpace(N, 'F', dtype='d'), 'R2C'), 'C2C': (None, FunctionSpace(N, 'F', dtype='D'), 'C2C')}
    reg = registered(f)
    small = bases_of(f, q, N, 3) if f != 'fourier' else {}
    pairs = []
    for (n0, b0), (n1, b1) in itertools.product(bs.items(), bs.items()):
        if n0.startswith('bc:'):
            continue
        for k0, k1 in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 0), (2, 2), (0, 4), (4, 0)):
            kk = ((type(b0[1]), k0), (type(b1[1]), k1))
            cls = dict.get(reg, kk, None)
            generic_ = cls is None
            if b0[1].N != b1[1].N:
                continue    # too few points for one of the bases
            if generic_ and not (k0 == 0 and k1 in (0, 2) and (n0 == n1 or n1 == 'bc:' + n0)):
                continue
            pairs.append((n0, k0, n1, k1, b0[1], b1[1], cls))
            if not generic_ and n0 == n1 and n0 == 'Orthogonal' and f != 'fourier':
                pairs.append((n0, k0, n1 + '+3', k1, b0[1], small[n1][1], cls))
                pairs.append((n0 + '+3', k0, n1, k1, small[n0][1], b1[1], cls))
    for n0, k0, n1, k1, t0, t1, cls in pairs[task['part'][0]::task['part'][1]]:
        nm = '%s,%s,%d|%s%d,%s%d' % (f, q, N, n0, k0, n1, k1)

        def mk():
            if cls is not None:
                return cls((t0, k0), (t1, k1))
            return SpectralMatrix((t0, k0), (t1, k1))
        A = rec.guard(mk, 'matvec|%s|construct' % nm)
        if A is None:
            continue
        for sc in ('1', '*=2.5', 'scale,incorporate', '-A', '/4'):
            if sc == '*=2.5':
                A *= 2.5
            elif sc == 'scale,incorporate':
                A *= -2
                A.incorporate_scale()
            elif sc == '-A':
                A = mk()
                A = -A
            elif sc == '/4':
                A = mk().__truediv__(4)
            D = rec.guard(lambda: dense(A), 'matvec|%s|%s|diags' % (nm, sc))
            if D is None:
                break
            gm = A if isinstance(A, SpectralMatrix) else None
            sl = A.trialfunction[0].slice() if gm is not None else slice(0, D.shape[1])
            n = max(t0.N, t1.N) if gm is not None else max(max(D.shape), sl.stop or 0)
            rec.state(nm, sc)
            for dt, nd, ax in [('d', 1, 0), ('D', 1, 0)] + [(d_, n_, a_) for d_ in 'dD' for n_ in (2, 3) for a_ in range(n_)]:
                if D.dtype.kind == 'c' and dt == 'd':
                    continue
                if nd == 3 and (sc not in ('*=2.5', '1') or dt == 'D' and ax == 1):
                    continue
                vs = []
                if nd == 1:
                    ids = [None] + (list(range(n)) if sc == '1' and dt == 'd' else [])
                    for i in ids:
                        v = generic((n,), 2, dt == 'D').astype(dt) if i is None else np.eye(n)[i].astype(dt)
                        vs.append(v)
                else:
                    E = np.eye(n).astype(dt) * (1 if dt == 'd' else 1 - 0.5j)
                    v = E if nd == 2 else np.stack([E, -2 * E[::-1]], axis=2)
                    vs.append(np.moveaxis(v, 0, ax).copy() if nd == 3 else v)
                for v in vs:
                    want = np.tensordot(D, np.moveaxis(v, ax, 0)[sl][:D.shape[1]], axes=(1, 0))
                    for fmt in [None, 'python', 'csr', 'dia', 'csc'] + (A._matvec_methods if nd == 1 or sc in ('1', '*=2.5') else []):
                        if fmt in ('dia', 'csc') and (nd != 2 or sc != '1'):
                            continue
                        rec.trans()
                        c = np.full(v.shape, 7., dtype=v.dtype)
                        v1 = v.copy()
                        key = 'matvec|%s|%s|%s|%dD axis%d %s' % (nm, sc, fmt, nd, ax, dt)
                        c = rec.guard(lambda: A.matvec(v1, c, format=fmt, axis=ax), key)
                        if c is None:
                            continue
                        c = np.moveaxis(c, ax, 0)
                        rec.close(c[:D.shape[0]], want, key, 1e-10)
                        rec.check(np.all(c[D.shape[0]:] == 0), key + '|rows outside the matrix')
                        rec.check(np.array_equal(v1, v), key + '|changes v')
        rec.trace()
        rec.outcome(nm, D)
