"""C02: boundary conditions are satisfied exactly, by every function of the space.

1D: for every space with boundary conditions (named and generic, every way of writing the conditions)
every unit coefficient vector, and several ways of producing a function, are evaluated with the library;
an independently fitted polynomial is differentiated and the conditions applied to it.
Tensor product: the conditions are expressions along the boundary; every line of the mesh is checked.
"""
import itertools
import numpy as np
import sympy as sp
from mc import spaces as S
from mc.common import generic

META = {
    'bounds': '1D: all bases with boundary conditions (named + 22 generic sets), written as tuple/dict/list/string, '
              'reference and mapped domain, homogeneous and inhomogeneous, every unit coefficient vector; '
              '2D/3D: axis orders x families x expressions along the boundary x sequences of time updates',
    'rule': 'state = (space, way of writing the conditions, way of producing the function); '
            'transition = one production or evaluation of a function',
    'assumptions': ['functionals are applied to a polynomial interpolating the evaluated function; tolerance is '
                    'relative to the size of the terms of the functional'],
}
INHOM = [1.5, -0.7, 0.4, 2.1, -1.1, 0.3, 0.9, -0.6, 0.2, -0.1, 0.8, 0.55]
DOM = (0.5, 3.)
SLOW = {'chebyshev': [4, 5, 7, 8, 9, 11, 12, 13, 16, 18, 19], 'chebyshevu': [1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19], 'legendre': [9, 12, 19],
        'ultraspherical': [8, 9, 12, 19], 'jacobi': [8, 9, 12, 19]}


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for f in S.CLASSES:
        if f in ('fourier', 'hermite'):
            continue
        for c in S.CLASSES[f]:
            for base in S.descriptors([f], [c], extra_n=(0,)):
                n = len(S.conditions(base))
                if n == 0:
                    continue
                for e, dm in itertools.product((0, 3) if quick else range(7), (None, DOM)):
                    if f == 'laguerre' and dm:
                        continue
                    if quick and (e == 3) == (dm is None):
                        continue
                    if quick and c in ('Phi3', 'Phi4', 'Phi6') and (base['quad'] != S.QUADS[f][0] or e):
                        continue
                    for vals in (None, INHOM[:n]):
                        if vals and (c == 'ShenBiPolar' and f == 'chebyshev'):
                            pass
                        d = dict(base, N=base['N'] + e + (n if vals and c.startswith('Phi') else 0))
                        if dm:
                            d['dom'] = list(dm)
                        if vals:
                            d['vals'] = vals
                        out.append({'kind': '1d', 'd': d})
    for f in ('chebyshev', 'chebyshevu', 'legendre', 'ultraspherical', 'jacobi'):
        for j, b in enumerate(S.GENERIC_BCS):
            if quick and (j in SLOW[f] or (f in ('jacobi', 'ultraspherical') and j not in (3, 5, 6, 15, 20))):
                continue
            for dm in ([j % 2] if quick else [0, 1]):
                d = {'fam': f, 'cls': 'Generic', 'quad': S.QUADS[f][0], 'N': 13, 'bc': b}
                simple = quick and (len(S.conditions(d)) > 2 or j > 13)
                if f == 'jacobi':
                    d.update({'alpha': 1, 'beta': 2} if j % 2 and not simple else {'alpha': 0, 'beta': 0})
                if f == 'ultraspherical':
                    d['alpha'] = 0 if j % 2 or simple else 1
                if dm:
                    d['dom'] = list(DOM)
                out.append({'kind': '1d', 'd': d})
    for b in ({'left': {'R': [0.7, 1.5]}}, {'left': {'D': 1.5}}, {'left': {'N': -0.5}}, {'left': {'D': 1, 'N': 0.5}}):
        out.append({'kind': '1d', 'd': {'fam': 'laguerre', 'cls': 'Generic', 'quad': 'LG', 'N': 9, 'bc': b}})
    for f in ('chebyshev', 'chebyshevu', 'legendre', 'ultraspherical', 'jacobi', 'laguerre'):
        for i in range(1 if f == 'laguerre' else 20):
            if quick and f in ('jacobi', 'ultraspherical', 'chebyshevu') and i % 10 in (4, 7, 8):
                continue
            out.append({'kind': 'forms', 'fam': f, 'case': i})
    for k in range(6):
        out.append({'kind': 'written', 'k': k})
    for t in tensor_cases(quick):
        out.append(t)
    return out


def tag(d):
    return '%s.%s,%s,N=%d' % (d['fam'], d['cls'], d.get('quad'), d['N']) + ''.join(
        ',%s=%s' % (k, d[k]) for k in ('alpha', 'beta', 'dom', 'vals', 'bc', 'factory') if d.get(k) is not None)


def run(task, rec):
    if task['kind'] == '1d':
        one(task['d'], rec)
    elif task['kind'] == 'forms':
        forms(task['fam'], task['case'], rec)
    elif task['kind'] == 'written':
        written(task['k'], rec)
    else:
        tensor(task, rec)


# ------------------------------------------------------------------ one dimension

def fit(d, x, vals):
    """Orthogonal coefficients of the polynomial interpolating vals at x."""
    n = len(x)
    A = S.V(d, x, 0, n=n)
    return np.linalg.solve(A, vals)


def apply_conditions(d, coef):
    """[(value, size of the terms)] of every condition applied to an orthogonal expansion."""
    res = []
    n = len(coef)
    for c in S.conditions(d):
        row = np.array([S.functional(d, c, lambda x, m, k=k: S.orth(d, k, S.to_ref(d, x), m) * S.dfactor(d)**m)
                        for k in range(n)])
        res.append((row @ coef, np.abs(row).max() * np.abs(coef).max()))
    return res


def satisfied(d, x, vals, want, key, rec, detail=''):
    c = fit(d, x, vals)
    lead = [ (v, s) for v, s in apply_conditions(d, c)]
    for (v, s), w, cond in zip(lead, want, S.conditions(d)):
        rec.checks += 1
        if not abs(v - w) <= 1e-9 * max(1., s, abs(w)):
            rec.fail(key + '|' + cond[0] + cond[1],
                     'condition %s has value %s, expected %s (terms up to %.2g) %s' % (cond, v, w, s, detail))
    return c


def one(d, rec):
    from shenfun import Function, Array, project
    T = tag(d)
    spc = S.make(d)
    N, n = d['N'], S.dim(d)
    x = np.asarray(spc.mesh(), dtype=float)
    want = [float(v) for v in S.bcvals(d)]
    zero = [0.] * len(want)
    # what the space says about itself
    rec.state(T, 'meta')
    names = ''.join(spc.bcs.orderednames())
    exp = ''.join(c[0] + c[1] for c in S.names_sorted(S.conditions(d)))
    rec.check(names == exp, 'names|' + T, '%s expected %s' % (names, exp))
    rec.check(spc.dim() == n, 'dim|' + T, spc.dim())
    rec.check(bool(spc.has_nonhomogeneous_bcs) == any(want), 'has_nonhomogeneous|' + T)
    # basis functions
    xi = S.interior(d)
    B = S.basis(d, xi)
    P = np.asarray(spc.evaluate_basis_all(S.to_ref(d, xi)))[:, :n]
    rec.close(P, B, 'definition|' + T, 1e-9, 'evaluate_basis_all against the documented basis', scale=max(1e-300, np.abs(B).max()))
    Bx = S.basis(d, x)
    PX = np.asarray(spc.evaluate_basis_all(S.to_ref(d, x)))[:, :n]
    for k in range(n):
        u = np.zeros(spc.shape())
        u[k] = 1
        rec.trans()
        hom = satisfied(d, x, Bx[:, k], zero, 'oracle|' + T, rec)
        satisfied(d, x, PX[:, k], zero, 'basis|' + T, rec, 'basis function %d' % k)
        # the function with coefficients e_k and the boundary values
        uf = Function(spc)
        uf[k] = 1
        uf.set_boundary_dofs()
        for kind in ([None, 'vandermonde'] if k < 2 else [None]):
            ub = spc.backward(uf, np.zeros(N), kind=kind) if kind else np.array(uf.backward())
            satisfied(d, x, ub, want, 'backward,%s|' % kind + T, rec, 'coefficient vector e_%d' % k)
        rec.trace()
        rec.state(T, 'unit', k)
    # other ways to produce a member
    a = d['dom'][0] if d.get('dom') else 0
    sx = sp.Symbol('x', real=True)
    expr = sp.sin(sx) + sx / 3 if d['fam'] != 'laguerre' else sp.exp(-sx) * (1 + sx)
    prods = {}

    def forward():
        q = Function(spc)
        q[:] = 77.   # garbage everywhere: forward must overwrite it
        return spc.forward(generic((N,), 3), q)
    prods['forward'] = forward
    prods['arrayforward'] = lambda: Array(spc, buffer=generic((N,), 4)).forward()
    prods['buffer'] = lambda: Function(spc, buffer=expr)
    prods['project'] = lambda: project(expr, spc)
    prods['copy'] = lambda: forward().copy()
    prods['random'] = lambda: rnd()

    def rnd():
        q = Function(spc)
        q[:] = generic(q.shape, 5)
        q.set_boundary_dofs()
        return q
    slow = (d['fam'], d['cls']) in (('chebyshev', 'Phi6'), ('ultraspherical', 'Phi6'), ('chebyshevu', 'Phi6')) or \
        (d['cls'] == 'Phi4' and d['fam'] == 'jacobi')
    for nm, f in prods.items():
        if slow and nm != 'random':
            continue
        u = rec.guard(f, 'produce,%s|%s' % (nm, T))
        if u is None:
            continue
        rec.state(T, nm)
        rec.trans()
        rec.trace()
        ub = np.array(u.backward())
        satisfied(d, x, ub, want, 'function,%s|' % nm + T, rec)
        rec.outcome(T, nm, ub)
        # evaluated exactly at the ends
        if d['fam'] != 'laguerre':
            dom = S.domain(d)
            ends = np.array([dom[0], dom[1]])
            ev = np.array(u.eval(ends))
            sc = max(1., np.abs(ub).max())
            for (side, cn, *_), w in zip(S.conditions(d), want):
                if cn == 'D':
                    rec.close(ev[0 if side == 'L' else 1], w, 'eval,%s|' % nm + T, 1e-9, scale=sc)
    # spaces derived from this one keep the conditions
    if not slow:
        for nm, f, nn in (('refined', lambda: spc.get_refined(N + 3), N + 3), ('unplanned', lambda: spc.get_unplanned(), N),
                          ('refined2', lambda: spc.get_refined(N + 2).get_refined(N + 3), N + 3)):
            s2 = rec.guard(f, '%s|%s' % (nm, T))
            if s2 is None:
                continue
            d2 = dict(d, N=nn)
            q = Function(s2)
            q[:s2.dim()] = generic((s2.dim(),), 6)
            q.set_boundary_dofs()
            satisfied(d2, np.asarray(s2.mesh(), dtype=float), np.array(q.backward()), want, 'derived,%s|' % nm + T, rec)
            rec.state(T, nm)
            rec.trans()
        h = spc.get_homogeneous()
        q = Function(h)
        q[:h.dim()] = generic((h.dim(),), 6)
        q.set_boundary_dofs()
        satisfied(d, x, np.array(q.backward()), zero, 'derived,homogeneous|' + T, rec)
        q = Function(spc)
        q[:n] = generic((n,), 6)
        q.set_boundary_dofs()
        satisfied(d, x, np.array(q.backward()), want, 'after-homogeneous|' + T, rec)
    rec.sample({'space': d})


# ------------------------------------------------------------------ ways of writing conditions

def written(part, rec):
    """Every set of up to three conditions, in every order and spelling: the same scaled conditions."""
    from shenfun.spectralbase import BoundaryConditions, Domain
    names = ['D', 'N', 'N2', 'N3', 'N4', 'N5', 'R', 'W']
    order = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
    atoms = [(s, n) for s in ('left', 'right') for n in names]
    sets = [c for r in (1, 2, 3) for c in itertools.combinations(atoms, r)] + \
        [tuple((s, n) for s in ('left', 'right') for n in names[:m]) for m in range(1, 7)]
    val = {a: 1.5 + 0.25 * i for i, a in enumerate(atoms)}
    for dom in ((-1, 1), (-2, 3), (0, 0.5)):
        df = 2. / (dom[1] - dom[0])
        for si, cs in enumerate(sets):
            if si % 6 != part:
                continue
            want = {'left': {}, 'right': {}}
            ref = {}
            for s, n in cs:
                v = val[s, n]
                ref.setdefault(s, {})[n] = (0.3, v) if n in 'RW' else v
                want[s][n] = v / df**order[n] if n in order else ((0.3 * df, v) if n == 'R' else (0.3 * df, v / df))
            ways = [ref, {s: dict(reversed(list(r.items()))) for s, r in reversed(list(ref.items()))},
                    {s: list(r.items()) for s, r in ref.items()}]
            if all(n in order and order[n] <= 4 for _, n in cs):
                txt = ["u%s(%r)=%r" % ("'" * order[n], dom[s == 'right'], val[s, n]) for s, n in cs]
                ways += ['&&'.join(p) for p in itertools.permutations(txt)] if len(txt) < 4 else ['&&'.join(txt)]
            m = len(cs) // 2
            if cs == tuple((s, n) for s in ('left', 'right') for n in names[:m]):
                ways.append(tuple(val[c] for c in cs))
            if len(cs) == 1 and cs[0][1] == 'D':
                ways.append((val[cs[0]], None) if cs[0][0] == 'left' else (None, val[cs[0]]))
            for w in ways:
                key = 'written|%s|%s' % (w, dom)
                rec.state(key)
                r = rec.guard(lambda: BoundaryConditions(w, domain=Domain(*dom)), key)
                rec.trans()
                if r is None:
                    continue
                flat = lambda b: sorted((s, n, float(x)) for s in b for n, v in b[s].items() for x in (v if isinstance(v, (tuple, list)) else (v,)))
                a, b = flat(r), flat(want)
                rec.check([x[:2] for x in a] == [x[:2] for x in b] and np.allclose([x[2] for x in a], [x[2] for x in b], 1e-13), key,
                          lambda: 'got %s, expected %s' % (dict(r), want))
        rec.trace()
    rec.sample({'task': part})


def forms(fam, which, rec):
    """The same conditions as tuple, dict, list, string: same space and same boundary values."""
    from shenfun import FunctionSpace, Function
    F = S.FAMS[fam]
    kw = {'jacobi': {'alpha': 0, 'beta': 0}, 'ultraspherical': {'alpha': 0}}.get(fam, {})
    if fam == 'laguerre':
        cases = [({'left': {'D': 1.5}}, [(1.5,), {'left': [('D', 1.5)]}, {'left': {'D': 1.5}}])]
        doms = [None]
    else:
        doms = [None, (-2, 3)]
        cases = []
        for dm in doms:
            a, b = dm or (-1, 1)
            cases += [
                ({'left': {'D': 1.5}, 'right': {'D': -0.5}}, [(1.5, -0.5), 'u(%s)=1.5&&u(%s)=-0.5' % (a, b), 'u(%s)=-0.5&&u(%s)=1.5' % (b, a),
                  {'left': [('D', 1.5)], 'right': [('D', -0.5)]}, {'right': {'D': -0.5}, 'left': {'D': 1.5}}], dm),
                ({'left': {'D': 1.5}}, [(1.5, None), 'u(%s)=1.5' % a, {'left': ('D', 1.5)}], dm),
                ({'right': {'D': 1.5}}, [(None, 1.5), 'u(%s)=1.5' % b, {'right': {'D': 1.5}}, {'left': {}, 'right': {'D': 1.5}}], dm),
                ({'left': {'N': 1.5}, 'right': {'N': -0.5}}, ["u'(%s)=1.5&&u'(%s)=-0.5" % (a, b), {'left': [('N', 1.5)], 'right': [('N', -0.5)]}], dm),
                ({'left': {'D': 1.5, 'N': 2}, 'right': {'D': -0.5, 'N': -1}},
                 [(1.5, 2, -0.5, -1), "u(%s)=1.5&&u'(%s)=2&&u(%s)=-0.5&&u'(%s)=-1" % (a, a, b, b),
                  {'left': [('D', 1.5), ('N', 2)], 'right': [('D', -0.5), ('N', -1)]},
                  {'left': {'N': 2, 'D': 1.5}, 'right': {'N': -1, 'D': -0.5}}], dm),
                ({'left': {'D': 1.5}, 'right': {'N': -0.5}}, ["u(%s)=1.5&&u'(%s)=-0.5" % (a, b), {'left': [('D', 1.5)], 'right': [('N', -0.5)]}], dm),
                ({'left': {'N': 1.5}, 'right': {'D': -0.5}}, ["u'(%s)=1.5&&u(%s)=-0.5" % (a, b)], dm),
                ({'left': {'D': 1, 'N': 2, 'N2': 3}, 'right': {'D': -1, 'N': -2, 'N2': .5}}, [(1, 2, 3, -1, -2, .5),
                  "u''(%s)=3&&u'(%s)=2&&u(%s)=1&&u(%s)=-1&&u'(%s)=-2&&u''(%s)=0.5" % (a, a, a, b, b, b)], dm),
                ({'left': {'D': 1.5}, 'right': {'N2': -0.5}}, ["u(%s)=1.5&&u''(%s)=-0.5" % (a, b)], dm),
                ({'left': {'D': 0}, 'right': {'D': 0}}, [(0, 0), 'u(%s)=0&&u(%s)=0' % (a, b)], dm),
            ]
    for case in cases[which:which + 1]:
        ref, alts = case[0], case[1]
        dm = case[2] if len(case) > 2 else None
        d = {'fam': fam, 'cls': 'Generic', 'quad': S.QUADS[fam][0], 'N': 12, 'bc': ref}
        d.update(kw)
        k2 = dict(kw)
        if dm:
            d['dom'] = list(dm)
            k2['domain'] = dm
        want = [float(v) for v in S.bcvals(d)]
        for bc in [ref] + list(alts):
            key = 'forms|%s|%s|%s' % (fam, bc, dm)

            def go():
                import copy
                given = copy.deepcopy(bc)
                spc = FunctionSpace(12, F, bc=given, **k2)
                rec.check(given == bc, key + '|input-modified', str(given))
                q = Function(spc)
                q[:spc.dim()] = generic((spc.dim(),), 7)
                q.set_boundary_dofs()
                satisfied(d, np.asarray(spc.mesh(), dtype=float), np.array(q.backward()), want, key, rec)
                rec.check(spc.dim() == 12 - len(want), key + '|dim', spc.dim())
                rec.state(key)
                rec.trans()
                rec.trace()
            rec.guard(go, key)


# ------------------------------------------------------------------ tensor product spaces

EX = {   # expressions along the boundary, exactly representable in the other spaces
    'F': ['1', 'cos(%s)', 'sin(2*%s)+0.5'],
    'P': ['1', '(1-%s**2)', '(1-%s**2)*(%s+0.5)'],
    'O': ['1', '%s+0.3', '%s**2-%s'],
}


def tensor_cases(quick):
    out = []
    # (boundary family, bc spec with slots for expressions, other bases)
    specs = [('D', 'D'), ('N', 'N'), ('D', None), (None, 'D'), ('D', 'N'), ('DN', 'DN')]
    if quick:
        combos = [('L', s, o, ax) for s in specs for o in (['F'], ['O']) for ax in (0, 1)]
        combos += [(f, ('D', 'D'), o, ax) for f in 'CUQJ' for o in (['F'], ['P']) for ax in (0, 1)]
        combos += [('C', s, ['G', 'F'], ax) for s in specs[:1] for ax in (0, 1, 2)]
        combos += [('L', s, ['F', 'O'], ax) for s in specs[1:3] for ax in (0, 1, 2)]
    else:
        combos = [(f, s, o, ax) for f in 'CLUQJ' for s in specs for o in (['F'], ['G'], ['O'], ['P']) for ax in (0, 1)]
        combos += [(f, s, o, ax) for f in 'CL' for s in specs for o in (['G', 'F'], ['F', 'O'], ['O', 'F'], ['G', 'P']) for ax in (0, 1, 2)]
    for i, (f, s, o, ax) in enumerate(combos):
        for dm in ([i % 2] if quick else [0, 1]):
            for cp in (0, 1):
                out.append({'kind': 'tensor', 'fam': f, 'spec': s, 'others': o, 'axis': ax, 'dom': [None, [0.5, 3.]][dm], 'time': cp})
    for f, g in (('C', 'L'), ('L', 'C'), ('L', 'L')):
        for v in range(3):
            out.append({'kind': 'tensor2', 'fams': [f, g], 'var': v})
    return out


def other_base(o):
    from shenfun import FunctionSpace
    if o == 'F':
        return FunctionSpace(8, 'F', dtype='d'), (0, 2 * np.pi)
    if o == 'G':
        return FunctionSpace(6, 'F', dtype='D'), (0, 2 * np.pi)
    if o == 'O':
        return FunctionSpace(5, 'L'), (-1, 1)
    return FunctionSpace(7, 'L', bc=(0, 0)), (-1, 1)


def tensor(task, rec):
    if task['kind'] == 'tensor2':
        return tensor2(task, rec)
    from shenfun import FunctionSpace, TensorProductSpace, Function, Array, comm
    fam = {v: k for k, v in S.FAMS.items()}[task['fam']]
    names = ['x', 'y', 'z']
    nd = len(task['others']) + 1
    ax = task['axis']
    othernames = [names[i] for i in range(nd) if i != ax]
    syms = dict(zip(names, sp.symbols('x,y,z', real=True)))
    t = sp.Symbol('t', real=True)

    def expr(j):
        e = sp.S(1)
        for q, (o, nm) in enumerate(zip(task['others'], othernames)):
            lst = EX['F' if o in 'FG' else o]
            if o == 'P':
                lst = lst[1:]
            ss = lst[(j + q) % len(lst)].replace('%s', nm)
            e = e * sp.sympify(ss, locals=syms)
        if task['time']:
            e = e * (1 + t * (j + 1)) + (sp.S(0))
        return e * sp.Rational(j + 2, 3)
    bc, j, conds = {}, 0, []
    for side, sname, s in (('left', 'L', task['spec'][0]), ('right', 'R', task['spec'][1])):
        if s:
            bc[side] = {}
            for q in s:
                bc[side][q] = expr(j)
                conds.append((sname, q, expr(j)))
                j += 1
    N = 11
    d = {'fam': fam, 'cls': 'Generic', 'quad': S.QUADS[fam][0], 'N': N, 'bc': {s: {k: 0 for k in v} for s, v in bc.items()}}
    kw = {}
    if fam == 'jacobi':
        kw = {'alpha': 0, 'beta': 0}
    if fam == 'ultraspherical':
        kw = {'alpha': 1}
    d.update(kw)
    if task['dom']:
        d['dom'] = task['dom']
        kw['domain'] = tuple(task['dom'])
    B = FunctionSpace(N, task['fam'], bc=bc, **kw)
    bases = [other_base(o)[0] for o in task['others']]
    bases.insert(ax, B)
    T = TensorProductSpace(comm, bases)
    key = 'tensor|%s%s|%s|axis%d|%s|t%d' % (task['fam'], task['spec'], ''.join(task['others']), ax, task['dom'], task['time'])
    mesh = T.mesh(True)
    x = np.asarray(B.mesh(), dtype=float) if False else np.asarray(mesh[ax], dtype=float).ravel()[:N] if mesh[ax].size == N else None
    if x is None:
        sl = [0] * nd
        sl[ax] = slice(None)
        x = np.asarray(mesh[ax])[tuple(sl)]
    times = [None] if not task['time'] else [0, 0.5, 2., 0]

    def expect(q, tv):
        e = q.subs(t, tv) if tv is not None else q
        fs = sorted(e.free_symbols, key=str)
        if not fs:
            return float(e)
        f = sp.lambdify(fs, e, 'numpy')
        return f(*[np.take(mesh[names.index(str(z))], 0, axis=ax) if mesh[names.index(str(z))].shape[ax] > 1 else
                   np.squeeze(mesh[names.index(str(z))], axis=ax) for z in fs])
    for step, tv in enumerate(times):
        if tv is not None:
            T.bases[ax].bc.update(tv)
        for prod in ('forward', 'set', 'zero'):
            def go():
                if prod == 'forward':
                    # a member of the other spaces in the other directions, anything along the bc axis
                    a = Array(T)
                    a[:] = np.broadcast_to(field(task['others'], mesh, ax, nd, N), a.shape)
                    u = T.forward(a, Function(T))
                else:
                    u = Function(T)
                    if prod == 'set':
                        a = Array(T)
                        a[:] = np.broadcast_to(field(task['others'], mesh, ax, nd, N), a.shape)
                        u = T.forward(a, Function(T))
                        u *= 0.5
                    u.set_boundary_dofs()
                ub = np.array(u.backward())
                lines = np.moveaxis(ub, ax, 0).reshape(N, -1)
                coef = fit(d, x, lines)
                for (sname, q, e) in conds:
                    row = np.array([S.functional(d, (sname, q), lambda xx, m, k=k: S.orth(d, k, S.to_ref(d, xx), m) * S.dfactor(d)**m) for k in range(N)])
                    got = row @ coef
                    w = np.broadcast_to(expect(e, tv), np.delete(np.array(ub.shape), ax)).ravel() if nd > 1 else expect(e, tv)
                    sc = max(1., np.abs(row).max() * np.abs(coef).max())
                    rec.close(got, w, '%s|%s|%s%s' % (key, prod, sname, q), 1e-9, 'step %d time %s' % (step, tv), scale=sc)
                rec.state(key, step, prod)
                rec.trans(2)
                rec.trace()
                rec.outcome(key, step, prod, ub)
            rec.guard(go, key + '|' + prod)
    rec.sample({'case': task})


def field(others, mesh, ax, nd, N):
    """Generic along the axis with conditions, exactly representable in the other directions."""
    v = np.asarray(generic((N,), 9)).reshape([-1 if i == ax else 1 for i in range(nd)])
    oi = [i for i in range(nd) if i != ax]
    for o, i in zip(others, oi):
        m = mesh[i]
        if o in 'FG':
            v = v * (1 + 0.3 * np.cos(m) + 0.2 * np.sin(2 * m))
        elif o == 'O':
            v = v * (0.7 + m - 0.4 * m**2)
        else:
            v = v * (1 - m**2) * (1 + 0.4 * m)
    return v


def tensor2(task, rec):
    """Two directions with inhomogeneous conditions, matching in the corners."""
    from shenfun import FunctionSpace, TensorProductSpace, Function, comm
    x, y = sp.symbols('x,y', real=True)
    ue = [1 + x * y + x**2 * y, (1 - x**2) + 2 * y + x * y**2, x**3 + y**2 * x + 0.5][task['var']]
    doms = [((-1, 1), (-1, 1)), ((-1, 1), (0, 2)), ((0.5, 3), (-1, 1))][task['var']]
    kinds = [('D', 'D'), ('D', 'D'), ('D', 'N')]
    N = 8
    f, g = task['fams']
    key = 'tensor2|%s%s|%d' % (f, g, task['var'])
    bcs = []
    for v, o, dm in ((x, y, doms[0]), (y, x, doms[1])):
        bcs.append({'left': {'D': ue.subs(v, dm[0])}, 'right': {'D': ue.subs(v, dm[1])}})
    B0 = FunctionSpace(N, f, bc=bcs[0], domain=doms[0])
    B1 = FunctionSpace(N, g, bc=bcs[1], domain=doms[1])
    T = TensorProductSpace(comm, (B0, B1))
    u = Function(T)
    u.set_boundary_dofs()
    ub = np.array(u.backward())
    mesh = T.mesh(True)
    fams = {v: k for k, v in S.FAMS.items()}
    for ax, (fm, dm) in enumerate(zip((f, g), doms)):
        d = {'fam': fams[fm], 'cls': 'Orthogonal', 'quad': '', 'N': N, 'dom': list(dm)}
        xs = np.asarray(mesh[ax]).ravel()
        lines = np.moveaxis(ub, ax, 0)
        coef = fit(d, xs, lines)
        for q, end in enumerate(dm):
            row = np.array([S.orth(d, k, S.to_ref(d, np.array([end])), 0)[0] for k in range(N)])
            e = ue.subs((x, y)[ax], end)
            os_ = (y, x)[ax]
            w = np.broadcast_to(sp.lambdify(os_, e, 'numpy')(np.asarray(mesh[1 - ax]).ravel()), (N,))
            rec.close(row @ coef, w, '%s|axis%d|%d' % (key, ax, q), 1e-9)
    rec.state(key)
    rec.trans()
    rec.trace()
