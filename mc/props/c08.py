"""C08: multidimensional transforms are tensor products of the 1D transforms.

The maps are linear: every unit array of physical and spectral space is enumerated for every space, order of axes
and kind, and compared with the 1D maps (decided by C01) applied along each axis. Composite spaces are explored as
component-wise operations, and Functions/Arrays as views into the same data.
"""
import itertools
import warnings
import numpy as np

from mc import tsp
from mc.common import generic

META = {'rule': 'state = (space, order of axes, kind); transition = one transform call on one unit array',
        'domain': 'tensor products of 2-4 of 24 one-dimensional spaces in every order, every admissible order of transformed axes, real and complex; '
                  'vector, tensor and composite spaces',
        'bounds': {'quick': '2D: all pairs from a core set, 3D: selected triples, one 4D', 'thorough': 'all pairs of 22 spaces, more triples and sizes'}}

SIZE = {'F': 4, 'G': 5, 'K': 4, 'k': 5, 'L': 5, 'C': 6, 'U': 5, 'Q': 5, 'J': 5, 'O': 4, 'T': 5, 'Z': 4, 'S': 5, 'V': 4, 'H': 4, 'A': 5,
        'N': 6, 'n': 5, 'B': 8, 'X': 8, 'l': 5, 'c': 6, 'u': 5, 'b': 8, 'D': 5, 'y': 6}
CORE = 'FGLCTZHAD'


def valid(s):
    return sum(c in 'Fk' for c in s) <= 1


def tasks(tier):
    quick = tier == 'quick'
    out = []
    alph = CORE if quick else ''.join(c for c in SIZE if c not in 'lcuby')
    two = [a + b for a in alph for b in alph if valid(a + b)]
    if quick:
        two += ['UF', 'FU', 'QF', 'FJ', 'kK', 'Kk', 'VG', 'GS', 'NF', 'FB', 'BG', 'Xn', 'JU', 'kD', 'OS']
    three = ['GFL', 'LGF', 'GLF', 'GGF', 'GGG', 'CLF', 'LGC', 'TZL', 'FGC', 'CFG', 'KGD', 'DkK', 'HGF', 'GAF', 'TTT'] if quick else \
        [a + b + c for a in 'FGLTK' for b in 'GLCH' for c in 'FGLZA' if valid(a + b + c)]
    for s in two + three:
        out.append({'kind': 'map', 's': s, 'odd': 0})
        if not quick or len(s) == 2 and s[0] in 'FG' and s[1] in 'LTFG':
            out.append({'kind': 'map', 's': s, 'odd': 1})
    for s in ['GGGF', 'LGGF', 'GFTG'] if quick else ['GGGF', 'LGGF', 'GFTG', 'LLGF', 'TFGG', 'GGGG']:
        out.append({'kind': 'map', 's': s, 'odd': 0, 'small': 1})
    for s in ['Fl', 'lF', 'lG', 'Gc', 'cF', 'uF', 'Fb', 'GFl', 'GlF', 'cGF', 'Ll', 'lL', 'Cl', 'lC', 'ZlF', 'yF', 'Fy']:
        out.append({'kind': 'bc', 's': s})
    for s in ['FG', 'GF', 'LF', 'FL', 'TT', 'GC', 'CL', 'GGF', 'LGF', 'GFC', 'LGT'][:7 if quick else 11] + (['GFL'] if quick else []):
        for kind in ('vector', 'tensor', 'mixed', 'nested'):
            if kind == 'tensor' and len(s) == 3 and quick:
                continue
            out.append({'kind': 'comp', 's': s, 'comp': kind})
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        {'map': maps, 'bc': bcs, 'comp': comp}[task['kind']](task, rec)


KINDS = {'C': ['fast', 'vandermonde', 'recursive'], 'L': ['recursive', 'vandermonde'], 'U': ['vandermonde', 'recursive'], 'F': ['fast', 'vandermonde']}
NAMES = {'C': 'chebyshev', 'L': 'legendre', 'U': 'chebyshevu', 'F': 'fourier'}


def maps(task, rec):
    s = task['s']
    ns = [SIZE[c] + task['odd'] - (1 if task.get('small') and c not in 'LC' else 0) for c in s]
    for order in range(tsp.n_orders(s)):
        T = tsp.space(s, ns, order)
        dt = T.forward.input_array.dtype
        co = T.forward.output_array.dtype
        kinds = [None]
        fams = {tsp.SPEC[c]['family'] for c in s}
        if order == 0 and len(s) < 4:
            for f in fams & set(KINDS):
                kinds += [{NAMES[f]: k} for k in KINDS[f]]
        pre = '%s,%s,axes%s' % (s, ns, T.axes if hasattr(T, 'axes') else order)
        rec.check(T.shape(True) == T.forward.output_array.shape, 'shape|' + pre)
        rec.check(T.shape(False) == T.forward.input_array.shape, 'shape phys|' + pre)
        rec.check(tuple(T.dims()) == tuple(b.dim() for b in T.bases) and T.dim() == np.prod([b.dim() for b in T.bases]), 'dims|' + pre)
        xs = T.mesh()
        lx = T.local_mesh(True)
        for k, (c, n) in enumerate(zip(s, ns)):
            want = np.asarray(tsp.base(c, n).mesh())
            rec.close(np.asarray(xs[k]).ravel(), want, 'mesh|%s|%d' % (pre, k), 1e-13)
            sh = [1] * len(s)
            sh[k] = -1
            rec.close(lx[k], np.broadcast_to(want.reshape(sh), T.shape(False)), 'local mesh|%s|%d' % (pre, k), 1e-13)
        for kind in kinds:
            rec.state(pre, str(kind))
            kw = {} if kind is None else {'kind': kind}
            for op in ('forward', 'scalar_product', 'backward'):
                fn = getattr(T, op)
                si, so = (T.shape(True), T.shape(False)) if op == 'backward' else (T.shape(False), T.shape(True))
                ti, to = (co, dt) if op == 'backward' else (dt, co)
                key = '%s|%s|%s' % (op, pre, kind)
                tot = int(np.prod(si))
                units = range(tot) if kind is None else range(0, tot, max(1, tot // 12))
                # boundary slots of the spectral arrays are not degrees of freedom
                mask = np.zeros(T.shape(True), dtype=bool)
                mask[T.slice()] = True
                prev = None
                ok = True
                for i in units:
                    for p in ((1., 1j) if ti.kind == 'c' else (1.,)):
                        e = np.zeros(si, dtype=ti)
                        e.flat[i] = p
                        if op == 'backward' and not mask.flat[i]:
                            continue
                        want = tsp.apply(s, ns, op, e, order)
                        e0 = e.copy()
                        o = np.full(so, 7, dtype=to)

                        def go():
                            return fn(e, o, **kw)
                        r = rec.guard(go, key)
                        rec.trans()
                        if r is None:
                            ok = False
                            break
                        ok &= rec.check(r is o and np.array_equal(e, e0), key + '|output returned, input untouched')
                        if op == 'scalar_product':
                            want, o = want * mask, o * mask       # the rest is not specified
                        ok &= rec.close(o, want, key, 1e-11, 'unit %d*%s' % (i, p), scale=max(1., np.abs(want).max()))
                        if prev is not None:
                            ok &= rec.check(np.array_equal(prev[0], prev[1]), key + '|earlier output untouched')
                        prev = (o, o.copy())
                        if not ok:
                            break
                    if not ok:
                        break
                # through the internal buffers, generic data
                g = generic(si, 3, ti.kind == 'c')
                if op == 'backward':
                    g = g * mask
                fn.input_array[...] = g
                r = np.array(fn(**kw))
                rec.close(r * (mask if op == 'scalar_product' else 1), tsp.apply(s, ns, op, g, order) * (mask if op == 'scalar_product' else 1), key + '|internal', 1e-11, scale=max(1., np.abs(r).max()))
        rec.trace()
    rec.outcome(s)


def bcs(task, rec):
    """Inhomogeneous boundary values in one or two directions."""
    s = task['s']
    ns = [SIZE[c] + 1 for c in s]
    for order in range(tsp.n_orders(s)):
        T = tsp.space(s, ns, order)
        pre = '%s,axes%d' % (s, order)
        rec.state(pre)
        from shenfun import Function, Array
        k = [i for i, c in enumerate(s) if c in 'lcuby'][0]
        b1 = tsp.base(s[k], ns[k])
        lift = np.zeros(ns[k])
        z = Function(b1)
        z.set_boundary_dofs()
        lift = np.asarray(z.backward())
        sh = [1] * len(s)
        sh[k] = -1
        others = [i for i in range(len(s)) if i != k]
        fourier = all(s[i] in tsp.FOUR for i in others) or all(s[i] in tsp.FOUR + 'TZOS' for i in others)
        uh = Function(T)
        uh.v[...] = generic(uh.shape, 2, uh.dtype.kind == 'c')
        mask = np.zeros(uh.shape)
        mask[T.slice()] = 1
        uh.v[...] = np.asarray(uh) * mask
        c0 = np.asarray(uh).copy()
        uh.set_boundary_dofs()
        u = uh.backward()
        rec.trans()
        L = np.broadcast_to(lift.reshape(sh), u.shape)
        hom = tsp.apply(s, ns, 'backward', c0, order)
        if fourier:
            rec.close(u, hom + L, 'backward|' + pre, 1e-10)
            v = Array(T)
            v.v[...] = generic(u.shape, 4, u.dtype.kind == 'c')
            v0 = np.asarray(v).copy()
            w = v.forward()
            rec.trans()
            want = tsp.apply(s, ns, 'forward', v0 - L, order)
            rec.close(np.asarray(w) * mask, want * mask, 'forward|' + pre, 1e-10)
            q = w.backward().forward()
            rec.close(q, w, 'backward forward|' + pre, 1e-10)
        # boundary values by evaluation
        dom = T.bases[k].domain
        other = [float(0.3 + 0.17 * i) for i in range(len(s))]
        if s[k] in 'lcu':
            for e, val in ((0, 1.5), (1, -0.5)):
                P = np.array(other)[:, None] * np.ones((1, 3)) + np.arange(3) * 0.1
                P[k] = float(dom[e])
                vals = T.eval(P, uh)
                rec.trans()
                if fourier:
                    rec.close(np.asarray(vals), np.full(3, val), 'boundary|' + pre, 1e-10)
                else:
                    # the other direction has homogeneous conditions: the projection of the constant on that space
                    pass
    rec.outcome(s)


def comp(task, rec):
    from shenfun import VectorSpace, TensorSpace, CompositeSpace, Function, Array
    s = task['s']
    ns = [SIZE[c] for c in s]
    d = len(s)
    T = tsp.space(s, ns)
    kind = task['comp']
    s2 = s.replace('L', 'O').replace('C', 'T')
    T2 = tsp.space(s2, ns)
    if kind == 'vector':
        V = VectorSpace(T)
        flat = [(s, T)] * d
    elif kind == 'tensor':
        V = TensorSpace(T)
        flat = [(s, T)] * d * d
    elif kind == 'mixed':
        V = CompositeSpace([T, T2])
        flat = [(s, T), (s2, T2)]
    else:
        V = CompositeSpace([VectorSpace(T), T2])
        flat = [(s, T)] * d + [(s2, T2)]
    pre = '%s|%s' % (kind, s)
    rec.state(pre)
    nc = len(flat)
    rec.check(V.num_components() == nc and len(V.flatten()) == nc, 'components|' + pre)
    U = Array(V)
    rec.check(U.shape == (nc,) + T.shape(False), 'array shape|' + pre)
    rec.check(tuple(V.shape(False)) == U.shape, 'shape|' + pre)
    Uh = Function(V)
    rec.check(Uh.shape == (nc,) + T.shape(True), 'function shape|' + pre)
    rec.check(V.dim() == sum(t.dim() for _, t in flat), 'dim|' + pre)
    cd = Uh.dtype.kind == 'c'
    pd = U.dtype.kind == 'c'
    masks = []
    for _, t in flat:
        m = np.zeros(t.shape(True))
        m[t.slice()] = 1
        masks.append(m)
    masks = np.array(masks)
    # transforms: each component from its own data only (unit component x generic data and all together)
    for sel in [(i,) for i in range(nc)] + [tuple(range(nc))]:
        a = np.zeros(U.shape, dtype=U.dtype)
        for i in sel:
            a[i] = generic(U.shape[1:], 5 + i, pd)
        for op in ('forward', 'scalar_product'):
            U.v[...] = a
            H = Function(V)
            H.v[...] = 9
            r = rec.guard(lambda: getattr(V, op)(U, H), '%s|%s' % (op, pre))
            rec.trans()
            want = np.array([tsp.apply(z, ns, op, a[i]) for i, (z, _) in enumerate(flat)])
            rec.close(np.asarray(H), want, '%s|%s|%s' % (op, pre, sel), 1e-11)
            rec.check(np.array_equal(np.asarray(U), a), '%s input|%s' % (op, pre))
            if op == 'forward':
                H2 = U.forward()
                rec.close(H2, want, 'Array.forward|%s|%s' % (pre, sel), 1e-11)
        h = np.zeros(Uh.shape, dtype=Uh.dtype)
        for i in sel:
            h[i] = generic(Uh.shape[1:], 8 + i, cd) * masks[i]
        H = Function(V, buffer=h.copy())
        B = Array(V)
        V.backward(H, B)
        rec.trans()
        want = np.array([tsp.apply(z, ns, 'backward', h[i]) for i, (z, _) in enumerate(flat)])
        rec.close(np.asarray(B), want, 'backward|%s|%s' % (pre, sel), 1e-11)
        rec.close(np.asarray(H.backward()), want, 'Function.backward|%s|%s' % (pre, sel), 1e-11)
        rec.check(np.array_equal(np.asarray(H), h), 'backward input|%s' % pre)
    # components are views of the same data
    h = generic(Uh.shape, 3, cd)
    a = generic(U.shape, 3, pd)
    for cls, data, sh in ((Function, h, 0), (Array, a, 1)):
        Z = cls(V)
        Z.v[...] = data
        for i in range(nc):
            path = [i]
            if kind == 'tensor':
                path = [i // d, i % d]
            if kind == 'nested':
                path = [0, i] if i < d else [1]
            w = Z
            for j in path:
                w = w[j]
            k = '%s component|%s|%d' % (cls.__name__, pre, i)
            rec.check(w.shape == Z.shape[1:], k + '|shape', str(w.shape))
            rec.check(np.array_equal(np.asarray(w), data[i]), k + '|values')
            rec.check(np.shares_memory(np.asarray(w), np.asarray(Z)), k + '|view')
            rec.check(w.function_space() is flat[i][1] or w.function_space() == flat[i][1], k + '|space')
            w.v[...] = 4. if w.dtype.kind != 'c' else 4. - 1j
            exp = data.copy()
            exp[i] = 4. if w.dtype.kind != 'c' else 4. - 1j
            rec.check(np.array_equal(np.asarray(Z), exp), k + '|write through')
            Z.v[...] = data
            rec.trans()
            # transform of a component alone
            zs = flat[i][0]
            if cls is Array:
                rec.close(w.forward(), tsp.apply(zs, ns, 'forward', data[i]), k + '|forward', 1e-11)
            else:
                w.v[...] = data[i] * masks[i]
                rec.close(w.backward(), tsp.apply(zs, ns, 'backward', data[i] * masks[i]), k + '|backward', 1e-11)
                Z.v[...] = data
        for idx in (slice(None), (slice(None), 0), (0, 1), (slice(0, 1),), (Ellipsis, 0)):
            want = data[idx]
            if kind == 'tensor' or kind == 'nested':
                continue
            g = np.asarray(Z[idx] if not isinstance(idx, tuple) else Z.v[idx])
            rec.check(np.array_equal(g, want), '%s index|%s|%s' % (cls.__name__, pre, idx))
        c2 = Z.copy() if hasattr(Z, 'copy') else None
        if c2 is not None:
            rec.check(np.array_equal(np.asarray(c2), data) and not np.shares_memory(np.asarray(c2), np.asarray(Z)), '%s copy|%s' % (cls.__name__, pre))
    rec.trace()
    rec.outcome(pre)
