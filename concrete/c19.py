"""C19: sparse grids on the real, unmodified code"""
import itertools, math, numpy as np
from .lib import Driver
import pacal.params as params
from pacal.depvars import sparse_grids as G
from pacal.utils import cheb_nodes
params.interpolation_nd.debug_info = False
D = Driver()

class Par(params.interpolation_nd):
    maxq = 4
    debug_info = False
def build(f, d, a=None, b=None, levels=None, tol=None):
    """the real interpolator, refined a given number of times or until converged"""
    class Conv(params.interpolation_nd.convergence):
        abstol = tol if tol is not None else params.interpolation_nd.convergence.abstol
        reltol = tol if tol is not None else params.interpolation_nd.convergence.reltol
    class P(Par):
        maxq = d - 1 + levels if levels is not None else params.interpolation_nd.maxq
        convergence = Conv
    old = params.interpolation_nd
    params.interpolation_nd = P
    try:
        return G.AdaptiveSparseGridInterpolator(f, d, a, b)
    finally:
        params.interpolation_nd = old
def box(rng, d):
    a = rng.uniform(-3, 2, d); b = a + rng.uniform(0.3, 4, d)
    if rng.random() < 0.3: a[0], b[0] = 0.0, 1.0
    return a, b
def noise(rng):
    """a function without any structure, the same value at the same place"""
    k = rng.uniform(50, 90, 8)
    def f(*X):
        r = 0
        for i, x in enumerate(X): r = r + np.sin(k[i] * x) * (1 + i) + np.cos(k[-1] * x * X[0])
        return np.sin(37 * r)
    return f
def grid_of(A):
    m = A.q - A.d + 1
    return [np.array([A.xroot_cache[j][m][n[j]] for n in A.nodes]) for j in range(A.d)]

@D.check
def partitions(rep, rng):
    for nd in range(1, 6):
        for d in range(1, 11):
            got = G.gen_partitions(nd, d)
            want = {p for p in itertools.product(range(1, d + 1), repeat=nd) if sum(p) == d}
            rep.ok(set(map(tuple, got)) == want and len(got) == len(want), 'compositions', (nd, d), len(want), len(got))
    for d in range(1, 5):
        for q in range(d, d + 5):
            got = G.gen_Q(q, d)
            want = {p for p in itertools.product(range(1, q + 1), repeat=d) if q - d + 1 <= sum(p) <= q}
            rep.ok(set(map(tuple, got)) == want and len(got) == len(want), 'subgrids', (q, d), len(want), len(got))
            for e in itertools.product(range(1, q - d + 2), repeat=d):
                if sum(e) <= q:
                    s = sum((-1) ** (q - sum(p)) * G.binomial_coeff(d - 1, q - sum(p)) for p in got if all(x >= y for x, y in zip(p, e)))
                    rep.ok(s == 1, 'coefficients of the subgrids above a grid add up to one', (q, d, e), 1, s)

@D.check
def grid_points(rep, rng):
    for i in range(rep.scale(4)):
        d = [1, 2, 2, 3][i % 4]; levels = int(rng.integers(0, 2 if d == 3 and not rep.thorough else 3))
        a, b = box(rng, d); f = noise(rng); asked = []
        def g(*X):
            for n, x in enumerate(X):
                rep.ok(np.all(x >= a[n]) and np.all(x <= b[n]), 'function asked inside its box', (d, n), (a[n], b[n]), (x.min(), x.max()))
            asked.extend(zip(*[np.atleast_1d(x).tolist() for x in X])); return f(*X)
        A = build(g, d, a, b, levels)
        inp = f'd={d} levels={levels} box={a.tolist()},{b.tolist()}'
        X = grid_of(A)
        rep.ok(len(set(A.nodes)) == len(A.nodes), 'every grid point once', inp, len(set(A.nodes)), len(A.nodes))
        pts = list(zip(*[x.tolist() for x in X]))
        # refinement places a point again within rounding of the coordinates
        near = {tuple(np.round(p, 9)) for p in asked}
        rep.ok(len(near) == len({tuple(np.round(p, 9)) for p in asked}) and len(asked) == len(near), 'function asked once per point', inp, len(near), len(asked))
        rep.close(A.Ys, f(*X), 'values belong to their grid points', inp, 1e-6, 1e-8)
        rep.close(A.interp_at(*X), A.Ys, 'interpolant at grid points', inp, 1e-9, 1e-9)
        # corners of the box belong to no grid but the one dimensional faces do
        k = int(rng.integers(len(pts)))
        one = A.interp_at(*[float(t) for t in pts[k]])
        rep.ok(np.shape(one) == (), 'scalar in, scalar out', inp, (), np.shape(one))
        rep.close(one, A.Ys[k], 'scalar argument', inp, 1e-9, 1e-9)

@D.check
def nested(rep, rng):
    for d in (1, 2, 3):
        f = noise(rng)
        prev = None
        for levels in range(0, 3 if d < 3 or rep.thorough else 2):
            A = build(f, d, None, None, levels)
            cur = {tuple(np.round(p, 10) + 0.0) for p in zip(*grid_of(A))}
            if prev is not None:
                rep.ok(prev < cur, 'refinement only adds points', (d, levels), len(prev), len(prev & cur))
            prev = cur

@D.check
def polynomials(rep, rng):
    for i in range(rep.scale(4)):
        d = [1, 2, 3, 2][i % 4]
        a, b = box(rng, d)
        deg = [int(rng.integers(0, 7)) for _ in range(d)]
        j = int(rng.integers(d)); deg[j] = int(rng.integers(6, 11))
        if d > 1:      # one high degree at a time stays in the space of the coarsest grid
            for l in range(d):
                if l != j: deg[l] = int(rng.integers(0, 4)) if i % 4 == 3 else 0
        levels = 2 if d == 2 else 1
        def f(*X):
            r = np.ones_like(X[0])
            for l, x in enumerate(X): r = r * ((x - a[l]) / (b[l] - a[l])) ** deg[l]
            return r
        A = build(f, d, a, b, levels)
        X = [a[l] + (b[l] - a[l]) * rng.random((5, 2)) for l in range(d)]
        got = A.interp_at(*X)
        inp = f'degrees {deg} d={d} levels={levels}'
        rep.ok(got.shape == (5, 2), 'shape kept', inp, (5, 2), got.shape)
        rep.close(got, f(*X), 'polynomial reproduced', inp, 1e-8, 1e-9)
        Z = [x.T if k % 2 == 0 else np.ascontiguousarray(x.T) for k, x in enumerate(X)]         # the same places, stored in another order
        rep.close(A.interp_at(*Z), got.T, 'arrays stored by columns', inp, 1e-12, 1e-12)
    # one variable at a time: the sum of functions of one variable is interpolated as finely as the finest axis grid
    g = lambda x: 1 / (1 + 4 * x * x)
    for d in (2, 3):
        A = build(lambda *X: sum((k + 1) * g(x) for k, x in enumerate(X)), d, None, None, 2 if d == 2 else 1)
        m = A.exps[A.q - A.d + 1]
        xs = cheb_nodes(m)
        x = rng.uniform(-1, 1, (d, 4))
        from scipy.interpolate import BarycentricInterpolator as B
        want = sum((k + 1) * B(xs, g(xs))(x[k]) for k in range(d))
        rep.close(A.interp_at(*x), want, 'sum of functions of one variable', (d, m), 1e-9, 1e-9)

@D.check
def smooth(rep, rng):
    for d in (1, 2):
        c = rng.uniform(0.2, 0.8, d)
        f = lambda *X: np.exp(-sum(c[i] * x * x for i, x in enumerate(X)))
        A = build(f, d)
        X = rng.uniform(-1, 1, (d, 20))
        rep.close(A.interp_at(*X), f(*X), 'smooth function within the tolerance', c.tolist(), 1e-6, 1e-6)

@D.check
def narrow(rep, rng):
    """a peak that only some of the new points see is not overlooked, whatever its sign"""
    for sign in (1, -1):
        x0 = np.cos(np.pi / 20); f = lambda x: sign * np.exp(-((x - x0) / .05) ** 2)
        A = build(f, 1)
        X = np.concatenate([rng.uniform(-1, 1, 20), x0 + rng.uniform(-.02, .01, 5)])
        rep.close(A.interp_at(X), f(X), 'narrow peak within the tolerance', sign, 1e-5, 1e-5)
        Y = f(X) + sign * rng.uniform(.5, 2, len(X))
        if hasattr(A, 'test_accuracy'):
            rep.close(A.test_accuracy([X], Y), np.abs(A.interp_at(X) - Y).max(), 'accuracy is the largest difference', sign, 1e-12, 1e-12)

@D.check
def many_dimensions(rep, rng):
    """constants, in up to five dimensions, on grids of few nodes"""
    for d, levels in ((3, 2), (4, 2), (4, 3), (5, 2)):
        A = G.AdaptiveSparseGridInterpolator.__new__(G.AdaptiveSparseGridInterpolator)
        A.d, A.q, A.init_ni, A.exps = d, d + levels, 3, [None] + [2 ** (k + 1) + 1 for k in range(levels + 2)]
        A.cheb_weights_cache = [None] + [G.cheb_weights(n) for n in A.exps[1:]]
        A.xroot_cache = [[None] + [cheb_nodes(n) for n in A.exps[1:]] for j in range(d)]
        A.nodes, A.subgrid_map = A.get_nodes(A.q)
        A.Ys = np.ones(len(A.nodes))
        rep.close(A.interp_at(*rng.uniform(-1, 1, (d, 3))), np.ones(3), 'constant function', (d, levels), 1e-9, 1e-9)

@D.check
def linear(rep, rng):
    for d in (1, 2, 3):
        f, g = noise(rng), noise(rng)
        A, B, C = [build(h, d, None, None, 1) for h in (f, g, lambda *X: 2 * f(*X) - 3 * g(*X))]
        X = rng.uniform(-1, 1, (d, 6))
        X[0][0] = A.xroot_cache[0][1][3]; X[-1][1] = 1.0; X[:, 2] = -1.0
        rep.close(C.interp_at(*X), 2 * A.interp_at(*X) - 3 * B.interp_at(*X), 'interpolant linear in the values', d, 1e-9, 1e-9)
        whole = A.interp_at(*X)
        rep.close([A.interp_at(*[float(t) for t in p]) for p in X.T], whole, 'arrays pointwise', d, 1e-12, 1e-12)
        rep.ok(np.size(A.interp_at(*[np.array([])] * d)) == 0, 'empty arrays', d, 0, None)

@D.check
def dense_routines(rep, rng):
    """the three implementations of the rectangular grid agree with the tensor formula"""
    class A: pass
    for i in range(rep.scale(6)):
        d = int(rng.integers(1, 4)); p = tuple(int(t) for t in rng.integers(1, 4, d)); sizes = {1: 3, 2: 5, 3: 9}
        A = G.AdaptiveSparseGridInterpolator.__new__(G.AdaptiveSparseGridInterpolator)
        A.d = d
        A.cheb_weights_cache = [None] + [G.cheb_weights(sizes[e]) for e in (1, 2, 3)]
        ends = [sorted(rng.uniform(-3, 3, 2)) for _ in range(d)]
        A.xroot_cache = [[None] + [cheb_nodes(sizes[e], *ends[j]) for e in (1, 2, 3)] for j in range(d)]
        shape = [sizes[e] for e in p]
        fs = rng.normal(size=shape)
        X = [rng.uniform(*ends[j], 4) for j in range(d)]
        X[0][1] = A.xroot_cache[0][p[0]][1]; X[-1][2] = A.xroot_cache[-1][p[-1]][-1]
        want = []
        for k in range(4):
            v = fs
            for j in range(d):
                xs = A.xroot_cache[j][p[j]]
                # Lagrange basis
                L = np.array([np.prod([(X[j][k] - xs[m]) / (xs[l] - xs[m]) for m in range(len(xs)) if m != l]) for l in range(len(xs))])
                v = np.tensordot(L, v, axes=(0, 0))
            want.append(v)
        inp = (d, p)
        rep.close(A.full_grid_interp_new(p, fs.ravel(), X, {}), want, 'rectangular grid', inp, 1e-8, 1e-8)
        old = G.have_Cython
        for flag in (True, False):
            if flag and not old: continue
            G.have_Cython = flag
            try: got = A.full_grid_interp(p, fs.ravel(), X, {})
            finally: G.have_Cython = old
            rep.close(got, want, 'rectangular grid, compiled' if flag else 'rectangular grid, cross product', inp, 1e-8, 1e-8)

