"""C19  sparse grids: subgrids and their coefficients, values at grid points, tensor formula, refinement"""
import itertools
from types import SimpleNamespace
from pyvc.spec import *
from pyvc import cyext
from pyvc.core import Num, term, mkbool
from .c18 import rational_identity
P = Registry()
G, PR = mod('pacal.depvars.sparse_grids'), mod('pacal.params')
_NP = mod('pacal.utils').np
ASG = G.AdaptiveSparseGridInterpolator

class Quiet(PR.interpolation_nd):
    debug_info = False
def tame(): return patched((PR, 'interpolation_nd', Quiet))
def below(e, p): return all(x <= y for x, y in zip(e, p))
def compositions(nd, d): return {p for p in itertools.product(range(1, d + 1), repeat=nd) if sum(p) == d}

@P.contract(['depvars.sparse_grids.gen_partitions', 'depvars.sparse_grids.gen_Q', 'utils.binomial_coeff'], name='subgrids')
def subgrids(c):
    """bounded: dimensions up to 5, levels up to the largest one the parameters allow"""
    d = 1 + c.choose(5, 'dimensions'); q = d + c.choose(5, 'level')
    for s in range(1, q + 1):
        got = G.gen_partitions(d, s)
        c.ensure(set(got) == compositions(d, s) and len(got) == len(set(got)), 'every composition once')
    got = G.gen_Q(q, d)
    c.ensure(set(got) == set().union(*[compositions(d, s) for s in range(q - d + 1, q + 1)]) and len(got) == len(set(got)), 'every subgrid once')
    for k in range(d):
        want = 1
        for i in range(k): want = want * (d - 1 - i) // (i + 1)
        c.ensure(G.binomial_coeff(d - 1, k) == want, 'binomial coefficients')

def fresh_grids(c, d, sizes, ordered=True):
    """an interpolator whose axes have unknown nested nodes: the contract of cheb_nodes (C11) is that they increase and are nested"""
    A = ASG.__new__(ASG); A.d = d; A.init_ni = sizes[0]
    A.exps = [None] + list(sizes)
    A.cheb_weights_cache = [None] + [G.cheb_weights(n) for n in sizes]
    A.xroot_cache = []
    for j in range(d):
        X = axis(c, 'x%d' % j, sizes[-1])
        A.xroot_cache.append([None] + [arrays.obj_array(X[::(sizes[-1] - 1) // (n - 1)]) for n in sizes])
    return A
def axis(c, name, n):
    X = [c.real(name) for _ in range(n)]
    for u, v in zip(X, X[1:]): c.assume(u < v)
    return X

@P.contract(['depvars.sparse_grids.AdaptiveSparseGridInterpolator.get_nodes'], name='grid_of_subgrids')
def grid_of_subgrids(c):
    """bounded: up to 5 dimensions and 3 refinements; the starting size is that of the class, 5, 3, or 2 in more than three dimensions"""
    d = 1 + c.choose(5, 'dimensions'); level = c.choose(4 if d < 5 else 3, 'level'); q = d + level
    start = (3, 5, 11)[c.choose(3 if d < 3 else 1, 'start')] if d < 4 else 2
    A = ASG.__new__(ASG); A.d = d; A.init_ni = start; A.exps = [None]
    for i in range(level + 2): A.exps.append(start if i == 0 else 2 * A.exps[-1] - 1)
    with tame(): nodes, sub = A.get_nodes(q)
    m = level + 1
    c.ensure(len(set(nodes)) == len(nodes), 'every grid point once')
    c.ensure(set(sub) == set(p for s in range(q - d + 1, q + 1) for p in compositions(d, s)), 'a map for every subgrid')
    used = set()
    for p, (coef, idx) in sub.items():
        want = list(itertools.product(*[range(0, A.exps[m], (A.exps[m] - 1) // (A.exps[e] - 1)) for e in p]))
        c.ensure([nodes[i] for i in idx] == want, 'points of the subgrid in the order of its axes'); used.update(int(i) for i in idx)
    c.ensure(used == set(range(len(nodes))), 'no grid point outside of the subgrids')
    for e in itertools.product(range(1, m + 1), repeat=d):
        if sum(e) <= q:
            c.ensure(sum(v[0] for p, v in sub.items() if below(e, p)) == 1, 'coefficients of the subgrids above a grid add up to one')
    # refined grid contains the old one at doubled indices
    A.exps.append(2 * A.exps[-1] - 1)
    with tame(): finer, _ = A.get_nodes(q + 1)
    c.ensure({tuple(2 * i for i in n) for n in nodes} < set(finer), 'refinement only adds points')

def tensor(c, A, p, at, X):
    """tensor product of the barycentric formula: value(s) `at` of grid indices, an argument which is no node"""
    num = Num(z3.RealVal(0)); den = 1
    Q = []
    for j, e in enumerate(p):
        xs, ws = A.xroot_cache[j][e], A.cheb_weights_cache[e]
        Q.append([float(ws[k]) / (X[j] - xs[k]) for k in range(len(xs))])
    for idx in itertools.product(*[range(len(v)) for v in Q]):
        t = at[idx]
        for j, k in enumerate(idx): t = t * Q[j][k]
        num = num + t
    for v in Q: den = den * sum(v[1:], v[0])
    return num, den
CASES = [((1,),), ((2,),), ((1, 1),), ((1, 2),), ((2, 1),)]

def routine(c):
    k = c.choose(3, 'routine')
    if k == 0: return 'full_grid_interp_new', patched((G, 'have_Cython', True))
    if k == 1: return 'full_grid_interp', patched((G, 'have_Cython', False))
    m = cyext.load('pacal/bary_interp.pyx'); m.np, m.DTYPE, m.malloc = Store(), float, lambda n: Block(c, n)
    return 'full_grid_interp', patched((G, 'have_Cython', True), (G, 'c_dense_grid_interp', m.c_dense_grid_interp))
class Store:
    double = float
    def __getattr__(self, k): return getattr(_NP, k)
    def empty(self, n, dtype=None): return arrays.obj_array([0.0] * (n[0] if isinstance(n, (list, tuple)) else n))
class Block:
    """malloc: reads and writes inside, reads of what was written"""
    def __init__(self, c, n): self.c, self.n, self.v = c, n, {}; c.ensure(n >= 0, 'size of an allocated block')
    def _in(self, k):
        if not 0 <= k < self.n: self.c.ensure(False, 'index inside the allocated block')
    def __setitem__(self, k, v): self._in(k); self.v[k] = v
    def __getitem__(self, k):
        self._in(k)
        if k not in self.v: self.c.ensure(False, 'memory is set before it is read')
        return self.v[k]

@P.contract(['depvars.sparse_grids.AdaptiveSparseGridInterpolator.full_grid_interp_new', 'depvars.sparse_grids.AdaptiveSparseGridInterpolator.full_grid_interp',
             'bary_interp.pyx:c_dense_grid_interp', 'depvars.sparse_grids.cheb_weights'], name='rectangular_grid')
def rectangular_grid(c):
    """all nodes, values and arguments; bounded: grids of 3 or 5 nodes in up to two dimensions, 2 in three"""
    p = ((1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1))[c.choose(6, 'grid')]
    d = len(p); sizes = (3, 5) if d < 3 else (2,)
    A = fresh_grids(c, d, sizes) if d < 3 else fresh_grids(c, d, (2,))
    name, p_ = routine(c)
    shape = [len(A.xroot_cache[j][e]) for j, e in enumerate(p)]
    idxs = list(itertools.product(*[range(n) for n in shape]))
    val = {i: c.real('y') for i in idxs}
    fs = arrays.obj_array([val[i] for i in idxs])
    kind = c.choose(2 + d, 'argument')
    X = [c.real('t') for _ in range(d)]
    hit = {}
    if kind == 1: hit = {j: shape[j] - 1 - j % shape[j] for j in range(d)}     # a grid point
    if kind >= 2: hit = {kind - 2: (kind - 1) % shape[kind - 2]}                # on one line of the grid
    for j in range(d):
        if j in hit: X[j] = A.xroot_cache[j][p[j]][hit[j]]
        else:
            for x in A.xroot_cache[j][p[j]]: c.assume(X[j] != x)
    # two arguments at once: the second one is a corner of the grid
    many = c.choose(2, 'how many') == 1
    args = [arrays.obj_array([X[j], A.xroot_cache[j][p[j]][0]] if many else [X[j]]) for j in range(d)]
    free = [j for j in range(d) if j not in hit]
    den = None
    if free:
        B = SimpleNamespace(xroot_cache=[A.xroot_cache[j] for j in free], cheb_weights_cache=A.cheb_weights_cache)
        at = {}
        for i in itertools.product(*[range(shape[j]) for j in free]):
            k = [0] * d
            for j, v in hit.items(): k[j] = v
            for j, v in zip(free, i): k[j] = v
            at[i] = val[tuple(k)]
        num, den = tensor(c, B, [p[j] for j in free], at, [X[j] for j in free])
        for j in free:
            one = [float(w) / (X[j] - x) for x, w in zip(A.xroot_cache[j][p[j]], A.cheb_weights_cache[p[j]])]
            c.assume(sum(one[1:], one[0]) != 0)
    with p_: got = getattr(A, name)(p, fs, args, {})
    c.ensure(len(got) == 1 + many, 'a value for each argument')
    if free: rational_identity(c, term(got[0] * den), term(num), True, 'tensor product formula')
    else: c.ensure_eq(got[0], val[tuple(hit[j] for j in range(d))], 'stored value at a grid point')
    if many: c.ensure_eq(got[1], val[(0,) * d], 'stored value at a corner')

def dense_kernel():
    m = cyext.load('pacal/bary_interp.pyx'); m.np, m.DTYPE = Store(), float
    return m
@P.contract(['bary_interp.pyx:c_dense_grid_interp'], name='dense_kernel')
def dense_kernel_sums(c):
    """all matrices and values; bounded: the shapes listed"""
    sh = ((1,), (4,), (1, 1), (1, 1, 1), (2, 3), (3, 1, 2), (2, 2, 2), (1, 4))[c.choose(8, 'shape')]
    n = 1 + c.choose(3, 'arguments')
    mats = [arrays.obj_array([c.real('m') for _ in range(n * k)]).reshape((n, k)) for k in sh]
    idxs = list(itertools.product(*[range(k) for k in sh]))
    fs = arrays.obj_array([c.real('y') for _ in idxs])
    m = dense_kernel(); m.malloc = lambda k: Block(c, k)
    got = m.c_dense_grid_interp(mats, fs)
    c.ensure(len(got) == n, 'a value for each argument')
    for i in range(n):
        want = Num(z3.RealVal(0))
        for k, idx in enumerate(idxs):
            t = fs[k]
            for M, j in zip(mats, idx): t = t * M[i, j]
            want = want + t
        c.ensure_eq(got[i], want, 'sum over the grid of value times weights')

def sparse(c, d, level, start=3):
    sizes = [start]
    while len(sizes) < level + 1: sizes.append(2 * sizes[-1] - 1)
    A = fresh_grids(c, d, sizes); A.q = d + level
    with tame(): A.nodes, A.subgrid_map = A.get_nodes(A.q)
    return A
def quotients(c, A, j, x):
    """the argument is no node and the sums of weights do not vanish"""
    for e in range(1, A.q - A.d + 2):
        xs, ws = A.xroot_cache[j][e], A.cheb_weights_cache[e]
        one = [float(w) / (x - t) for t, w in zip(xs, ws)]
        c.assume(sum(one[1:], one[0]) != 0)

@P.contract(['depvars.sparse_grids.AdaptiveSparseGridInterpolator.interp_at'], name='values_at_grid_points')
def values_at_grid_points(c):
    """all nodes and values, every point of the grid; bounded: grids of 3, 5 (and 9 in one or two dimensions) nodes an axis"""
    d, level = ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1))[c.choose(8, 'grid')]
    A = sparse(c, d, level, 3 if d < 3 else 2)
    A.Ys = arrays.obj_array([c.real('y') for _ in A.nodes])
    m = level + 1
    k = c.choose(len(A.nodes), 'point'); n = A.nodes[k]
    X = [A.xroot_cache[j][m][n[j]] for j in range(d)]
    for j in range(d):
        for e in range(1, m + 1):
            xs = A.xroot_cache[j][e]; ws = A.cheb_weights_cache[e]
            if n[j] % ((A.exps[m] - 1) // (A.exps[e] - 1)):
                one = [float(w) / (X[j] - t) for t, w in zip(xs, ws)]
                c.assume(sum(one[1:], one[0]) != 0)
    kind = c.choose(2, 'argument')
    got = A.interp_at(*X) if kind == 0 else A.interp_at(*[arrays.obj_array([x, x]).reshape((1, 2)) for x in X])
    if kind:
        c.ensure(got.shape == (1, 2), 'shape of the arguments is kept'); got = got[0, 1]
    else: c.ensure(np_shape(got) == (), 'scalar in, scalar out')
    got = value_of(got)
    c.ensure(value_of(got) is not None, "value"); rational_identity(c, term(got), term(A.Ys[k]), True, 'stored value at a grid point')
def np_shape(g): return getattr(g, 'shape', ())
def value_of(g): return g.item() if hasattr(g, 'item') and not isinstance(g, Num) else g

@P.contract(['depvars.sparse_grids.AdaptiveSparseGridInterpolator.interp_at'], name='sparse_combination')
def sparse_combination(c):
    """all values: interpolant is the sum of the interpolants on the subgrids with their coefficients; what depends on one variable is
    interpolated on the finest grid of its axis"""
    d, level = ((1, 1), (2, 0), (2, 1), (2, 2), (3, 1))[c.choose(5, 'grid')]
    A = sparse(c, d, level, 3 if d < 3 else 2)
    Q = {p: c.real('u%s' % (p,)) for p in A.subgrid_map}
    asked = []
    def rect(p, fs, X, cache):
        asked.append(p); c.ensure(all(f is A.Ys[i] for f, i in zip(fs, A.subgrid_map[p][1])) and len(fs) == len(A.subgrid_map[p][1]), 'values of the subgrid')
        c.ensure(all(x.ndim == 1 for x in X), 'arguments are flat')
        return arrays.obj_array([Q[p] + i for i in range(len(X[0]))])
    A.full_grid_interp_new = A.full_grid_interp = rect
    A.Ys = arrays.obj_array([c.real('y') for _ in A.nodes])
    kind = c.choose(3, 'argument')
    X = [c.real('t') for _ in range(d)]
    args = X if kind == 0 else [arrays.obj_array([x, x + 1, x - 1, x][:3 if kind == 1 else 4]) for x in X]
    if kind == 2: args = [x.reshape((2, 2)) for x in args]
    got = A.interp_at(*args)
    c.ensure(sorted(asked) == sorted(A.subgrid_map), 'every subgrid once')
    want = sum(((-1) ** (A.q - sum(p)) * G.binomial_coeff(d - 1, A.q - sum(p))) * Q[p] for p in Q)
    tot = 1
    if kind == 0:
        c.ensure(np_shape(got) == (), 'scalar in, scalar out', ); c.ensure_eq(value_of(got), want, 'combination of the subgrids')
    else:
        c.ensure(got.shape == args[0].shape, 'shape of the arguments is kept')
        for i, v in enumerate(got.ravel()): c.ensure_eq(v, want + i, 'combination of the subgrids')
    # one variable alone: the interpolants on p depend on p[0] only, what is left is the finest one
    U = {e: c.real('g') for e in range(1, level + 2)}
    c.ensure_eq(sum(A.subgrid_map[p][0] * U[p[0]] for p in Q), U[level + 1], 'functions of one variable are interpolated on the finest grid of its axis')
    c.ensure_eq(sum(A.subgrid_map[p][0] * U[p[-1]] for p in Q), U[level + 1], 'functions of the last variable are interpolated on the finest grid of its axis')

class Levels:
    def __init__(self, left): self.left, self.seen = left, []
    def add(self, e, v): self.seen.append((e, v))
    def test_convergence(self):
        self.left -= 1
        return (self.left < 0, '')
class Small(ASG):
    init_ni = property(lambda s: s.__dict__.get('start', 3), lambda s, v: s.__dict__.__setitem__('start', 3))
@P.contract(['depvars.sparse_grids.AdaptiveSparseGridInterpolator.__init__', 'depvars.sparse_grids.AdaptiveSparseGridInterpolator.adaptive_init',
             'depvars.sparse_grids.AdaptiveSparseGridInterpolator.adaptive_interp', 'depvars.sparse_grids.AdaptiveSparseGridInterpolator.test_accuracy'], name='refinement')
def refinement(c):
    """all functions and boxes; bounded: up to three refinements from 3 nodes an axis (11 of the class in one dimension)"""
    d = 1 + c.choose(3, 'dimensions'); rounds = c.choose(4 if d < 3 else 2, 'refinements')
    stop = c.choose(2, 'stopped by') == 0           # by the controller, or by the level
    small = d > 1 or c.choose(2, 'start') == 0
    a = [c.real('a') for _ in range(d)]; b = [c.real('b') for _ in range(d)]
    F = z3.Function(c.fresh('f'), *([z3.RealSort()] * (d + 1)))
    f = lambda *X: Num(F(*[term(x) for x in X]))
    calls = []
    def fun(*X):
        c.ensure(len(X) == d, 'all the arguments'); pts = list(zip(*X)); calls.append(pts)
        return arrays.obj_array([f(*p) for p in pts])
    made = {}
    def nodes(n, a_=-1, b_=1):
        j = [i for i in range(d) if a[i] is a_ and b[i] is b_]
        c.ensure(len(j) == 1, 'nodes of one axis'); j = j[0]
        if (j, n) not in made:
            coarse = made.get((j, (n + 1) // 2))
            new = [coarse[i // 2] if coarse is not None and i % 2 == 0 else c.real('x%d_' % j) for i in range(n)]
            for u, v in zip(new, new[1:]): c.assume(u < v)
            made[j, n] = arrays.obj_array(new)
        return made[j, n]
    mon = Levels(rounds if stop else 99); errs = []
    cls = Small if small else ASG
    def accuracy(self, X, Y):
        errs.append((c.real('err'), X, Y)); return errs[-1][0]
    class Par(Quiet): maxq = d + (6 if stop else rounds - 1)
    def monitor(par=None): return mon
    class Sub(cls): test_accuracy = accuracy
    with patched((PR, 'interpolation_nd', Par), (G, 'cheb_nodes', nodes), (G, 'convergence_monitor', monitor)):
        A = Sub(fun, d, a, b)
    # the last loop tests and stops, or the level ends it
    n = 3 if small else 11
    for _ in range(rounds): n = 2 * n - 1
    c.ensure(A.q == d + rounds, 'level after the refinements')
    c.ensure(len(errs) == rounds + (1 if stop else 0) and len(calls) == 1 + len(errs), 'one test for each refinement')
    m = A.q - d + 1
    c.ensure(A.exps[m] == n, 'nodes of an axis')
    with tame(): want, sub = A.get_nodes(A.q)
    c.ensure(A.nodes == want and {k: (v[0], list(v[1])) for k, v in A.subgrid_map.items()} == {k: (v[0], list(v[1])) for k, v in sub.items()}, 'grid and subgrids of the level')
    c.ensure(len(A.Ys) == len(want), 'a value for each grid point')
    pts = [tuple(A.xroot_cache[j][m][k[j]] for j in range(d)) for k in want]
    for j in range(d):
        for e in range(1, m + 1):
            c.ensure(all(u is v for u, v in zip(A.xroot_cache[j][e], made[j, A.exps[m]][::(n - 1) // (A.exps[e] - 1)])) and len(A.xroot_cache[j][e]) == A.exps[e], 'nested nodes of the axes')
            c.ensure(list(A.cheb_weights_cache[e]) == list(G.cheb_weights(A.exps[e])), 'weights of the axes')
    bad = [i for i in range(len(want)) if not (A.Ys[i].t).eq(f(*pts[i]).t)]
    for i in bad: c.ensure_eq(A.Ys[i], f(*pts[i]), 'value of the function at the grid point')
    c.ensure(not bad, 'values of the function at the grid points')
    ids = [tuple(x.t.get_id() for x in p) for call in calls for p in call]
    c.ensure(len(ids) == len(set(ids)), 'function is asked once for each point')
    c.ensure(set(tuple(x.t.get_id() for x in p) for p in pts) <= set(ids), 'every grid point was asked')
    if not stop: c.ensure(len(ids) == len(pts), 'no point is wasted')
    for (e, X, Y), call, s in zip(errs, calls[1:], mon.seen):
        c.ensure(list(zip(*X)) == call and len(Y) == len(call), 'accuracy is tested at the new points')
        c.ensure(s[0] is e, 'the controller sees the error')
        for y in list(Y)[:3]: c.ensure(And(s[1] >= y, s[1] >= -y), 'scale of the values')

@P.contract(['depvars.sparse_grids.AdaptiveSparseGridInterpolator.test_accuracy'], name='accuracy')
def accuracy_is_the_largest_difference(c):
    """all values; bounded: up to three new points"""
    A = ASG.__new__(ASG); n = 1 + c.choose(3, 'points'); d = 1 + c.choose(2, 'dimensions')
    X = [arrays.obj_array([c.real('x') for _ in range(n)]) for _ in range(d)]
    Y = arrays.obj_array([c.real('y') for _ in range(n)])
    I = [c.real('i') for _ in range(n)]
    def interp(*Z):
        c.ensure(len(Z) == d and all(len(z) == n and all(u is v for u, v in zip(z, x)) for z, x in zip(Z, X)), 'interpolant at the new points')
        return arrays.obj_array(I)
    A.interp_at = interp
    e = value_of(A.test_accuracy(X, Y))
    for i in range(n): c.ensure(e >= abs(I[i] - Y[i]), 'no larger difference')
    c.ensure(Or(*[e == abs(I[i] - Y[i]) for i in range(n)]), 'one of the differences')
