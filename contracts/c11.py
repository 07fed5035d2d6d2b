"""C11  interpolation: the compiled kernel, node sets and their refinement, transformed interpolators"""
from types import SimpleNamespace
from pyvc.spec import *
from pyvc import loops, cyext
from pyvc.arrays import LazyArr, sym_array, skolem_index
from pyvc.core import Num, term, mkbool
P = Registry()
N, U, V = mod('pacal.interpolation'), mod('pacal.utils'), mod('pacal.vartransforms')
PR = mod('pacal.params')
from .c12 import fsym
from .c10 import Equal
from .c18 import rational_identity
If = lambda q, a, b: arrays.select(q, a, b)
_NP = U.np

class Proxy:
    """numpy of the extracted module: storage is allocated for symbolic values, argmin picks one least element"""
    double = float
    def __getattr__(self, k): return getattr(_NP, k)
    def empty(self, n, dtype=None):
        n = n[0] if isinstance(n, (list, tuple)) else n
        return arrays.obj_array([0.0] * n)
    def argmin(self, s):
        c = core.CTX
        n = s.base.n if isinstance(s, loops.Mapped) else None
        if n is None: raise Unsupported("argmin")
        k = skolem_index(c, n, 'nearest').t; j = c.least_probe
        with_j = s.elem(j)
        c.assume(s.elem(k) <= with_j); c.nearest = k
        return Num(k)
def kernel(c):
    m = cyext.load('pacal/bary_interp.pyx')
    m.np = Proxy(); m.DTYPE = float
    m.malloc = lambda n: loops.Cells(n, c)
    return m
def R(t): return Num(t)
class Sums:
    """num and den of the barycentric formula after i nodes, as recursive functions"""
    def __init__(self, c, X, W, Y, x, tag=''):
        self.c, self.X, self.W, self.Y, self.x = c, X, W, Y, x
        self.nu = z3.Function(c.fresh('num' + tag), z3.IntSort(), z3.RealSort())
        self.de = z3.Function(c.fresh('den' + tag), z3.IntSort(), z3.RealSort())
        c.assume(mkbool(z3.And(self.nu(0) == 0, self.de(0) == 0)))
    def step(self, i):
        d = term(self.W.at(i) / (self.x - self.X.at(i)))
        self.c.assume(mkbool(z3.And(self.nu(i + 1) == self.nu(i) + d * term(self.Y.at(i)), self.de(i + 1) == self.de(i) + d)))
def table(c, n=None):
    """nodes, values and weights of unknown number"""
    n = n or c.int('n'); c.assume(n >= 1)
    return n, sym_array(c, 'X', n), sym_array(c, 'Y', n), sym_array(c, 'W', n)
def distinct(c, X, i, j):
    c.assume(mkbool(z3.Implies(i != j, term(X.at(i)) != term(X.at(j)))))

@P.contract(['bary_interp.pyx:bary_interp', 'interpolation.BarycentricInterpolator.interp_at'], name='barycentric_kernel')
def barycentric_kernel(c):
    """for any nodes, values and weights: the stored value at a node, the quotient of the sums elsewhere, no division by zero"""
    n, X, Y, W = table(c)
    x = c.real('x')
    s = Sums(c, X, W, Y, x)
    j0 = skolem_index(c, n, 'probe').t; c.least_probe = j0
    seen = z3.Function(c.fresh('seen'), z3.IntSort(), z3.BoolSort())           # x differs from the nodes before i
    def inv(v, i):
        s.step(i)
        # the probed index stands for every node passed
        return [('sum of weighted values', mkbool(term(v['num']) == s.nu(i))), ('sum of weights', mkbool(term(v['den']) == s.de(i))),
                ('nodes passed differ from the argument', mkbool(z3.Implies(j0 < i, term(x) != term(X.at(j0)))))]
    c.loopinv = inv
    B = N.BarycentricInterpolator(X, Y, W)
    with patched((N, 'bary_interp', kernel(c).bary_interp), (N, 'have_Cython', True)):
        scalar = c.choose(2, 'argument') == 0
        c.iteration = None
        y = B.interp_at(x) if scalar else B(arrays.obj_array([x]))
        if not scalar:
            c.ensure(len(y) == 1, 'one value for each argument'); y = y[0]
    i = c.iteration
    hit = mkbool(term(x) == term(X.at(i)))
    if bool(hit):
        c.ensure(y == Y.at(i), 'stored value at a node')
    else:
        c.ensure(mkbool(term(x) != term(X.at(j0))), 'no node equals the argument')
        m = n.t
        if bool(mkbool(s.de(m) != 0)): c.ensure_eq(y, Num(s.nu(m)) / Num(s.de(m)), 'barycentric quotient')
        else:
            k = c.nearest
            c.ensure(y == Y.at(k), 'a stored value when the sums vanish'); c.ensure(abs(x - X.at(k)) <= abs(x - X.at(j0)), 'the value of the nearest node')

@P.contract(['bary_interp.pyx:bary_interp'], name='linear_in_the_values')
def linear_in_the_values(c):
    """the value is the same combination of values when the data are combined"""
    n, X, Y, W = table(c); Z = sym_array(c, 'Z', n)
    x, al, be = c.real('x'), c.real('alpha'), c.real('beta')
    s, t = Sums(c, X, W, Y, x, 'Y'), Sums(c, X, W, Z, x, 'Z')
    j0 = skolem_index(c, n, 'probe').t; c.least_probe = j0
    def inv(v, i):
        s.step(i); t.step(i)
        return [('combined sum', mkbool(term(v['num']) == term(al) * s.nu(i) + term(be) * t.nu(i))), ('sum of weights', mkbool(z3.And(term(v['den']) == s.de(i), s.de(i) == t.de(i))))]
    c.loopinv = inv
    comb = LazyArr(n, lambda i: al * Y.at(i) + be * Z.at(i))
    with patched((N, 'bary_interp', kernel(c).bary_interp), (N, 'have_Cython', True)):
        y = N.BarycentricInterpolator(X, comb, W)(x)
    i = c.iteration; m = n.t
    if bool(mkbool(term(x) == term(X.at(i)))): c.ensure_eq(y, al * Y.at(i) + be * Z.at(i), 'combined value at a node')
    elif bool(mkbool(s.de(m) != 0)): c.ensure_eq(y, al * (Num(s.nu(m)) / Num(s.de(m))) + be * (Num(t.nu(m)) / Num(t.de(m))), 'combined quotient')

# ---------------------------------------------------------------- node sets, for every number of nodes
PI = mathfn.PI
def ends(c):
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    return a, b
def second(n, a, b, j):
    """node j of the n nodes of the second kind; the ends are exact"""
    return If(mkbool(j == 0), a, If(mkbool(j == term(n) - 1), b, (a + b) * .5 - (b - a) * .5 * mathfn.cos(Num(j) * Num(PI) / (n - 1))))
def first(n, a, b, j): return (a + b) * .5 - (b - a) * .5 * mathfn.cos((2 * Num(j) + 1) * Num(PI) / (2 * n))
def decreasing(c, s, t):
    """the cosine decreases on [0, pi] (an assumed fact of analysis), instantiated at two arguments"""
    s, t = term(s), term(t)
    c.assume(mkbool(z3.Implies(z3.And(s >= 0, s < t, t <= PI), mathfn.F['cos'](s) > mathfn.F['cos'](t))))
def lies_inside(c, x, a, b, label): c.ensure(And(x >= a, x <= b), label + ': inside the interval')
def count(c, arr, n, label): c.ensure(mkbool(term(arr.n) == term(n)) if isinstance(arr.n, Num) else mkbool(z3.IntVal(arr.n) == term(n)), label + ': number of nodes')
def same_angle(c, p, q):
    """equal quotients have equal cosines"""
    c.ensure(p == q, 'angles agree'); c.assume(p == q); c.assume(mathfn.cos(p) == mathfn.cos(q))

@P.contract(['utils.cheb_nodes', 'utils.chebspace', 'utils.incremental_cheb_nodes'], name='second_kind_nodes')
def second_kind_nodes(c):
    a, b = ends(c); m = c.int('m'); c.assume(m >= 2)
    k = c.choose(3, 'generator')
    if k < 2:
        g = U.cheb_nodes(m, a, b) if k == 0 else U.chebspace(a, b, m)
        count(c, g, m, 'nodes'); i = skolem_index(c, m).t
        c.ensure(g.at(z3.IntVal(0)) == a, 'first node is the left end'); c.ensure(g.at(m.t - 1) == b, 'last node is the right end')
        x = g.at(i); lies_inside(c, x, a, b, 'nodes')
        c.ensure(x == second(m, a, b, i), 'nodes of the second kind')
        c.assume(mkbool(i + 1 < m.t))
        th = lambda j: Num(j) * Num(PI) / (m - 1)
        for s, t in ((i, i + 1), (z3.IntVal(0), i + 1), (i, m.t - 1), (z3.IntVal(0), z3.IntVal(1))): decreasing(c, th(s), th(t))
        c.ensure(th(m.t - 1) == Num(PI), 'last angle'); c.assume(mathfn.cos(Num(PI)) == -1); c.assume(mathfn.cos(Num(z3.RealVal(0))) == 1)
        for q in (i, i + 1): c.assume(mkbool(z3.And(q * PI >= 0, z3.ToReal(q) * PI <= z3.ToReal(m.t - 1) * PI)))
        c.ensure(th(i) < th(i + 1), 'angles increase')
        c.ensure(x < g.at(i + 1), 'nodes increase')
    else:
        new = U.incremental_cheb_nodes(2 * m - 1, a, b)
        full = U.cheb_nodes(2 * m - 1, a, b); old = U.cheb_nodes(m, a, b)
        count(c, new, m - 1, 'added nodes')
        i = c.int('i'); c.assume(And(i >= 0, i < m - 1)); i = i.t
        x = new.at(i); lies_inside(c, x, a, b, 'added nodes')
        same_angle(c, Num(1 + 2 * i) * Num(PI) / (2 * m - 2), Num(2 * i + 1) * Num(PI) / (2 * m - 1 - 1))
        c.ensure_eq(x, full.at(2 * i + 1), 'added nodes are those between the old ones')
        j = skolem_index(c, m).t
        same_angle(c, Num(j) * Num(PI) / (m - 1), Num(2 * j) * Num(PI) / (2 * m - 1 - 1))
        c.ensure_eq(old.at(j), full.at(2 * j), 'old nodes remain')

@P.contract(['utils.cheb_nodes1', 'utils.chebspace1', 'utils.incremental_cheb_nodes1'], name='first_kind_nodes')
def first_kind_nodes(c):
    a, b = ends(c); m = c.int('m'); c.assume(m >= 1)
    k = c.choose(3, 'generator')
    if k < 2:
        g = U.cheb_nodes1(m, a, b) if k == 0 else U.chebspace1(a, b, m)
        count(c, g, m, 'nodes'); i = skolem_index(c, m).t
        x = g.at(i); lies_inside(c, x, a, b, 'nodes')
        th = lambda j: (2 * Num(j) + 1) * Num(PI) / (2 * m)
        c.ensure(mkbool(term(x) == term(first(m, a, b, i))), 'nodes of the first kind')
        decreasing(c, th(i), th(i + 1)); c.assume(mkbool(i + 1 < m.t))
        c.ensure(And(th(i) >= 0, th(i) < th(i + 1), th(i + 1) <= Num(PI)), 'angles increase')
        c.ensure(x < g.at(i + 1), 'nodes increase')
    else:
        new = U.incremental_cheb_nodes1(3 * m, a, b)
        full = U.cheb_nodes1(3 * m, a, b); old = U.cheb_nodes1(m, a, b)
        j = skolem_index(c, m).t
        same_angle(c, (2 * Num(j) + 1) * Num(PI) / (2 * m), (2 * Num(3 * j + 1) + 1) * Num(PI) / (2 * (3 * m)))
        c.ensure_eq(old.at(j), full.at(3 * j + 1), 'old nodes remain')
        i = skolem_index(c, 3 * m).t
        ok = new.filt is not None
        c.ensure(ok, 'added nodes are a selection')
        chosen = bterm(new.filt.at(i)) if ok else z3.BoolVal(False)
        c.ensure(mkbool(chosen == (i % 3 != 1)), 'every node that is not an old one is added')
        c.ensure_eq(new.fn(i), full.at(i), 'added nodes belong to the refined set')
        lies_inside(c, new.fn(i), a, b, 'added nodes')

# ---------------------------------------------------------------- refinement: one step of the adaptive loop from any number of nodes
def full_weight(n, j): return If(mkbool(j % 2 == 0), -1.0, 1.0) * If(mkbool(z3.Or(j == 0, j == term(n) - 1)), .5, 1.0)
def half_angle(c, t): c.assume(2 * mathfn.sin(t / 2) ** 2 == 1 - mathfn.cos(t))
KINDS = {'ChebyshevInterpolator': 0, 'ChebyshevInterpolatorNoL': -1, 'ChebyshevInterpolatorNoR': 1}
def bare(c, name, m, a, b, f):
    k = getattr(N, name); s = k.__new__(k); s.a, s.b = a, b; s.f = f; s.interp_class = N.BarycentricInterpolator; s.n = m
    X = s.get_nodes(m)
    N.BarycentricInterpolator.__init__(s, X, f(X))
    return s
class Monitor:
    """controller of the adaptive loop that asks for one refinement"""
    def __init__(self): self.left = 1; self.seen = []
    def add(self, e, v, *a): self.seen.append((e, v))
    def test_convergence(self):
        self.left -= 1
        return (self.left < 0, '')
def check_nodes(c, s, n, a, b, f, skip, label, m=None):
    """the data of an interpolator on the refined grid of n nodes (one of the ends may be left out)"""
    left = 1 if skip == -1 else 0; cnt = n - abs(skip)
    for nm, arr in (('nodes', s.Xs), ('values', s.Ys), ('weights', s.weights)): c.ensure(mkbool(term(arr.n) == term(cnt)), '%s: number of %s' % (label, nm))
    i = skolem_index(c, cnt).t; full = U.cheb_nodes(n, a, b); j = z3.simplify(i + left)
    same_angle(c, Num(j) * Num(PI) / (n - 1), Num(j) * Num(PI) / (n - 1))
    x = s.Xs.at(i)
    even = c.choose(2, 'parity') == 0
    c.assume(mkbool((j % 2 == 0) == z3.BoolVal(even)))
    h = c.int('h'); c.assume(mkbool(j == 2 * h.t + (0 if even else 1)))
    if m is not None:           # where the node was before
        if even: same_angle(c, Num(h.t) * Num(PI) / (m - 1), Num(j) * Num(PI) / (n - 1))
        else: same_angle(c, (1 + 2 * Num(h.t)) * Num(PI) / (2 * m - 2), Num(j) * Num(PI) / (n - 1))
        if even:
            c.ensure(mkbool(z3.And((j == 0) == (h.t == 0), (j == n.t - 1) == (h.t == m.t - 1))), 'ends correspond')
    c.ensure_eq(x, full.at(j), label + ': nodes of the refined grid, in order')
    c.ensure_eq(s.Ys.at(i), f(x), label + ': the value of the function at its node')
    w = s.weights.at(i); base = full_weight(n, j); t = Num(j) * Num(PI) / (n - 1)
    half_angle(c, t)
    c.assume(mathfn.cos(Num(PI)) == -1); c.assume(mathfn.cos(Num(z3.RealVal(0))) == 1)
    c.ensure(mkbool(z3.And(z3.Implies(j == n.t - 1, term(t) == PI), z3.Implies(j == 0, term(t) == 0))), label + ': angles of the ends')
    c.assume(mkbool(z3.And(z3.Implies(j == n.t - 1, mathfn.F['cos'](term(t)) == -1), z3.Implies(j == 0, mathfn.F['cos'](term(t)) == 1))))
    if skip == 0: c.ensure_eq(w, base, label + ': weights of the second kind')
    elif skip == -1:
        c.ensure(mkbool(term(w * (b - a)) == term(If(mkbool(n.t % 2 == 0), -1.0, 1.0) * 2 * base * (full.at(j) - a))), label + ': weights without the left end')
    else:
        c.assume(mathfn.cos(Num(PI) - t) == -mathfn.cos(t)); half_angle(c, Num(PI) - t)
        c.ensure(mkbool(term(w * (b - a)) == term(If(mkbool(n.t % 2 == 0), -1.0, 1.0) * 2 * base * (b - full.at(j)))), label + ': weights without the right end')

@P.contract(['interpolation.ChebyshevInterpolator.init_weights', 'interpolation.ChebyshevInterpolatorNoL.init_weights', 'interpolation.ChebyshevInterpolatorNoR.init_weights', 'interpolation.BarycentricInterpolator.__init__',
             'interpolation.ChebyshevInterpolator.get_nodes', 'interpolation.ChebyshevInterpolatorNoL.get_nodes', 'interpolation.ChebyshevInterpolatorNoR.get_nodes'], name='first_grid')
def first_grid(c):
    a, b = ends(c); m = c.int('m'); c.assume(m >= 3); f = fsym('f')
    name = list(KINDS)[c.choose(3, 'class')]
    check_nodes(c, bare(c, name, m, a, b, f), m, a, b, f, KINDS[name], name)

@P.contract(['interpolation.AdaptiveInterpolator.adaptive_interp', 'interpolation.ChebyshevInterpolator.add_nodes', 'interpolation.ChebyshevInterpolatorNoL.add_nodes', 'interpolation.ChebyshevInterpolatorNoR.add_nodes',
             'interpolation.ChebyshevInterpolator.get_incremental_nodes', 'utils.combine_interpolation_nodes_fast'], name='refined_grid')
def refined_grid(c):
    """from the grid of any m nodes the loop goes to the grid of 2m - 1 nodes with the values of the function, keeping the earlier data"""
    a, b = ends(c); m = c.int('m'); c.assume(m >= 3); f = fsym('f')
    name = list(KINDS)[c.choose(3, 'class')]; skip = KINDS[name]
    s = bare(c, name, m, a, b, f); X0, Y0 = s.Xs, s.Ys
    mon = Monitor(); errs = []
    def accuracy(nx, ny):
        j = skolem_index(c, nx.n).t
        c.ensure(mkbool(term(nx.n) == term(ny.n)), 'accuracy is tested at new nodes'); c.ensure_eq(ny.at(j), f(nx.at(j)), 'accuracy is tested on values of the function')
        errs.append(c.real('err')); return errs[-1]
    s.test_accuracy = accuracy
    maxn = c.int('maxn'); c.assume(maxn >= 2 * m)
    par = SimpleNamespace(maxn=maxn, debug_info=False, debug_plot=False, convergence=None)
    with patched((N, 'convergence_monitor', lambda par=None: mon)): s.adaptive_interp(par)
    c.ensure(s.n == 2 * m - 1, 'count of nodes of the refined grid'); c.ensure(s.err is errs[-1], 'the last error is kept')
    c.ensure(len(mon.seen) == 2 and mon.seen[0][0] is errs[0], 'the controller sees every error')
    i = skolem_index(c, m - abs(skip)).t; k = 2 * i + (1 if skip == -1 else 0)
    c.ensure(And(X0.at(i) == s.Xs.at(k), Y0.at(i) == s.Ys.at(k)), 'earlier data are kept') if skip else None
    check_nodes(c, s, 2 * m - 1, a, b, f, skip, name, m)

@P.contract(['interpolation.AdaptiveInterpolator1.adaptive_interp', 'interpolation.ChebyshevInterpolator1.add_nodes', 'interpolation.ChebyshevInterpolator1.init_weights', 'interpolation.ChebyshevInterpolator1.get_incremental_nodes1'], name='refined_grid_of_the_first_kind')
def refined_grid_of_the_first_kind(c):
    """from m nodes to 3m; the sorting combination is used by its contract (the increasing arrangement of all pairs)"""
    a, b = ends(c); m = c.int('m'); c.assume(m >= 2); f = fsym('f')
    k = N.ChebyshevInterpolator1; s = k.__new__(k); s.a, s.b, s.f, s.interp_class = a, b, f, N.BarycentricInterpolator
    X = s.get_nodes(m); N.BarycentricInterpolator.__init__(s, X, f(X))
    fresh = c.choose(2, 'refined') == 0
    n = m
    if not fresh:
        n = 3 * m
        def combined(ox, oy, nx, ny):
            i = skolem_index(c, m).t; p = skolem_index(c, n).t
            c.ensure(And(ox.at(i) == X.at(i), oy.at(i) == f(X.at(i))), 'the old nodes are combined')
            c.ensure(nx.filt is not None and ny.filt is not None, 'the new nodes are a selection')
            c.ensure(mkbool(z3.And(bterm(nx.filt.at(p)) == (p % 3 != 1), bterm(ny.filt.at(p)) == (p % 3 != 1))), 'the new nodes are all others'); c.ensure_eq(ny.fn(p), f(nx.fn(p)), 'new values')
            return [LazyArr(n, lambda j, o=o, w=w: If(mkbool(j % 3 == 1), o.at(z3.simplify((j - 1) / 3)), w.fn(j))) for o, w in ((ox, nx), (oy, ny))]
        s.test_accuracy = lambda nx, ny: c.real('err')
        par = SimpleNamespace(maxn=c.int('maxn'), debug_info=False, debug_plot=False, convergence=None); c.assume(par.maxn >= 3 * m)
        with patched((N, 'convergence_monitor', lambda par=None: Monitor()), (N, 'combine_interpolation_nodes', combined)): s.adaptive_interp(par)
        c.ensure(s.n == n, 'count of nodes of the refined grid')
    i = skolem_index(c, n).t; full = U.cheb_nodes1(n, a, b)
    for nm, arr in (('nodes', s.Xs), ('values', s.Ys), ('weights', s.weights)): c.ensure(mkbool(term(arr.n) == term(n)), 'number of ' + nm)
    if not fresh:
        h = c.int('h').t; old = c.choose(2, 'old') == 0
        if old:
            c.assume(mkbool(z3.And(i == 3 * h + 1, h >= 0, h < m.t)))
            same_angle(c, (2 * Num(h) + 1) * Num(PI) / (2 * m), (2 * Num(i) + 1) * Num(PI) / (2 * n))
        else: c.assume(mkbool(i % 3 != 1))
    c.ensure_eq(s.Xs.at(i), full.at(i), 'nodes of the refined grid, in order')
    c.ensure_eq(s.Ys.at(i), f(s.Xs.at(i)), 'the value of the function at its node')
    c.ensure_eq(s.weights.at(i), If(mkbool(i % 2 == 0), 1.0, -1.0) * mathfn.sin((2 * Num(i) + 1) * Num(PI) / (2 * n)), 'weights of the first kind')

@P.contract(['utils.combine_interpolation_nodes_fast', 'utils.combine_interpolation_nodes_fast_vector'], name='fast_combination')
def fast_combination(c):
    m = c.int('m'); c.assume(m >= 1)
    n = sym_array(c, 'Xn', m); y = sym_array(c, 'Yn', m)
    k = c.choose(2, 'more old ones')
    o = sym_array(c, 'Xo', m + k); z = sym_array(c, 'Yo', m + k)
    X, Y = U.combine_interpolation_nodes_fast(o, z, n, y)
    c.ensure(And(mkbool(term(X.n) == term(2 * m + k)), mkbool(term(Y.n) == term(2 * m + k))), 'all the nodes are combined')
    i = skolem_index(c, m).t; j = skolem_index(c, m + k).t
    c.ensure(And(X.at(2 * j) == o.at(j), Y.at(2 * j) == z.at(j)), 'old data at even places'); c.ensure(And(X.at(2 * i + 1) == n.at(i), Y.at(2 * i + 1) == y.at(i)), 'new data at odd places')

@P.contract(['utils.combine_interpolation_nodes', 'interpolation.Interpolator.add_nodes', 'interpolation.Interpolator.copyReverse', 'interpolation.Interpolator.getNodes'], name='sorted_combination')
def sorted_combination(c):
    """bounded: up to two old and two new nodes in any order"""
    p, q = 1 + c.choose(2, 'old'), 1 + c.choose(2, 'new')
    xs = [c.real('x%d' % i) for i in range(p + q)]; ys = [c.real('y%d' % i) for i in range(p + q)]
    for i in range(p + q):
        for j in range(i): c.assume(xs[i] != xs[j])
    I = N.Interpolator(arrays.obj_array(xs[:p]), arrays.obj_array(ys[:p]))
    I.add_nodes(arrays.obj_array(xs[p:]), arrays.obj_array(ys[p:]))
    X, Y = I.getNodes()
    c.ensure(len(X) == p + q and len(Y) == p + q, 'all nodes are kept')
    c.ensure(And(*[X[i] < X[i + 1] for i in range(p + q - 1)]), 'nodes are in order')
    for x, y in zip(xs, ys): c.ensure(Or(*[And(X[i] == x, Y[i] == y) for i in range(p + q)]), 'every node keeps its value')
    r = I.copyReverse()
    c.ensure(len(r.Xs) == p + q and And(*[And(u == v, w == t) for u, v, w, t in zip(r.Xs, X[::-1], r.Ys, Y[::-1])]), 'reversed copy')

@P.contract(['interpolation.BarycentricInterpolator.init_weights', 'interpolation.Interpolator.interp_at', 'interpolation.BarycentricInterpolator.add_nodes', 'bary_interp.pyx:bary_interp'], name='polynomial_of_few_nodes')
def polynomial_of_few_nodes(c):
    """bounded: up to three nodes anywhere; the quotient with the product weights is the polynomial through the nodes"""
    n = 1 + c.choose(3, 'n')
    xs = [c.real('x%d' % i) for i in range(n)]; ys = [c.real('y%d' % i) for i in range(n)]; x = c.real('x')
    for i in range(n):
        for j in range(i): c.assume(xs[i] != xs[j])
    X, Y = arrays.obj_array(xs), arrays.obj_array(ys)
    B = N.BarycentricInterpolator(X, Y)
    for i in range(n):
        w = B.weights[i]
        for j in range(n):
            if j != i: w = w * (xs[i] - xs[j])
        c.ensure_eq(w, 1.0, 'weight times the product of the differences')
    lag = N.Interpolator(X, Y)
    want = 0.0
    for i in range(n):
        t = ys[i]
        for j in range(n):
            if j != i: t = t * (x - xs[j]) / (xs[i] - xs[j])
        want = want + t
    rational_identity(c, term(lag(x)), term(want), True, 'Lagrange form')
    at = c.choose(n + 1, 'at')
    if at < n: c.assume(x == xs[at])
    else:
        for q in xs: c.assume(x != q)
    def least(s): raise Unsupported("sum of the weights is not zero")
    K = kernel(c); K.malloc = lambda k: arrays.obj_array([0.0] * k)
    with patched((N, 'bary_interp', K.bary_interp), (N, 'have_Cython', True)):
        class Nonzero(Exception): pass
        def argmin(s): raise Nonzero()
        K.np.argmin = argmin
        try: y = B(x)
        except Nonzero:
            # the sum of the weights over the differences is the inverse of the product of the differences
            d = 0.0; p = 1.0
            for i in range(n): d = d + B.weights[i] / (x - xs[i]); p = p * (x - xs[i])
            rational_identity(c, term(d * p), term(p / p), True, 'the sum of weights does not vanish')
            raise core.PathEnd('excluded')
    if at < n: c.ensure(y == ys[at], 'stored value at a node')
    else: rational_identity(c, term(y), term(want), True, 'polynomial through the nodes')

# ---------------------------------------------------------------- interpolators of transformed functions
class Base:
    """base interpolation by its contract: an unknown function of the transformed argument"""
    def __init__(self, c): self.g = fsym(c.fresh('base')); self.seen = []
    def __call__(self, s, t): self.seen.append(t); return self.g(t)
def shell(cls, f, **k):
    s = cls.__new__(cls); s.wrapped_f = f
    for n, v in k.items(): setattr(s, n, v)
    return s
def points(c, f, x, kind):
    """value at a number, or at that number inside an array of unknown length"""
    if kind == 0: return f(x)
    n = c.int('size'); c.assume(n >= 1); g = sym_array(c, 'others', n); i = skolem_index(c, n).t
    c.assume(g.at(i) == x)
    y = f(g)
    c.ensure(mkbool(term(y.n) == term(n)), 'one value for each argument')
    return y.at(i)

@P.contract(['interpolation.LogTransformInterpolator.interp_at', 'interpolation.LogTransformInterpolator.xt', 'interpolation.LogTransformInterpolator.xtinv', 'interpolation.LogTransformInterpolator.spec_f', 'interpolation.LogTransformInterpolator.getNodes', 'interpolation.LogTransformInterpolator.__init__'], name='logarithmic_tail')
def logarithmic_tail(c):
    f = fsym('f'); a, b = ends(c); x = c.real('x')
    base = Base(c); saved = {}
    def init(self, fun, lo, hi, *r, **k): saved.update(fun=fun, lo=lo, hi=hi); self.a, self.b = lo, hi
    with patched((N.ChebyshevInterpolator, '__init__', init), (N.BarycentricInterpolator, 'interp_at', lambda s, t: base(s, t)), (PR.general, 'parallel', False)):
        s = N.LogTransformInterpolator(f, a, b)
        c.ensure(And(s.orig_a == a, s.orig_b == b), 'interval')
        c.assume(And(x >= a, x <= b)) if c.choose(2, 'inside') == 0 else c.assume(x > b)
        y = points(c, s.interp_at, x, c.choose(2, 'array'))
        if bool(x > b): return c.ensure(y == 0, 'zero beyond the interval')
        t = s.xtinv(x)
        c.ensure_eq(y, mathfn.exp(base.g(t)), 'exponential of the interpolant of logarithms')
        c.ensure_eq(s.xt(t), x, 'the transforms are inverse'); c.ensure(And(saved['lo'] == s.xtinv(a), saved['hi'] == s.xtinv(b), saved['lo'] < saved['hi']), 'interval of the transformed variable')
        c.ensure(And(t >= saved['lo'], t <= saved['hi']), 'transformed argument inside')
        w = c.real('w'); c.ensure(And(s.xt(w) >= a, s.xt(w) <= b), 'nodes stay inside')
        v = f(s.xt(w)); c.assume(v > 0)
        c.ensure_eq(mathfn.exp(saved['fun'](w)), v, 'values survive the transform')
        s.Xs = arrays.obj_array([w]); s.Ys = arrays.obj_array([saved['fun'](w)])
        X, Y = s.getNodes()
        c.ensure(And(X[0] == s.xt(w), Y[0] == f(X[0])), 'reported nodes carry values of the function')

@P.contract(['interpolation.PoleInterpolatorP.__init__', 'interpolation.PoleInterpolatorP.xt', 'interpolation.PoleInterpolatorP.xtinv', 'interpolation.PoleInterpolatorP.spec_f', 'interpolation.PoleInterpolatorP.interp_at', 'interpolation.PoleInterpolatorP.getNodes',
             'interpolation.PoleInterpolatorN.__init__', 'interpolation.PoleInterpolatorN.xt', 'interpolation.PoleInterpolatorN.xtinv', 'interpolation.PoleInterpolatorN.spec_f', 'interpolation.PoleInterpolatorN.interp_at', 'interpolation.PoleInterpolatorN.getNodes'], name='poles')
def poles(c):
    """a function of one sign with a pole at an end: the value at a node is that of the function"""
    f = fsym('f'); a, b = ends(c)
    left = c.choose(2, 'left') == 0; cls = N.PoleInterpolatorP if left else N.PoleInterpolatorN
    base = Base(c); saved = {}
    if c.choose(2, 'end at zero') == 0: c.assume((a if left else b) == 0)
    else: c.assume(abs(a if left else b) > 1e-40)
    def init(self, fun, lo, hi, *r, **k): saved.update(fun=fun, lo=lo, hi=hi); self.a, self.b = lo, hi
    sg = [1.0, -1.0, 0.0][c.choose(3, 'sign')]; mid = f((a + b) / 2)
    c.assume(mid * sg > 0 if sg else mid == 0)
    with patched((N.ChebyshevInterpolator, '__init__', init), (N.BarycentricInterpolator, 'interp_at', lambda s, t: base(s, t)), (PR.general, 'parallel', False)):
        s = cls(f, a, b)
        w = c.real('w')
        x = s.xt(w); v = f(x)
        if left: c.ensure(x <= b, 'nodes stay inside'); c.assume(x > a)
        else: c.ensure(x >= a, 'nodes stay inside'); c.assume(x < b)
        c.assume(v * (sg or 1.0) >= 0)
        Y = saved['fun'](w)
        c.ensure_eq(s.sign * mathfn.expm1(Y), v, 'values survive the transform')
        s.Xs = arrays.obj_array([w]); s.Ys = arrays.obj_array([Y])
        X, Z = s.getNodes()
        c.ensure(And(X[0] == x, Z[0] == f(X[0])), 'reported nodes carry values of the function')
        # the value of the interpolant
        z = c.real('z'); c.assume(And(z > a, z < b))
        t = s.xtinv(z)
        c.assume(base.g(t) == saved['fun'](t))             # at a node of the base interpolant
        c.assume(f(s.xt(t)) * (sg or 1.0) >= 0)
        y = points(c, s.interp_at, z, c.choose(2, 'array'))
        c.ensure(abs(s.xt(t) - z) <= 2 * s.offset, 'the transforms are inverse up to the guard of the pole')
        c.ensure_eq(y, f(s.xt(t)), 'the value of the function at a node')

@P.contract(['interpolation.VarTransformInterpolator.__init__', 'interpolation.VarTransformInterpolator.spec_f', 'interpolation.VarTransformInterpolator.interp_at', 'interpolation.VarTransformInterpolator.getNodes', 'vartransforms.VarTransform.apply_with_inv_transform', 'vartransforms.VarTransform.inv_var_change_with_mask'], name='changed_variable')
def changed_variable(c):
    f = fsym('f'); L = c.real('L'); base = Base(c); saved = {}
    kind = c.choose(4, 'transform')
    vt = [lambda: V.VarTransformReciprocal_PInf(L), lambda: V.VarTransformReciprocal_MInf(L), lambda: V.VarTransformAlgebraic_PMInf(), lambda: V.VarTransformReciprocal_PMInf()][kind]()
    def init(self, fun, lo, hi, *r, **k): saved.update(fun=fun, lo=lo, hi=hi); self.a, self.b = lo, hi
    with patched((N.ChebyshevInterpolator, '__init__', init), (N.BarycentricInterpolator, 'interp_at', lambda s, t: base(s, t)), (PR.general, 'parallel', False), (V, 'equal', Equal(V.equal))):
        s = N.VarTransformInterpolator(f, vt)
        c.ensure(And(saved['lo'] == vt.var_min, saved['hi'] == vt.var_max), 'range of the new variable')
        for q in vt.var_inf: c.ensure(saved['fun'](float(q)) == 0, 'a point that is sent to infinity gives zero')
        t = c.real('t'); c.assume(And(t > vt.var_min, t < vt.var_max))
        if kind == 3: c.assume(t != 0)
        y = points(c, saved['fun'], t, c.choose(2, 'array'))
        c.ensure_eq(y, f(vt.inv_var_change(t)), 'the function of the old variable')
        x = c.real('x')
        if kind == 0: c.assume(x > L)
        if kind == 1: c.assume(x < L)
        c.ensure_eq(s.interp_at(x), base.g(vt.var_change(x)), 'interpolation in the new variable')
        s.Xs = arrays.obj_array([t]); s.Ys = arrays.obj_array([saved['fun'](t)])
        X, Z = s.getNodes()
        c.ensure_eq(Z[0], f(X[0]), 'reported nodes carry values of the function')

@P.contract(['interpolation.PInfInterpolator.interp_at', 'interpolation.MInfInterpolator.interp_at', 'interpolation.MInfInterpolator.spec_f', 'interpolation.PInfInterpolator.getNodes', 'interpolation.MInfInterpolator.getNodes'], name='tails')
def tails(c):
    """the near part up to the joint, the asymptotic part after it; the left tail is the mirror image"""
    near, far = fsym('near'), fsym('far'); x = c.real('x'); J = c.real('J')
    mirror = c.choose(2, 'side') == 1; whole = c.choose(2, 'joint') == 1
    cls = N.MInfInterpolator if mirror else N.PInfInterpolator
    w = c.real('w'); u = c.real('u')
    class Part:
        def __init__(self, g, at): self.g, self.at = g, at
        def __call__(self, t): return self.g(t)
        def getNodes(self): return arrays.obj_array([self.at]), arrays.obj_array([self.g(self.at)])
    s = cls.__new__(cls); s.x_vb_max = None if whole else J
    s.vb = Part(near, w); s.vl = None if whole else Part(far, u)
    z = -x if mirror else x
    y = points(c, s.interp_at, x, c.choose(2, 'array'))
    c.ensure_eq(y, near(z) if whole else If(z <= J, near(z), far(z)), 'value of the part of the argument')
    X, Y = s.getNodes()
    sg = -1 if mirror else 1
    c.ensure(len(X) == (1 if whole else 2), 'nodes of all parts')
    c.ensure(And(X[0] == sg * w, Y[0] == near(w)), 'nodes of the near part')
    if not whole: c.ensure(And(X[1] == sg * u, Y[1] == far(u)), 'nodes of the far part')
    if mirror:
        f = fsym('f'); s.wrapped_f = f
        c.ensure_eq(s.spec_f(x), f(-x), 'mirror image')
