"""C13  joint samples: one draw per ancestor, every derived value is its operation applied in the same draw"""
import operator
from pyvc.spec import *
from . import c04 as sums
P = Registry()
S, D = sums.S, sums.D
ST = mod('pacal.standard_distr')
M = mathfn
RV = mod('pacal.rv')

class Law(D.Distr):
    """an ancestor: arbitrary law whose sampler is recorded; each draw is an array of n arbitrary values (or a scalar)"""
    def __init__(self, c, name, kind, lo=None, hi=None):
        self._draws = []
        self._kind, self._n, self._lo, self._hi = kind, name, lo, hi
        self._c = c
        super(Law, self).__init__()
    def range(self): return (-INF if self._lo is None else self._lo, INF if self._hi is None else self._hi)
    def is_nonneg(self): return self._lo is not None and self._lo >= 0
    def rand_raw(self, n=None):
        c = self._c
        nm = '%s_%d' % (self._n, len(self._draws))
        v = c.real(nm) if self._kind == 'scalar' else sym_array(c, nm)
        if self._kind != 'scalar': c.assume(v.n == n)
        self._draws.append((n, v))
        return v
    def getName(self): return self._n
    def init_piecewise_pdf(self):
        p = S.PiecewiseDistribution([]); p.addSegment(S.Segment(0.5, 1.5, lambda x: 1.0 + 0 * x)); self.piecewise_pdf = p

def track(d, seen=None):
    seen = set() if seen is None else seen
    if id(d) in seen: return
    seen.add(id(d)); d.indep = False
    for k in ('d', 'd1', 'd2'):
        e = getattr(d, k, None)
        if isinstance(e, D.Distr): track(e, seen)

def at(c, v, i): return v.at(i) if hasattr(v, 'at') else v

# ---------------------------------------------------------------- the cache protocol
@P.contract('distr.Distr.rand')
def ancestor(c):
    indep = c.choose(2, 'tracking') == 0
    X = Law(c, 'x', 'array'); X.indep = indep
    n = c.int('n'); c.assume(n >= 1)
    other = object()
    cache = [None, {}, {'other': other}][c.choose(3, 'cache')]
    a = X.rand(n, cache)
    c.ensure(len(X._draws) == 1 and a is X._draws[0][1] and X._draws[0][0] is n, 'one draw of n values')
    if cache is not None:
        c.ensure(cache.get('other', other) is other and set(cache) <= {'other', X.id()}, 'other entries of the draw are kept')
        if indep: c.ensure(X.id() not in cache, 'a law that is not tracked leaves the joint draw alone')
        else: c.ensure(cache.get(X.id()) is a, 'the draw is kept for the joint sample')
    b = X.rand(n, cache)
    if indep or cache is None: c.ensure(len(X._draws) == 2 and b is X._draws[1][1], 'a new draw')
    else: c.ensure(len(X._draws) == 1 and b is a, 'the same draw')
    b = X.rand(n, {})
    c.ensure(b is X._draws[-1][1] and b is not a, 'another joint sample, another draw')
    Y = Law(c, 'y', 'array'); Y.indep = False
    k = {}
    X.indep = False
    x, y = X.rand(n, k), Y.rand(n, k)
    c.ensure(x is not y and len(Y._draws) == 1 and k.get(X.id()) is x and k.get(Y.id()) is y, 'different ancestors, different draws')

@P.contract('distr.OpDistr.rand')
def derived(c):
    indep = c.choose(2, 'tracking') == 0
    calls = []
    class E(D.OpDistr):
        def rand_op(self, n, cache):
            calls.append((n, cache)); return ('value', len(calls))
    e = E([]); e.indep = indep
    n = c.int('n'); c.assume(n >= 1)
    other = object()
    cache = [None, {}, {'other': other}][c.choose(3, 'cache')]
    a = e.rand(n, cache)
    c.ensure(len(calls) == 1 and calls[0][0] is n and a == ('value', 1), 'evaluated once')
    if indep:
        c.ensure(calls[0][1] is None and (cache is None or set(cache) <= {'other'}), 'without tracking the operands are drawn afresh')
    else:
        c.ensure(isinstance(calls[0][1], dict) and (cache is None or calls[0][1] is cache), 'the operands share the joint draw')
        c.ensure(calls[0][1].get(e.id()) == a, 'the value is kept for the joint sample')
        if cache is not None: c.ensure(cache.get('other', other) is other and set(cache) <= {'other', e.id()}, 'other entries of the draw are kept')
    b = e.rand(n, cache)
    if indep or cache is None: c.ensure(len(calls) == 2 and b == ('value', 2), 'evaluated again')
    else: c.ensure(len(calls) == 1 and b is a, 'the same value')

# ---------------------------------------------------------------- operations
def ite(q, a, b): return arrays.select(q, a, b)
def sgn(x): return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))
PI = 3.141592653589793
UNARY = [('-X', operator.neg, lambda x: -x, None), ('abs(X)', abs, lambda x: ite(x >= 0, x, -x), None), ('X+3', lambda d: d + 3, lambda x: x + 3, None), ('3+X', lambda d: 3 + d, lambda x: x + 3, None), ('X-3', lambda d: d - 3, lambda x: x - 3, None), ('3-X', lambda d: 3 - d, lambda x: 3 - x, None),
         ('-2*X', lambda d: -2 * d, lambda x: -2 * x, None), ('X*2.5', lambda d: d * 2.5, lambda x: x * 2.5, None), ('X/4', lambda d: d / 4, lambda x: x / 4, None), ('X**2', lambda d: d ** 2, lambda x: x * x, None), ('X**1', lambda d: d ** 1, lambda x: x, None),
         ('X**3', lambda d: d ** 3, lambda x: x * x * x, 'pos'), ('X**-1', lambda d: d ** -1, lambda x: 1 / x, 'pos'), ('X**0.5', lambda d: d ** .5, lambda x: M.sqrt(x), 'pos'), ('X**1.7', lambda d: d ** 1.7, lambda x: M.power(x, 1.7), 'pos'), ('2**X', lambda d: 2 ** d, lambda x: M.exp(x * M.log(2.0)), None), ('1/X', lambda d: 1 / d, lambda x: 1 / x, 'nonzero'), ('-2.5/X', lambda d: -2.5 / d, lambda x: -2.5 / x, 'nonzero'),
         ('exp(X)', lambda d: D.exp(d), lambda x: M.exp(x), None), ('log(X)', lambda d: D.log(d), lambda x: M.log(x), 'pos'), ('sqrt(X)', lambda d: D.sqrt(d), lambda x: M.sqrt(x), 'pos'), ('atan(X)', lambda d: D.atan(d), lambda x: M.arctan(x), None), ('sign(X)', lambda d: D.sign(d), sgn, None),
         ('sin(X)', lambda d: D.sin(d), lambda x: M.sin(x), (-PI / 2, 1.5 * PI)), ('cos(X)', lambda d: D.cos(d), lambda x: M.cos(x), (0.0, 2 * PI)), ('tan(X)', lambda d: D.tan(d), lambda x: M.tan(x), (-1.5, 1.5)),
         ('min(X,2)', lambda d: D.min(d, 2), lambda x: ite(x <= 2, x, 2), None), ('max(2,X)', lambda d: D.max(2, d), lambda x: ite(x <= 2, 2, x), None), ('2-abs(X)', lambda d: 2 - abs(d), lambda x: 2 - ite(x >= 0, x, -x), None), ('exp(-X)**2', lambda d: D.exp(-d) ** 2, lambda x: M.exp(-x) * M.exp(-x), None)]
def unary(name, make, fn, dom):
    @P.contract(['distr.OpDistr.rand', 'distr.FuncDistr.rand_op', 'distr.ShiftedScaledDistr.rand_op', 'distr.FuncNoninjectiveDistr.rand_op', 'distr.InvDistr.rand_op', 'distr.AbsDistr.rand_op', 'distr.SquareDistr.rand_op', 'distr.SignDistr.rand_op'], name='sample of ' + name)
    def h(c):
        kind = ['array', 'scalar'][c.choose(2, 'size')]
        X = Law(c, 'x', kind, lo=0.5 if dom in ('pos', 'nonzero') else None)
        e = make(X)
        track(e)
        n = c.int('n') if kind == 'array' else None
        if n is not None: c.assume(n >= 1)
        cache = {}
        i = skolem_index(c, n) if n is not None else None
        # the draws are arbitrary, inside of the support
        raw = X.rand_raw
        def bounded(n=None):
            v = raw(n); x = at(c, v, i)
            if dom == 'pos': c.assume(x > 0)
            elif dom == 'nonzero': c.assume(x != 0)
            elif isinstance(dom, tuple): c.assume(And(x > dom[0], x < dom[1]))
            return v
        X.rand_raw = bounded
        r = e.rand(n, cache)
        if isinstance(r, int) or not isinstance(e, D.Distr): return
        c.ensure(len(X._draws) == 1, name + ': the ancestor is drawn once')
        x = at(c, X._draws[0][1], i)
        if dom == 'pos':       # powers: identities of exp and log
            L = term(M.log(x)); E = mathfn.F['exp']
            c.axiom(E(3 * L) == term(x * x * x)); c.axiom(E(L / 2) == term(M.sqrt(x))); c.axiom(E(-L) == term(1 / x))
        c.ensure_eq(at(c, r, i), fn(x), name + ': value of the function in the same draw')
        c.ensure(X.rand(n, cache) is X._draws[0][1] and len(X._draws) == 1, name + ': the draw of the ancestor belongs to the joint sample')
        c.ensure(e.rand(n, cache) is r, name + ': the same value again')
for u in UNARY: unary(*u)

BINARY = [('X+Y', operator.add, lambda x, y: x + y), ('X-Y', operator.sub, lambda x, y: x - y), ('X*Y', operator.mul, lambda x, y: x * y), ('X/Y', operator.truediv, lambda x, y: x / y),
          ('min(X,Y)', lambda a, b: D.min(a, b), lambda x, y: ite(x <= y, x, y)), ('max(X,Y)', lambda a, b: D.max(a, b), lambda x, y: ite(x <= y, y, x)),
          ('(X+Y)*(X-Y)', lambda a, b: (a + b) * (a - b), lambda x, y: (x + y) * (x - y)), ('X/(X+Y)', lambda a, b: a / (a + b), lambda x, y: x / (x + y)), ('max(X,Y)-min(X,Y)', lambda a, b: D.max(a, b) - D.min(a, b), lambda x, y: ite(x <= y, y - x, x - y)), ('X+X', lambda a, b: a + a, lambda x, y: x + x), ('exp(X)*abs(Y)', lambda a, b: D.exp(a) * abs(b), lambda x, y: M.exp(x) * ite(y >= 0, y, -y))]
def binary(name, make, fn):
    @P.contract(['distr.OpDistr.rand', 'distr.SumDistr.rand_op', 'distr.SubDistr.rand_op', 'distr.MulDistr.rand_op', 'distr.DivDistr.rand_op', 'distr.MinDistr.rand_op', 'distr.MaxDistr.rand_op'], name='sample of ' + name)
    def h(c):
        kind = ['array', 'scalar'][c.choose(2, 'size')]
        tracked = c.choose(2, 'tracking') == 0
        with patched((D.params.general, 'warn_on_dependent', False)):
            X, Y = Law(c, 'x', kind), Law(c, 'y', kind)
            e = make(X, Y)
        n = c.int('n') if kind == 'array' else None
        if n is not None: c.assume(n >= 1)
        i = skolem_index(c, n) if n is not None else None
        raws = [L.rand_raw for L in (X, Y)]
        def pos(raw):
            def f(n=None):
                v = raw(n); c.assume(at(c, v, i) > 0); return v
            return f
        X.rand_raw, Y.rand_raw = pos(raws[0]), pos(raws[1])
        if not tracked:
            cache = {}
            r = e.rand(n, cache)
            c.ensure(not cache, name + ': without tracking nothing is shared')
            if name in ('X+Y', 'X*Y', 'X-Y'):
                c.ensure(len(X._draws) == 1 and len(Y._draws) == 1, name + ': one draw of each operand')
                c.ensure_eq(at(c, r, i), fn(at(c, X._draws[0][1], i), at(c, Y._draws[0][1], i)), name + ': value of the operation')
            return
        track(e)
        cache = {}
        k = c.choose(3, 'order')
        if k == 1: X.rand(n, cache)
        if k == 2: Y.rand(n, cache); X.rand(n, cache)
        r = e.rand(n, cache)
        x = X.rand(n, cache)
        y = Y.rand(n, cache)
        c.ensure(len(X._draws) == 1 and (name == 'X+X' or len(Y._draws) == 1), name + ': every ancestor is drawn once')
        c.ensure_eq(at(c, r, i), fn(at(c, x, i), at(c, y, i)), name + ': value of the operation in the same draw')
for b in BINARY: binary(*b)

# ---------------------------------------------------------------- samplers
@P.contract(['distr.DiscreteDistr.rand_raw'])
def discrete(c):
    m = 1 + c.choose(3, 'n')
    xs = [c.real('x%d' % i) for i in range(m)]; ps = [c.real('p%d' % i) for i in range(m)]
    for p in ps: c.assume(p > 0)
    for i in range(1, m): c.assume(xs[i - 1] + 1e-3 < xs[i])
    d = D.DiscreteDistr(list(xs), list(ps))
    u = c.real('u'); c.assume(And(u >= 0, u < 1))
    if m > 1: c.assume(sum(ps, 0.0) == 1)
    with patched((D, 'uniform', lambda a, b, n=None: u)):
        r = d.rand_raw(None)
    acc = 0.0; want = xs[-1]
    for x, p in reversed(list(zip(xs, ps))): pass
    lo = 0.0
    for x, p in zip(xs, ps):
        hi = lo + p
        c.ensure(Or(Not(And(u > lo, u < hi)), r == x), 'a point is taken exactly on an interval of its probability')
        lo = hi

@P.contract(['distr.Distr.rand_invcdf'])
def inverse_cdf(c):
    inv = c.real('inv'); u = c.real('u')
    calls = []
    class X(D.Distr):
        def get_piecewise_invcdf(self, use_interpolated=True):
            def g(y): calls.append(y); return inv
            return g
    n = c.int('n'); seen = []
    def uni(a, b, k=None): seen.append((a, b, k)); return u
    with patched((D, 'uniform', uni)): r = X().rand_invcdf(n)
    c.ensure(len(seen) == 1 and seen[0][0] == 0 and seen[0][1] == 1 and seen[0][2] is n, 'one uniform sample of size n')
    c.ensure(len(calls) == 1 and calls[0] is u and r is inv, 'the quantile of the uniform sample')

@P.contract(['standard_distr.MixDistr.rand_raw'])
def mixture(c):
    import numpy as np, itertools
    m = 1 + c.choose(3, 'components'); n = 1 + c.choose(3, 'n')
    idx = [c.choose(m, 'i%d' % j) for j in range(n)]
    ls = []
    class X(D.Distr):
        def __init__(self, k): self.k = k; self.v = []; super(X, self).__init__()
        def rand(self, n=None, cache=None):
            v = [1000.0 * (self.k + 1) + len(self.v) + j for j in range(int(n))]
            self.v += v
            return np.array(v)
    ws = [1.0 / m] * m
    cs = [X(k) for k in range(m)]
    seen = []
    def ch(a, size=None, replace=True, p=None): seen.append((a, size, list(p))); return np.array(idx)
    with patched((ST, 'choice', ch)): r = ST.MixDistr(ws, cs).rand_raw(n)
    c.ensure(len(seen) == 1 and seen[0][0] == m and int(np.prod(seen[0][1])) == n and seen[0][2] == ws, 'components are chosen with the weights')
    c.ensure(len(r) == n and all(float(v) // 1000 - 1 == k for v, k in zip(r, idx)), 'every value comes from the chosen component')
    c.ensure(len(set(float(v) for v in r)) == n, 'every value is a draw of its own')
