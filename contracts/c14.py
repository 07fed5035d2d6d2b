"""C14  discrete laws and mixtures: masses of operations, weights of the families, mixtures"""
import itertools
from pyvc.spec import *
from pyvc.integ import check_integrals
from . import c04 as sums
P = Registry()
S, D, A = sums.S, sums.D, sums.A
ST = mod('pacal.standard_distr')
M = mathfn

def atoms_of(c, n, m, distinct=True):
    xs = [c.real('%s%d' % (n, i)) for i in range(m)]; ps = [c.real('%sp%d' % (n, i)) for i in range(m)]
    for p in ps: c.assume(p > 0)
    if distinct:
        for i in range(m):
            for j in range(i): c.assume(abs(xs[i] - xs[j]) > 1e-3)
    return xs, ps

def mass_at(segs, y):
    t = 0.0
    for s in segs:
        if s.isDirac(): t = t + arrays.select(s.a == y, s.f, 0.0)
    return t

def no_density(c, segs, label):
    for s in segs:
        if not s.isDirac():
            x = c.real('x')
            if bool(inside(x, s.a, s.b)):
                v = s.f(x)
                while hasattr(v, '__len__'): v = v[0]
                c.ensure(v == 0, label)

# ---------------------------------------------------------------- the discrete law itself: atoms in any order, repeated or not
@P.contract(['distr.DiscreteDistr.__init__', 'distr.DiscreteDistr.init_piecewise_pdf', 'distr.DiscreteDistr.pdf', 'segments.PiecewiseFunction.addSegment'])
def discrete_law(c):
    m = 1 + c.choose(3, 'n')
    xs = [c.real('x%d' % i) for i in range(m)]; ps = [c.real('p%d' % i) for i in range(m)]
    for p in ps: c.assume(p > 0)
    for i in range(m):
        for j in range(i): c.assume(Or(xs[i] == xs[j], abs(xs[i] - xs[j]) > 1e-3))
    d = D.DiscreteDistr(list(xs), list(ps))
    segs = d.get_piecewise_pdf().segments
    y = c.real('y')
    want = sum([arrays.select(x == y, p, 0.0) for x, p in zip(xs, ps)], 0.0)
    c.ensure_eq(mass_at(segs, y), want, 'mass of a point')
    t, v = at_array(c, d.pdf)
    c.ensure_eq(v, sum([arrays.select(x == t, p, 0.0) for x, p in zip(xs, ps)], 0.0), 'probabilities of points')
    for s in segs:
        c.ensure(s.a < s.b if not s.isDirac() else s.a == s.b, 'pieces are not empty')
        if not s.isDirac(): c.ensure(s.f(y) == 0, 'no density between the atoms')
    tot = sum([s.f for s in segs if s.isDirac()], 0.0)
    c.ensure_eq(tot, sum(ps, 0.0), 'total mass')

@P.contract(['distr.ConstDistr.__init__', 'distr.ConstDistr.pdf', 'standard_distr.ZeroDistr.__init__', 'standard_distr.OneDistr.__init__', 'standard_distr.BernoulliDistr.__init__'])
def constants(c):
    k = c.choose(4, 'law')
    v = c.real('c'); p = c.real('p'); c.assume(And(p > 0, p < 1))
    d, want = [lambda: (D.ConstDistr(v), [(v, 1.0)]), lambda: (ST.ZeroDistr(), [(0.0, 1.0)]), lambda: (ST.OneDistr(), [(1.0, 1.0)]), lambda: (ST.BernoulliDistr(p), [(0.0, 1 - p), (1.0, p)])][k]()
    y = c.real('y')
    w = sum([arrays.select(x == y, q, 0.0) for x, q in want], 0.0)
    segs = d.get_piecewise_pdf().segments
    c.ensure_eq(mass_at(segs, y), w, 'mass of a point')
    t, v = at_array(c, d.pdf)
    c.ensure_eq(v, sum([arrays.select(x == t, q, 0.0) for x, q in want], 0.0), 'probabilities of points')
    no_density(c, segs, 'no density')

# ---------------------------------------------------------------- sampling: thresholds of the uniform variable
@P.contract(['distr.DiscreteDistr.rand_raw', 'distr.ConstDistr.rand_raw'])
def discrete_sample(c):
    m = 1 + c.choose(3, 'n')
    xs, ps = atoms_of(c, 'x', m)
    for i in range(1, m): c.assume(xs[i - 1] < xs[i])
    d = D.DiscreteDistr(list(xs), list(ps))
    c.ensure(all(a is b for a, b in zip(d.xi, xs)) or And(*[a == b for a, b in zip(d.xi, xs)]), 'atoms in order')
    acc = 0.0
    for i in range(m):
        acc = acc + ps[i]
        c.ensure_eq(d.cumP[i], acc, 'cumulative weights')
    v = c.real('c')
    k = D.ConstDistr(v)
    c.ensure_eq(k.rand_raw(None), v, 'a sample of a constant')

# ---------------------------------------------------------------- operations
OPS = {'sum': (lambda p, q: p + q, lambda x, y: x + y), 'difference': (lambda p, q: p - q, lambda x, y: x - y), 'product': (lambda p, q: p * q, lambda x, y: x * y),
       'quotient': (lambda p, q: p / q, lambda x, y: x / y), 'minimum': (lambda p, q: D.min(p, q), lambda x, y: arrays.select(x <= y, x, y)), 'maximum': (lambda p, q: D.max(p, q), lambda x, y: arrays.select(x <= y, y, x))}
CALLEES = {'sum': ['indeparith.conv'], 'difference': ['indeparith.conv'], 'product': ['indeparith.convprod'], 'quotient': ['indeparith.convdiv'], 'minimum': ['indeparith.convmin', 'indeparith._probDiracsInMin'], 'maximum': ['indeparith.convmax', 'indeparith._probDiracsInMax']}
SIZES = [(1, 1), (1, 2), (2, 1), (2, 2)]
def operation(name, n, m):
    make, fn = OPS[name]
    @P.contract(['indeparith.convdiracs', 'distr.DiscreteDistr.init_piecewise_pdf'] + CALLEES[name], name='discrete_%s[%d x %d]' % (name, n, m))
    def h(c):
        xs, ps = atoms_of(c, 'x', n); ys, qs = atoms_of(c, 'y', m)
        if name == 'quotient':
            for y in ys: c.assume(y != 0)
        pairs = [(fn(x, y), p * q) for x, p in zip(xs, ps) for y, q in zip(ys, qs)]
        for (u, _), (v, _) in itertools.combinations(pairs, 2): c.assume(Or(u == v, abs(u - v) > 1e-3))
        if name == 'quotient':
            for v, _ in pairs: c.assume(Or(v == 0, abs(v) > 1e-3))
        if name in ('minimum', 'maximum'):
            for x in xs:
                for y in ys: c.assume(Or(x == y, abs(x - y) > 1e-3))
        # the laws are probability laws
        if name in ('minimum', 'maximum'):
            c.assume(sum(ps, 0.0) == 1); c.assume(sum(qs, 0.0) == 1)
        with patched((A, 'testPole', lambda *a, **k: False), (A.params.pole_detection, 'continuity_eps', -INF), (A, 'get_parmap', lambda: (lambda F, zs: [F(v) for v in zs])), *no_interpolation(S)):
            r = make(D.DiscreteDistr(list(xs), list(ps)), D.DiscreteDistr(list(ys), list(qs))).get_piecewise_pdf()
            segs = list(r.segments)
            y = c.real('z')
            want = sum([arrays.select(v == y, w, 0.0) for v, w in pairs], 0.0)
            check_integrals(c, mass_at(segs, y), [], name + ': mass of every point', const=want)
            check_integrals(c, sum([s.f for s in segs if s.isDirac()], 0.0), [], name + ': total mass', const=sum(ps, 0.0) * sum(qs, 0.0))
for name in OPS:
    for n, m in SIZES[:3 if name in ('product', 'quotient') else 4]: operation(name, n, m)

# ---------------------------------------------------------------- mixtures
SHAPES = [(('finite',), ('finite',)), (('dirac',), ('finite',)), (('dirac',), ('dirac',)), (('minf', 'pinf'), ('dirac',)), (('lpole',), ('dirac',)), (('dirac', 'finite'), ('pinf',)), (('finite',), ('dirac',), ('dirac',)), (('finite',), ('finite',), ('dirac',))]
def mixture(i):
    kinds = SHAPES[i]
    @P.contract(['standard_distr.MixDistr.init_piecewise_pdf', 'standard_distr.ExtremeMixDistr.init_piecewise_pdf', 'segments.PiecewiseFunction.operation', 'segments.PiecewiseDistribution.__add__', 'segments.PiecewiseDistribution.__rmul__'], name='mixture[%s]' % ' | '.join('+'.join(k) for k in kinds))
    def h(c):
        cls = [ST.MixDistr, ST.ExtremeMixDistr][c.choose(2, 'class')]
        comps, laws = [], []
        for j, ks in enumerate(kinds):
            p, segs = few_pieces(c, S, 's%d' % j, ks)
            comps.append(segs); laws.append(sums.law(c, p, 'X%d' % j))
        ws = [c.real('w%d' % j) for j in range(len(kinds))]
        for w in ws: c.assume(w > 0)
        at = [s._a for segs in comps for s in segs if s._k == 'dirac']
        ends = [e for segs in comps for s in segs for e in (s._a, s._b) if not isinf(e)]
        for e, f in itertools.combinations(ends, 2):
            if e is not f: c.assume(Or(e == f, abs(e - f) > 1e-3))
        args = (list(ws), laws) + (([],) if cls is ST.ExtremeMixDistr else ())
        r = cls(*args).get_piecewise_pdf()
        y = c.real('y')
        want = sum([arrays.select(s._a == y, w * s._f, 0.0) for w, segs in zip(ws, comps) for s in segs if s._k == 'dirac'], 0.0)
        c.ensure_eq(mass_at(r.segments, y), want, 'mass of every point')
        x = c.real('x')
        for e in ends: c.assume(x != e)
        v = r(x)
        c.ensure_eq(v, sum([w * density_of(segs, x) for w, segs in zip(ws, comps)], 0.0), 'density of the mixture')
for i in range(len(SHAPES)): mixture(i)

# ---------------------------------------------------------------- families
@P.contract('standard_distr.BinomialDistr.__init__')
def binomial_weights(c):
    from math import comb
    n = c.choose(7, 'n')
    p = c.real('p'); c.assume(And(p >= 0, p <= 1))
    k = c.choose(3, 'p at the end')
    if k == 1: c.assume(p == 0)
    elif k == 2: c.assume(p == 1)
    else: c.assume(And(p > 0, p < 1))
    d = ST.BinomialDistr(n, p)
    c.ensure([int(x) for x in d.xi] == list(range(n + 1)), 'values 0..n')
    for i in range(n + 1):
        w = float(comb(n, i))
        for _ in range(i): w = w * p
        for _ in range(n - i): w = w * (1 - p)
        c.ensure_eq(d.pi[i], w, 'weight of i')

@P.contract('standard_distr.PoissonDistr.__init__')
def poisson_weights(c):
    lam, eps = c.real('lam'), c.real('eps')
    c.assume(And(lam > 0, eps > 0))
    E = M.exp(-lam)
    c.assume(1 - E * (1 + lam + lam * lam / 2 + lam * lam * lam / 6) < eps)
    d = ST.PoissonDistr(lam, trunk_eps=eps)
    f = 1.0; w = E
    for i in range(len(d.xi)):
        if i: w = w * lam / i
        c.ensure(d.xi[i] == i, 'values in order')
        c.ensure_eq(d.pi[i], w, 'weight of k')
    c.ensure(Or(1 - sum(list(d.pi), 0.0) < eps, And(len(d.xi) - 1 > 2 * lam, d.pi[-1] <= eps / 2)), 'stops only when the rest is below the tolerance')

@P.contract('standard_distr.TruncDiscreteFunDistr.__init__')
def truncated_weights(c):
    n = 1 + c.choose(3, 'n')
    ps = [c.real('p%d' % i) for i in range(n)]
    eps = c.real('eps'); c.assume(And(eps > 0, eps < 1))
    for p in ps: c.assume(p > 0)
    t = sum(ps, 0.0)
    c.assume(abs(t - 1) < eps)
    for i in range(1, n): c.assume(abs(sum(ps[:i], 0.0) - 1) >= eps)
    d = ST.TruncDiscreteFunDistr(fun=lambda k: ps[int(k)] if k < n else 0.0, trunk_eps=eps)
    c.ensure(len(d.xi) == n and [int(x) for x in d.xi] == list(range(n)), 'values 0..k_max')
    for p, q in zip(ps, d.pi): c.ensure_eq(q * t, p, 'weights proportional to the sequence')
