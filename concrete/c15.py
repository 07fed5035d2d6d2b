"""C15 n-fold combinations and order statistics on the running code"""
import operator
import numpy as np
import pacal as P
from pacal.stats import iid_ops as I
from pacal import params
from scipy import stats, special
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, random_law
D = Driver()

class Word:
    """free semigroup: the sequence of the copies used"""
    def __init__(self, l): self.l = tuple(l)
def cat(a, b): return Word(a.l + b.l)

@D.check
def copies(rep, rng):
    for n in list(range(1, 70)) + [int(v) for v in rng.integers(70, 3000, rep.scale(10))]:
        x = Word('x')
        r = I.iid_op(x, n, cat)
        rep.ok(len(r.l) == n, 'number of copies', 'iid_op n=%d' % n, n, len(r.l))
        a = I.iid_op(x, n, cat, all=True)
        rep.ok([len(w.l) for w in a] == list(range(1, n + 1)), 'number of copies in every partial result', 'iid_op all n=%d' % n, n, [len(w.l) for w in a][-5:]) if n < 300 else None
        def two(i, a, j, b):
            if len(a.l) != i or len(b.l) != j: raise AssertionError('sizes %d %d passed for %d %d' % (i, j, len(a.l), len(b.l)))
            return cat(a, b)
        try: k = len(I.iid_op2(x, n, two).l)
        except Exception as e: k = repr(e)
        rep.ok(k == n, 'number of copies (weighted)', 'iid_op2 n=%d' % n, n, k)
        try: k = [len(w.l) for w in I.iid_op2(x, n, two, all=True)] if n < 300 else list(range(1, n + 1))
        except Exception as e: k = repr(e)
        rep.ok(k == list(range(1, n + 1)), 'number of copies (weighted, all)', 'iid_op2 n=%d' % n, n, k)
    for w in (True, False):
        old = params.general.warn_on_dependent
        params.general.warn_on_dependent = w
        def bad(a, b): raise ValueError('no')
        for f, o in ((I.iid_op, bad), (I.iid_op2, lambda i, a, j, b: bad(a, b)), (I.iid_op, cat), (I.iid_op2, two)):
            for al in (False, True):
                try: f(Word('x'), 5, o, al)
                except ValueError: pass
                rep.ok(params.general.warn_on_dependent == w, 'the setting is restored', '%s all=%s' % (f.__name__, al), w, params.general.warn_on_dependent)
                params.general.warn_on_dependent = w
        params.general.warn_on_dependent = old

def same(rep, d, pdf, zs, inp, rtol=1e-5, atol=1e-7):
    f = d.get_piecewise_pdf()
    rep.close([float(np.squeeze(f(z))) for z in zs], [float(pdf(z)) for z in zs], 'density', '%s at %s' % (inp, list(zs)), rtol=rtol, atol=atol)
    rep.close(float(d.int_error()), 0.0, 'total mass', inp, rtol=0, atol=1e-6)

def irwin_hall(n, x):
    return sum((-1) ** k * special.comb(n, k) * (x - k) ** (n - 1) for k in range(n + 1) if x > k) / special.factorial(n - 1) if 0 < x < n else 0.0

@D.check
def folds(rep, rng):
    ns = [1, 2, 3, int(rng.integers(4, 8))] + ([9, 12] if rep.thorough else [])
    for n in ns:
        m, s = float(rng.normal()), float(rng.uniform(.5, 2))
        zs = [float(v) for v in rng.normal(n * m, s * np.sqrt(n), 4)]
        same(rep, I.iid_sum(P.NormalDistr(m, s), n), lambda z: stats.norm.pdf(z, n * m, s * np.sqrt(n)), zs, 'iid_sum Normal(%r,%r) n=%d' % (m, s, n))
        same(rep, I.iid_average(P.NormalDistr(m, s), n), lambda z: stats.norm.pdf(z, m, s / np.sqrt(n)), [z / n for z in zs], 'iid_average Normal(%r,%r) n=%d' % (m, s, n))
        lam = float(rng.uniform(.5, 2))
        zs = [float(v) for v in rng.gamma(n, 1 / lam, 4)]
        same(rep, I.iid_sum(P.ExponentialDistr(lam), n), lambda z: stats.gamma.pdf(z, n, scale=1 / lam), zs, 'iid_sum Exp(%r) n=%d' % (lam, n))
        same(rep, I.iid_min(P.ExponentialDistr(lam), n), lambda z: stats.expon.pdf(z, scale=1 / lam / n), [z / n / n for z in zs], 'iid_min Exp(%r) n=%d' % (lam, n))
        zs = [float(v) for v in rng.uniform(0, n, 4) if abs(v - round(v)) > 1e-2]
        same(rep, I.iid_sum(P.UniformDistr(0, 1), n), lambda z: irwin_hall(n, z), zs, 'iid_sum U(0,1) n=%d' % n)
        zs = [float(v) for v in rng.uniform(.02, .98, 4)]
        same(rep, I.iid_max(P.UniformDistr(0, 1), n), lambda z: n * z ** (n - 1), zs, 'iid_max U n=%d' % n)
        same(rep, I.iid_prod(P.UniformDistr(0, 1), n), lambda z: (-np.log(z)) ** (n - 1) / special.factorial(n - 1), zs, 'iid_prod U n=%d' % n)
        if n <= 4: same(rep, I.iid_average_geom(P.UniformDistr(0, 1), n), lambda z: n * z ** (n - 1) * (-n * np.log(z)) ** (n - 1) / special.factorial(n - 1), zs, 'iid_average_geom U n=%d' % n)
    n = 5
    for nm, f, pdf in [('iid_sum', I.iid_sum, lambda k, z: irwin_hall(k, z)), ('iid_average', I.iid_average, lambda k, z: k * irwin_hall(k, k * z)), ('iid_max', I.iid_max, lambda k, z: k * z ** (k - 1)), ('iid_min', I.iid_min, lambda k, z: k * (1 - z) ** (k - 1)), ('iid_prod', I.iid_prod, lambda k, z: (-np.log(z)) ** (k - 1) / special.factorial(k - 1))]:
        A = f(P.UniformDistr(0, 1), n, all=True)
        rep.ok(len(A) == n, 'number of results', nm, n, len(A))
        for k, d in enumerate(A, 1):
            z = float(rng.uniform(.03, .3))
            same(rep, d, lambda z: pdf(k, z), [z], '%s U all %d of %d' % (nm, k, n))
    for k, d in enumerate(I.iid_average_geom(P.UniformDistr(0, 1), 3, all=True), 1):
        z = float(rng.uniform(.2, .8))
        same(rep, d, lambda z: k * z ** (k - 1) * (-k * np.log(z)) ** (k - 1) / special.factorial(k - 1), [z], 'iid_average_geom U all %d of 3' % k)
    n, p = int(rng.integers(1, 7)), float(rng.uniform(.1, .9))
    d = I.iid_sum(P.BernoulliDistr(p), n)
    m = {float(s.a): float(s.f) for s in d.get_piecewise_pdf().segments if s.isDirac()}
    rep.close([m.get(float(k), 0.) for k in range(n + 1)], stats.binom.pmf(range(n + 1), n, p), 'masses', 'iid_sum Bernoulli(%r) n=%d' % (p, n), rtol=1e-9)

def order(o_pdf, o_cdf, n, k):
    return lambda z: k * special.comb(n, k) * o_cdf(z) ** (k - 1) * (1 - o_cdf(z)) ** (n - k) * o_pdf(z)

LAWS = lambda: [('U(0,1)', lambda: P.UniformDistr(0, 1), stats.uniform()), ('Exp(1.5)', lambda: P.ExponentialDistr(1.5), stats.expon(scale=1 / 1.5)), ('Normal(1,2)', lambda: P.NormalDistr(1, 2), stats.norm(1, 2)), ('Beta(2,3)', lambda: P.BetaDistr(2, 3), stats.beta(2, 3)), ('Cauchy', lambda: P.CauchyDistr(), stats.cauchy())]

@D.check
def order_statistics(rep, rng):
    for nm, mk, s in LAWS():
        for n in [1, 2, int(rng.integers(3, 8)), int(rng.integers(8, 15))]:
            for k in sorted({1, n, int(rng.integers(1, n + 1))}):
                zs = [float(v) for v in s.ppf(rng.uniform(.02, .98, 4))]
                same(rep, I.iid_order_stat(mk(), n, k), order(s.pdf, s.cdf, n, k), zs, 'iid_order_stat(%s, %d, %d)' % (nm, n, k), rtol=1e-5, atol=1e-7)
        n = int(rng.integers(1, 5)) * 2 - 1
        zs = [float(v) for v in s.ppf(rng.uniform(.05, .95, 3))]
        same(rep, I.iid_median(mk(), n), order(s.pdf, s.cdf, n, (n + 1) // 2), zs, 'iid_median(%s, %d)' % (nm, n))
        n = int(rng.integers(2, 6)); k = int(rng.integers(1, n + 1))
        same(rep, I.iid_unknown(mk(), n, k), lambda z: sum(order(s.pdf, s.cdf, n, i)(z) for i in range(k, n + 1)) / (n + 1 - k), zs, 'iid_unknown(%s, %d, %d)' % (nm, n, k))

@D.check
def order_piecewise(rep, rng):
    for _ in range(rep.scale(4)):
        o = random_law(P, rng, int(rng.integers(1, 4)), infinite=bool(rng.uniform() < .3))
        if o.atoms: continue
        n = int(rng.integers(1, 7)); k = int(rng.integers(1, n + 1))
        from . import ops
        zs = []
        e = ops.ends(o)
        for _ in range(30):
            z = float(rng.uniform(max(o.lo, -5), min(o.hi, 5)))
            if all(abs(z - t) > 1e-2 for t in e): zs.append(z)
        same(rep, I.iid_order_stat(o.make(), n, k), order(lambda z: float(o.pdf(z)), lambda z: float(o.cdf(z)), n, k), zs[:4], 'iid_order_stat(%s, %d, %d)' % (o.name, n, k), rtol=1e-4, atol=1e-6)
