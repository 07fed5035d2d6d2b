"""C22 standard laws against the densities, distribution functions and weights of the textbooks"""
import numpy as np
import warnings
import pacal as P
import pacal.standard_distr as SD
from pacal import params
from scipy import stats, special
from .lib import Driver, Rep, Skip
D = Driver()

def exact(name, *a):
    """textbook law as a frozen scipy law (or an object with pdf/cdf)"""
    S = stats
    return {
      'NormalDistr': lambda mu, s: S.norm(mu, s), 'UniformDistr': lambda a, b: S.uniform(a, b - a),
      'TrapezoidalDistr': lambda a, b, c, d: S.trapezoid((b - a) / (d - a), (c - a) / (d - a), a, d - a),
      'CauchyDistr': lambda g, c: S.cauchy(c, g), 'ChiSquareDistr': lambda df: S.chi2(df), 'ExponentialDistr': lambda l: S.expon(scale=1 / l),
      'GammaDistr': lambda k, t: S.gamma(k, scale=t), 'BetaDistr': lambda a, b: S.beta(a, b), 'ParetoDistr': lambda a, m: S.pareto(a, scale=m),
      'LevyDistr': lambda c, m: S.levy(m, c), 'LaplaceDistr': lambda l, m: S.laplace(m, l), 'StudentTDistr': lambda df: S.t(df),
      'SemicircleDistr': lambda R: S.semicircular(scale=R), 'FDistr': lambda a, b: S.f(a, b), 'WeibullDistr': lambda k, l: S.weibull_min(k, scale=l),
      'GumbelDistr': lambda m, s: S.gumbel_r(m, s), 'FrechetDistr': lambda a, s, m: S.invweibull(a, m, s), 'LogLogisticDistr': lambda k, s: S.fisk(k, scale=s),
      'MollifierDistr': lambda e: Moll(e)}[name](*a)

class Moll:
    def __init__(self, e):
        self.e = e; self.z = np.polynomial.legendre.leggauss(400)
    def base(self, t): return np.where(np.abs(t) < 1, np.exp(-1 / np.where(np.abs(t) < 1, 1 - t * t, 1)), 0) / 0.443993816168079437823
    def pdf(self, x): return self.base(np.asarray(x, float) / self.e) / self.e
    def cdf(self, x):
        x = np.clip(np.atleast_1d(np.asarray(x, float)) / self.e, -1, 1)
        return np.array([np.dot(self.z[1], self.base((v + 1) / 2 * (self.z[0] + 1) - 1)) * (v + 1) / 2 for v in x])
    def ppf(self, q):
        lo, hi = -1.0 + 0 * np.asarray(q), 1.0 + 0 * np.asarray(q)
        for _ in range(50):
            m = (lo + hi) / 2; c = self.cdf(m * self.e); lo, hi = np.where(c < q, m, lo), np.where(c < q, hi, m)
        return self.e * lo
    def support(self): return -self.e, self.e

def u(rng, a, b): return float(round(rng.uniform(a, b), 3))
def pick(rng, *v): return v[int(rng.integers(len(v)))]
def trap(rng):
    w = [pick(rng, 0.0, u(rng, 0.1, 2)), pick(rng, 0.0, u(rng, 0.1, 2)), pick(rng, 0.0, u(rng, 0.1, 2))]
    if sum(w) == 0: w[1] = 1.0
    a = u(rng, -5, 5)
    b = a + w[0]; c = b + w[1]
    return a, b, c, c + w[2]
LAWS = {
  'NormalDistr': lambda r: (u(r, -30, 30), u(r, .01, 20)), 'UniformDistr': lambda r: (lambda a: (a, a + u(r, .05, 9)))(u(r, -9, 9)), 'TrapezoidalDistr': trap,
  'CauchyDistr': lambda r: (u(r, .05, 8), u(r, -8, 8)), 'ChiSquareDistr': lambda r: (pick(r, 1, 2, 3, 4, 7, 20, 21, u(r, .3, 1), u(r, 1, 6), u(r, 6, 60)),),
  'ExponentialDistr': lambda r: (u(r, .05, 12),), 'GammaDistr': lambda r: (pick(r, 1, 2, 3, u(r, .3, 1), u(r, 1, 2), u(r, 2, 12)), u(r, .1, 6)),
  'BetaDistr': lambda r: (pick(r, 1, 1.0, 2, 3, u(r, .3, 1), u(r, 1, 2), u(r, 2, 9)), pick(r, 1, 1.0, 2, 3, u(r, .3, 1), u(r, 1, 2), u(r, 2, 9))),
  'ParetoDistr': lambda r: (pick(r, 1, 2, u(r, .5, 6)), pick(r, 1, 2, u(r, .2, 6))), 'LevyDistr': lambda r: (u(r, .1, 6), u(r, -5, 5)),
  'LaplaceDistr': lambda r: (u(r, .05, 6), u(r, -5, 5)), 'StudentTDistr': lambda r: (pick(r, 1, 2, 3, 5, u(r, .6, 30)),), 'SemicircleDistr': lambda r: (pick(r, 1, 2, u(r, .1, 9)),),
  'FDistr': lambda r: (pick(r, 1, 2, 3, 5, u(r, .6, 20)), pick(r, 1, 2, 3, 5, u(r, .6, 20))), 'WeibullDistr': lambda r: (pick(r, 1, 2, 3, u(r, .4, 1), u(r, 1, 5)), u(r, .1, 8)),
  'GumbelDistr': lambda r: (u(r, -5, 5), u(r, .1, 6)), 'FrechetDistr': lambda r: (pick(r, 1, 2, 3, u(r, .6, 6)), pick(r, 1, u(r, .2, 5)), pick(r, 0, u(r, -4, 4))),
  'LogLogisticDistr': lambda r: (pick(r, 1, 2, 3, 4, u(r, .5, 1), u(r, 1, 5)), u(r, .2, 5)), 'MollifierDistr': lambda r: (pick(r, 1, 2, u(r, .1, 7)),)}

SPECIAL = {'ChiSquareDistr': [(1,), (2,), (3,), (.6,)], 'GammaDistr': [(1, 2.5), (2, .5), (.5, 3.0)], 'BetaDistr': [(1, 1), (1, 3.5), (2.5, 1), (.5, 1.5)], 'FDistr': [(1, 3), (2, 5), (3, 2)],
           'WeibullDistr': [(1, 2.5), (2, .5), (.5, 3.0)], 'LogLogisticDistr': [(1, 2.5), (2, .5), (.5, 3.0)], 'ParetoDistr': [(1, 2.5), (2, .5)], 'FrechetDistr': [(1, 2.5, -1.0), (2, .5, 3)], 'TrapezoidalDistr': [(1.0, 1.0, 2.0, 2.0), (0.0, 1.0, 1.0, 3.0), (0, 0, 1, 1)]}
def laws(rep, rng, names=None):
    for n in names or LAWS:
        for a in SPECIAL.get(n, []): yield n, a
        for k in range(rep.scale(4)):
            a = LAWS[n](rng)
            yield n, a

@D.check
def density(rep, rng):
    """pdf, scalars and arrays, inside, at and beyond the ends"""
    for n, a in laws(rep, rng):
        desc = '%s%r' % (n, a)
        d, e = getattr(SD, n)(*a), exact(n, *a)
        lo, hi = e.support()
        if n in ('UniformDistr', 'TrapezoidalDistr'): lo, hi = a[0], a[-1]
        rep.ok(tuple(map(float, d.range())) == (float(lo), float(hi)), 'range is the support', desc, (lo, hi), d.range())
        xs = np.asarray(e.ppf(rng.uniform(0.001, .999, 6)), float)
        out = [v for v in (lo - 1e-3, lo - 2.5, hi + 1e-3, hi + 3) if np.isfinite(v)]
        for f, how in ((d.pdf, 'pdf'), (d.get_piecewise_pdf(), 'piecewise pdf')):
            arr = np.concatenate([xs, out])
            want = e.pdf(arr)
            rep.close(f(arr), want, how + ' of an array', desc, rtol=1e-7, atol=1e-12)
            for x, w in zip(arr, want):
                try: g = f(float(x))
                except Exception as ex: rep.ok(False, how + ' of a scalar', '%s at %r' % (desc, x), w, repr(ex)); continue
                rep.close(g, w, how + ' of a scalar', '%s at %r' % (desc, x), rtol=1e-7, atol=1e-12)
            if n in ('TrapezoidalDistr', 'UniformDistr'): continue
            for x in (lo, hi):                                  # at finite ends: the limit
                if not np.isfinite(x): continue
                w = float(e.pdf(x + (1e-14 if x == lo else -1e-14) * max(1, abs(x))))
                lim = float(limit(n, a, x == lo))
                if how == 'pdf':
                    for g, s in ((lambda: f(float(x)), 'scalar'), (lambda: f(np.array([x]))[0], 'array')):
                        with np.errstate(all='ignore'):
                            try: g = float(g())
                            except Exception as ex: g = repr(ex)
                        rep.ok(g == lim or (not isinstance(g, str) and np.isfinite(lim) and abs(g - lim) < 1e-9 * max(1, abs(lim))), 'pdf at the end of the support (%s)' % s, '%s at %r' % (desc, x), lim, g)

def limit(n, a, left):
    """value of the density at a finite end of its support, by its limit there"""
    def at0(k, v): return np.inf if k < 1 else v if k == 1 else 0.0
    if n == 'ChiSquareDistr': return at0(a[0] / 2, .5)
    if n == 'ExponentialDistr': return a[0]
    if n == 'GammaDistr': return at0(a[0], 1 / a[1])
    if n == 'BetaDistr': return at0(a[0], a[1]) if left else at0(a[1], a[0])
    if n == 'ParetoDistr': return a[0] / a[1]
    if n in ('LevyDistr', 'SemicircleDistr', 'MollifierDistr', 'FrechetDistr'): return 0.0
    if n == 'FDistr': return at0(a[0] / 2, 1.0)
    if n == 'WeibullDistr': return at0(a[0], a[0] / a[1])
    if n == 'LogLogisticDistr': return at0(a[0], 1 / a[1])
    raise KeyError(n)

@D.check
def pieces(rep, rng):
    """pieces cover the support; distribution function"""
    for n, a in laws(rep, rng):
        desc = '%s%r' % (n, a)
        d, e = getattr(SD, n)(*a), exact(n, *a)
        lo, hi = map(float, e.support())
        if n in ('UniformDistr', 'TrapezoidalDistr'): lo, hi = a[0], a[-1]
        seg = d.get_piecewise_pdf().getSegments()
        br = [float(s.a) for s in seg] + [float(seg[-1].b)]
        rep.ok(br[0] == lo and br[-1] == hi and all(float(s.b) == float(t.a) for s, t in zip(seg, seg[1:])) and all(s.a < s.b for s in seg), 'pieces cover the support', desc, (lo, hi), br)
        x = np.asarray(e.ppf([.02, .2, .5, .8, .97]), float)
        want = np.asarray(e.cdf(x))
        with np.errstate(all='ignore'): got = [float(d.cdf(float(v))) for v in x]
        rep.close(got, want, 'distribution function', desc, rtol=2e-4, atol=2e-5)

@D.check
def samples(rep, rng):
    names = [n for n in LAWS if n not in ('TrapezoidalDistr',)]
    for n, a in laws(rep, rng):
        desc = '%s%r' % (n, a)
        d, e = getattr(SD, n)(*a), exact(n, *a)
        np.random.seed(int(rng.integers(2 ** 31)))
        N = 250 if n in ('TrapezoidalDistr', 'MollifierDistr') else 4000
        with np.errstate(all='ignore'):
            s = np.asarray(d.rand(N))
        rep.ok(s.shape == (N,), 'number of samples', desc, N, s.shape)
        p = stats.kstest(e.cdf(s), 'uniform').pvalue
        rep.ok(p > 1e-7, 'law of the samples', desc, 'p > 1e-7', p)
        for one in (d.rand(None), d.rand_raw(None) if n not in ('TrapezoidalDistr', 'MollifierDistr') else 0.0):
            rep.ok(np.ndim(one) == 0, 'one sample is a number', desc, 0, np.shape(one))

@D.check
def discrete(rep, rng):
    for k in range(rep.scale(12)):
        n, p, l = int(rng.integers(1, 40)), u(rng, .01, .99), u(rng, .05, 60)
        for d, e, desc in ((SD.BinomialDistr(n, p), stats.binom(n, p), 'Binomial(%d,%g)' % (n, p)), (SD.BinomialDistr(n, 0.0), stats.binom(n, 0), 'Binomial(%d,0)' % n),
                           (SD.BinomialDistr(n, 1.0), stats.binom(n, 1), 'Binomial(%d,1)' % n), (SD.BinomialDistr(n, 1), stats.binom(n, 1), 'Binomial(%d,1)' % n), (SD.BinomialDistr(n, .5), stats.binom(n, .5), 'Binomial(%d,.5)' % n),
                           (SD.BernoulliDistr(p), stats.bernoulli(p), 'Bernoulli(%g)' % p), (SD.BernoulliDistr(0), stats.bernoulli(0), 'Bernoulli(0)'), (SD.BernoulliDistr(1), stats.bernoulli(1), 'Bernoulli(1)'),
                           (SD.PoissonDistr(l), stats.poisson(l), 'Poisson(%g)' % l), (SD.PoissonDistr(int(l) + 1), stats.poisson(int(l) + 1), 'Poisson(%d)' % (int(l) + 1))):
            m = {float(s.a): float(s.f) for s in d.get_piecewise_pdf().getDiracs()}
            rep.ok(all(x == int(x) for x in m), 'atoms at the integers', desc, 'integers', sorted(m)[:5])
            rep.close([m[x] for x in sorted(m)], e.pmf(sorted(m)), 'weights', desc, rtol=1e-9, atol=1e-15)
            rep.ok(e.sf(max(m)) < 1e-13 and (min(m) <= 0 or e.cdf(min(m) - 1) < 1e-13), 'all the mass', desc, 1, (min(m), max(m)))
    for q in (.2, .5, .7, .9):
        t = SD.TruncDiscreteFunDistr(lambda k: q * (1 - q) ** k, trunk_eps=1e-9)
        m = {float(s.a): float(s.f) for s in t.get_piecewise_pdf().getDiracs()}
        K = len(m)
        rep.ok(sorted(m) == list(range(K)), 'atoms of a truncated sequence', 'geometric %g' % q, list(range(K))[:5], sorted(m)[:5])
        rep.close([m[x] for x in sorted(m)], q * (1 - q) ** np.arange(K), 'weights of a truncated sequence', 'geometric %g' % q, rtol=1e-8, atol=0)
    for d, v in ((SD.ZeroDistr(), 0.0), (SD.OneDistr(), 1.0)):
        m = d.get_piecewise_pdf().getDiracs()
        rep.ok([(s.a, s.f) for s in m] == [(v, 1)], 'one point laws', v, v, [(s.a, s.f) for s in m])
