"""catalogue of distributions with independent oracles (scipy.stats), and oracles for operations on independent variables"""
import numpy as np, math
from scipy import stats, integrate

class O:
    """oracle: continuous part (pdf,cdf via scipy) with weight w, plus atoms {x: mass}"""
    def __init__(self, name, make, sc=None, lo=None, hi=None, atoms=None, w=1.0, pdf=None, cdf=None, sing=(), heavy=False):
        self.name, self.make = name, make
        self.sc = sc
        self.atoms = dict(atoms or {})
        self.w = w
        self._pdf = pdf or (sc.pdf if sc is not None else (lambda x: np.zeros_like(np.asarray(x, float))))
        self._cdf = cdf or (sc.cdf if sc is not None else (lambda x: np.zeros_like(np.asarray(x, float))))
        if lo is None and sc is not None: lo, hi = sc.support()
        if lo is None: lo, hi = min(atoms), max(atoms)
        self.lo, self.hi = float(lo), float(hi)
        self.sing = list(sing)           # points where the density is infinite/discontinuous
        self.heavy = heavy
    def pdf(self, x): return self.w * self._pdf(np.asarray(x, float))
    def cdf(self, x):
        x = np.asarray(x, float)
        r = self.w * self._cdf(x)
        for a, m in self.atoms.items(): r = r + m * (x >= a)
        return r
    def q(self, p):
        return self.sc.ppf(p)
    def points(self, rng, n=6):
        """regular points of the continuous part, away from ends/singular points"""
        if self.sc is None: return np.array([])
        u = rng.uniform(0.03, 0.97, n)
        p = np.asarray(self.sc.ppf(u), float)
        ok = np.ones(len(p), bool)
        for s in self.sing + [self.lo, self.hi] + list(self.atoms):
            if np.isfinite(s): ok &= np.abs(p - s) > 1e-3
        return p[ok]
    def outside(self):
        r = []
        if np.isfinite(self.lo): r += [self.lo - 0.7, self.lo - 5.0]
        if np.isfinite(self.hi): r += [self.hi + 0.7, self.hi + 5.0]
        return np.array(r)
    def breaks(self):
        return [s for s in sorted(set(self.sing + [self.lo, self.hi])) if np.isfinite(s)]

def catalogue(P, kinds='cda'):
    """c: continuous, d: discrete, a: mixtures with atoms"""
    out = []
    if 'c' in kinds:
        out += [
            O('Normal(0,1)', lambda: P.NormalDistr(0, 1), stats.norm(0, 1)),
            O('Normal(1,2)', lambda: P.NormalDistr(1, 2), stats.norm(1, 2)),
            O('Normal(-3,0.5)', lambda: P.NormalDistr(-3, 0.5), stats.norm(-3, 0.5)),
            O('U(0,1)', lambda: P.UniformDistr(0, 1), stats.uniform(0, 1)),
            O('U(-1,2)', lambda: P.UniformDistr(-1, 2), stats.uniform(-1, 3)),
            O('U(1,3)', lambda: P.UniformDistr(1, 3), stats.uniform(1, 2)),
            O('U(-4,-1)', lambda: P.UniformDistr(-4, -1), stats.uniform(-4, 3)),
            O('Exp(1)', lambda: P.ExponentialDistr(1), stats.expon()),
            O('Exp(3)', lambda: P.ExponentialDistr(3), stats.expon(scale=1 / 3)),
            O('Beta(2,3)', lambda: P.BetaDistr(2, 3), stats.beta(2, 3)),
            O('Beta(0.5,0.7)', lambda: P.BetaDistr(0.5, 0.7), stats.beta(0.5, 0.7), sing=[0.0, 1.0]),
            O('Gamma(2,1.5)', lambda: P.GammaDistr(2, 1.5), stats.gamma(2, scale=1.5)),
            O('Chi2(1)', lambda: P.ChiSquareDistr(1), stats.chi2(1), sing=[0.0]),
            O('Chi2(4)', lambda: P.ChiSquareDistr(4), stats.chi2(4)),
            O('Student(3)', lambda: P.StudentTDistr(3), stats.t(3), heavy=True),
            O('Cauchy', lambda: P.CauchyDistr(), stats.cauchy(), heavy=True),
            O('Laplace', lambda: P.LaplaceDistr(), stats.laplace(), sing=[0.0]),
            O('Triang', lambda: P.TrapezoidalDistr(0, 1, 1.5, 3), stats.trapezoid(1 / 3, 0.5, 0, 3), sing=[1.0, 1.5]),
        ]
    if 'd' in kinds:
        out += [
            O('Const(2.5)', lambda: P.ConstDistr(2.5), atoms={2.5: 1.0}),
            O('Discrete', lambda: P.DiscreteDistr([-2.0, 0.5, 3.0], [0.2, 0.5, 0.3]), atoms={-2.0: 0.2, 0.5: 0.5, 3.0: 0.3}),
        ]
    if 'a' in kinds:
        u = stats.uniform(1, 1)
        out += [
            O('Mix(.4 Const(-1),.6 U(1,2))', lambda: P.MixDistr([0.4, 0.6], [P.ConstDistr(-1.0), P.UniformDistr(1, 2)]), u, lo=-1, hi=2, atoms={-1.0: 0.4}, w=0.6, sing=[1.0]),
            O('Mix(.3 Const(1),.7 N(0,1))', lambda: P.MixDistr([0.3, 0.7], [P.ConstDistr(1.0), P.NormalDistr(0, 1)]), stats.norm(), atoms={1.0: 0.3}, w=0.7),
        ]
    return out

def by_name(cat, *names):
    return [o for o in cat if o.name in names]

def quad(f, a, b, pts=()):
    """independent quadrature on (a,b) split at pts"""
    ps = sorted(set([p for p in pts if a < p < b]))
    e = [a] + ps + [b]
    s = 0.0
    for l, r in zip(e[:-1], e[1:]):
        if np.isinf(l) and np.isinf(r):
            s += quad(f, l, 0.0) + quad(f, 0.0, r); continue
        v, err = integrate.quad(f, l, r, limit=200, epsabs=1e-12, epsrel=1e-10)
        s += v
    return s

def random_law(P, rng, ncomp=None, atoms=True, infinite=True, lo=-4.0, hi=4.0):
    """a random mixture: disjoint and overlapping pieces, gaps, infinite tails, atoms; with an exact density and distribution function"""
    k = ncomp or int(rng.integers(1, 6))
    comps, mk = [], []
    at, sing = {}, []
    ends = np.round(rng.uniform(lo, hi, 2 * k), 2)
    if rng.uniform() < 0.5: ends = np.sort(ends)            # disjoint pieces with gaps
    w = rng.uniform(0.2, 1.0, k); w = w / w.sum()
    L, H = np.inf, -np.inf
    for j in range(k):
        a, b = sorted((float(ends[2 * j]), float(ends[2 * j + 1])))
        if b - a < 0.05: b = a + 0.3
        if rng.uniform() < 0.15: a, b = (0.0, b) if b > 0.1 else (a, 0.0) if a < -0.1 else (a, b)
        t = rng.choice(['u', 'u', 'b', 'n', 'e', 'm', 'c'])
        if not infinite and t in 'nem': t = 'u'
        if not atoms and t == 'c': t = 'u'
        if t == 'c':
            c0 = a if rng.uniform() < 0.7 else 0.0
            at[c0] = at.get(c0, 0.0) + float(w[j]); mk.append(lambda c0=c0: P.ConstDistr(c0)); comps.append(None); L, H = min(L, c0), max(H, c0); continue
        if t == 'u': sc = stats.uniform(a, b - a); mk.append(lambda a=a, b=b: P.UniformDistr(a, b)); s = (a, b)
        elif t == 'b': sc = stats.beta(2, 3, a, b - a); mk.append(lambda a=a, b=b: P.BetaDistr(2, 3) * (b - a) + a); s = (a, b)
        elif t == 'n': sc = stats.norm(a, (b - a) / 2 + .2); mk.append(lambda a=a, b=b: P.NormalDistr(a, (b - a) / 2 + .2)); s = ()
        elif t == 'e': sc = stats.expon(a, 1.0); mk.append(lambda a=a: P.ExponentialDistr(1.0) + a); s = (a,)
        else:
            sc = None; mk.append(lambda b=b: b - P.ExponentialDistr(1.0)); s = (b,)
            comps.append((float(w[j]), (lambda x, b=b: stats.expon().pdf(b - x)), (lambda x, b=b: stats.expon().sf(b - x)))); sing += list(s); L = -np.inf; H = max(H, b); continue
        comps.append((float(w[j]), sc.pdf, sc.cdf)); sing += list(s)
        l, h = sc.support(); L, H = min(L, l), max(H, h)
    cs = [c for c in comps if c is not None]
    pdf = lambda x: sum((wt * p(np.asarray(x, float)) for wt, p, q in cs), np.zeros_like(np.asarray(x, float)))
    cdf = lambda x: sum((wt * q(np.asarray(x, float)) for wt, p, q in cs), np.zeros_like(np.asarray(x, float)))
    ww = [float(v) for v in w]
    make = (lambda: P.MixDistr(ww, [m() for m in mk])) if k > 1 else mk[0]
    name = 'Mix(%s)' % ', '.join('%.3f %s' % (ww[j], describe(mk[j])) for j in range(k))
    return O(name, make, None, lo=L, hi=H, atoms=at, w=1.0, pdf=pdf, cdf=cdf, sing=sorted(set(sing)))

def describe(m):
    d = m.__defaults__ or ()
    return {1: '', 2: ''}.get(len(d), '') + m.__code__.co_names[0].replace('P', '', 1) + '/'.join([n for n in m.__code__.co_names[1:]]) + str(tuple(d))

def clear_of(o, rng, lo, hi, n=8, eps=2e-3, img=lambda b: [b]):
    """random points of (lo,hi) away from the images of break points and atoms"""
    ys = rng.uniform(lo, hi, n)
    ok = np.ones(n, bool)
    for s in list(o.sing) + [o.lo, o.hi] + list(o.atoms):
        if np.isfinite(s):
            for b in img(s): ok &= ~(np.abs(ys - b) <= eps)
    return ys[ok]
