"""C09 moments and expectations on the running code"""
import numpy as np
import pacal as P
from .lib import Driver
from .cat import catalogue, by_name, random_law, quad
from .ops import ends
D = Driver()

def E(o, g, pts=()):
    s = sum(m * g(a) for a, m in o.atoms.items())
    if o.w and (o.sc is not None or o._pdf(np.array([0.0])) is not None) and o.lo < o.hi: s += quad(lambda t: g(t) * float(o.pdf(t)), o.lo, o.hi, ends(o) + list(pts))
    return s

def moments(rep, rng, o, d=None, rtol=1e-5, atol=1e-6, high=True):
    d = d or o.make()
    m = E(o, lambda t: t); v = E(o, lambda t: (t - m) ** 2)
    rep.close(float(d.mean()), m, 'mean', o.name, rtol, atol)
    rep.close(float(d.var()), v, 'var', o.name, rtol, atol)
    rep.close(float(d.std()), v ** .5, 'std', o.name, rtol, 1e-4)
    c = float(rng.uniform(-2, 2))
    ks = range(0, 5) if high else range(0, 3)
    for k in ks:
        rep.close(float(d.moment(k, c)), E(o, lambda t: (t - c) ** k), 'moment %d about a point' % k, '%s about %r' % (o.name, c), rtol, 1e-5)
        rep.close(float(d.moment(k)), E(o, lambda t: (t - m) ** k), 'central moment %d' % k, o.name, rtol, 1e-5)
    if high and v > 1e-3:
        rep.close(float(d.skewness()), E(o, lambda t: (t - m) ** 3) / v ** 1.5, 'skewness', o.name, 1e-4, 1e-4)
        rep.close(float(d.kurtosis()), E(o, lambda t: (t - m) ** 4) / v ** 2, 'kurtosis', o.name, 1e-4, 1e-4)
    g = lambda t: np.cos(c * t) + 1 / (1 + t * t)
    rep.close(float(d.meanf(g)), E(o, g), 'expectation of a function', '%s, cos(%r t)+1/(1+t^2)' % (o.name, c), rtol, atol)
    rep.close(float(d.int_error()), 0.0, 'total mass one', o.name, 0, 1e-6)
    return d

@D.check
def standard_laws(rep, rng):
    cat = [o for o in catalogue(P) if not o.heavy]
    for o in [cat[i] for i in rng.permutation(len(cat))[:len(cat) if rep.thorough else 12]]: moments(rep, rng, o)

@D.check
def random_finite(rep, rng):
    for _ in range(rep.scale(10)): moments(rep, rng, random_law(P, rng, int(rng.integers(1, 5)), infinite=False))

@D.check
def random_infinite(rep, rng):
    for _ in range(rep.scale(8)): moments(rep, rng, random_law(P, rng, int(rng.integers(1, 5))))

@D.check
def deviation(rep, rng):
    """median absolute deviation: the median of |X - median|"""
    for _ in range(rep.scale(10)):
        o = random_law(P, rng, int(rng.integers(1, 4)), infinite=rng.uniform() < .4)
        d = o.make()
        med = float(d.median()); r = float(d.medianad())
        F = lambda x: float(o.cdf(x))
        G = lambda y: F(med + y) - F(med - y) + o.atoms.get(med - y, 0.0) if y >= 0 else 0.0
        rep.ok(r >= -1e-9 and G(r - 3e-4) - 1e-4 <= .5 <= G(r + 3e-4) + 1e-4, 'medianad', o.name, 'P(|X-med|<=r) passes 1/2 at r', 'r=%r: [%r, %r]' % (r, G(r - 3e-4), G(r + 3e-4)))

@D.check
def information(rep, rng):
    """entropy and distances of continuous laws"""
    cat = catalogue(P, 'c')
    names = ['Normal(0,1)', 'Normal(1,2)', 'U(-1,2)', 'U(1,3)', 'Exp(1)', 'Exp(3)', 'Beta(2,3)', 'Gamma(2,1.5)', 'Laplace', 'Triang']
    os = by_name(cat, *names)
    for o in os if rep.thorough else [os[i] for i in rng.permutation(len(os))[:6]]:
        rep.close(float(o.make().entropy()), float(o.sc.entropy()), 'entropy', o.name, 1e-4, 1e-4)
    for a, b in [('Normal(0,1)', 'Normal(1,2)'), ('Exp(1)', 'Exp(3)'), ('U(-1,2)', 'U(1,3)'), ('Beta(2,3)', 'Triang'), ('Exp(1)', 'Gamma(2,1.5)')]:
        A, B = by_name(cat, a)[0], by_name(cat, b)[0]
        lo, hi = min(A.lo, B.lo), max(A.hi, B.hi)
        rep.close(float(A.make().L2_dist(B.make())), quad(lambda t: float(A.pdf(t) - B.pdf(t)) ** 2, lo, hi, ends(A) + ends(B)) ** .5, 'L2 distance', '%s %s' % (a, b), 1e-4, 1e-5)
    for a, b in [('Normal(0,1)', 'Normal(1,2)'), ('Exp(3)', 'Exp(1)')]:
        A, B = by_name(cat, a)[0], by_name(cat, b)[0]
        f = lambda t: float(A.pdf(t)) * float(A.sc.logpdf(t) - B.sc.logpdf(t))
        rep.close(float(A.make().KL_dist(B.make())), quad(f, max(A.lo, -30), min(A.hi, 30), ends(A)), 'Kullback-Leibler distance', '%s %s' % (a, b), 1e-4, 1e-5)
