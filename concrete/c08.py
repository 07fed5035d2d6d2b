"""C08 distribution functions and quantiles on the running code"""
import numpy as np
import pacal as P
from .lib import Driver
from .cat import catalogue, by_name, random_law
D = Driver()

def grid(rng, o, n=8):
    lo = o.lo if np.isfinite(o.lo) else -8.0; hi = o.hi if np.isfinite(o.hi) else 8.0
    b = [e for e in list(o.sing) + list(o.atoms) + [lo, hi]]
    return sorted(set([float(v) for v in rng.uniform(lo - 1, hi + 1, n)] + [float(e) for e in b] + [float(e) - .01 for e in b] + [lo - 3.0, hi + 3.0]))

def cdf_of(rep, rng, o, d=None, rtol=1e-6, atol=1e-6):
    d = d or o.make()
    xs = grid(rng, o)
    want = [float(o.cdf(x)) for x in xs]
    inp = '%s at %s' % (o.name, xs)
    rep.close([float(d.cdf(x)) for x in xs], want, 'cdf (scalar)', inp, rtol, atol)
    rep.close(d.cdf(np.array(xs)), want, 'cdf (array)', inp, rtol, atol)
    rep.close([float(d.ccdf(x)) for x in xs], [1 - w for w in want], 'ccdf', inp, rtol, atol)
    rep.close([float(d.ccdf_value(x)) for x in xs], [1 - w for w in want], 'ccdf_value', inp, rtol, atol)
    return d

def quantile_of(rep, rng, o, d, eps=2e-4):
    F = lambda x: float(o.cdf(x))
    ps = [float(v) for v in rng.uniform(0.005, 0.995, 6)]
    levels = [F(e) for e in list(o.atoms) + list(o.sing)] + [F(e) - o.atoms[e] for e in o.atoms]
    ps += [float(p) for p in levels if 1e-6 < p < 1 - 1e-6]
    qs = [float(d.quantile(p)) for p in ps]
    rep.close(d.quantile(np.array(ps)), qs, 'quantile of an array of levels', o.name, 1e-9, 1e-9)
    for p, q in zip(ps, qs):
        ok = np.isfinite(q) and F(q - eps) - 2e-5 <= p <= F(q + eps) + 2e-5
        rep.ok(ok, 'quantile: F passes the level there', '%s, level %r' % (o.name, p), '[F(x-), F(x)] around %r' % p, 'x=%r, F in [%r, %r]' % (q, F(q - eps), F(q + eps)))
    p = float(rng.uniform(.02, .4))
    q = lambda v: float(d.quantile(v))
    rep.close(d.ci(p), [q(p / 2), q(1 - p / 2)], 'ci', '%s %r' % (o.name, p))
    rep.close(d.interval(1 - p), [q(p / 2), q(1 - p / 2)], 'interval', '%s %r' % (o.name, p))
    rep.close(d.iqrange(p), q(1 - p) - q(p), 'iqrange', '%s %r' % (o.name, p))
    m = float(d.median())
    rep.ok(F(m - eps) - 2e-5 <= .5 <= F(m + eps) + 2e-5, 'median', o.name, 'F passes 1/2', m)

@D.check
def standard_laws(rep, rng):
    cat = catalogue(P)
    for o in [cat[i] for i in rng.permutation(len(cat))[:len(cat) if rep.thorough else 14]]:
        d = cdf_of(rep, rng, o)
        quantile_of(rep, rng, o, d)

@D.check
def random_finite(rep, rng):
    for _ in range(rep.scale(12)):
        o = random_law(P, rng, int(rng.integers(1, 5)), infinite=False)
        quantile_of(rep, rng, o, cdf_of(rep, rng, o))

@D.check
def random_infinite(rep, rng):
    for _ in range(rep.scale(12)):
        o = random_law(P, rng, int(rng.integers(1, 5)))
        quantile_of(rep, rng, o, cdf_of(rep, rng, o))

@D.check
def computed_laws(rep, rng):
    """laws that are results of arithmetic: monotone, 0 and 1 at the ends, right-continuous, quantile inverts"""
    for _ in range(rep.scale(4)):
        a, b = random_law(P, rng, 2, infinite=False), random_law(P, rng, 1, infinite=False)
        d = a.make() + b.make() if rng.uniform() < .5 else P.max(a.make(), b.make())
        inp = '%s with %s' % (a.name, b.name)
        lo, hi = d.get_piecewise_pdf().range()
        xs = np.sort(rng.uniform(lo - 1, hi + 1, 20))
        v = np.array([float(d.cdf(x)) for x in xs])
        rep.ok(bool(np.all(np.diff(v) >= -1e-7)), 'cdf non-decreasing', inp, 'monotone', v)
        rep.close([float(d.cdf(lo - .5)), float(d.cdf(hi + .5))], [0, 1], 'cdf at the ends', inp, 1e-4, 1e-4)
        for p in rng.uniform(.02, .98, 4):
            q = float(d.quantile(p))
            rep.ok(float(d.cdf(q - 2e-4)) - 1e-4 <= p <= float(d.cdf(q + 2e-4)) + 1e-4, 'quantile inverts cdf', '%s level %r' % (inp, p), p, q)
