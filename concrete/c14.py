"""C14 discrete laws and mixtures on the running code"""
import numpy as np
import pacal as P
from scipy import stats
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, random_law
from . import ops
D = Driver()
from pacal import standard_distr as ST

def masses(d):
    r = {}
    for s in d.get_piecewise_pdf().segments:
        if s.isDirac(): r[float(s.a)] = r.get(float(s.a), 0.0) + float(s.f)
    return r

def same(rep, d, want, inp, rtol=1e-9):
    """want: list of (value, weight)"""
    got = masses(d)
    tot = {}
    for v, w in want:
        k = next((u for u in tot if abs(u - v) <= 1e-9 * max(1, abs(u))), v)
        tot[k] = tot.get(k, 0.0) + w
    left = dict(got)
    for v, w in sorted(tot.items()):
        k = next((u for u in left if abs(u - v) <= 1e-9 * max(1, abs(v))), None)
        rep.close(0.0 if k is None else left.pop(k), w, 'mass of a point', '%s at %r' % (inp, v), rtol=rtol, atol=1e-13)
    rep.ok(not [u for u in left if left[u] > 1e-13], 'nothing else carries mass', inp, sorted(tot), sorted(got))
    dens = [s for s in d.get_piecewise_pdf().segments if not s.isDirac()]
    for s in dens:
        if np.isfinite(s.a) and np.isfinite(s.b): rep.close(np.max(np.abs(np.asarray(s(np.linspace(s.a, s.b, 5)[1:-1]), float))), 0.0, 'no density between atoms', inp, rtol=0, atol=1e-12)

def draw(rng, n, grid=None, zero=True):
    x = rng.choice(grid, n, replace=False) if grid is not None else rng.normal(0, 3, n)
    if not zero: x = np.where(np.abs(x) < 0.2, x + 1.5, x)
    w = rng.uniform(.05, 1, n); w = w / w.sum()
    return [float(v) for v in x], [float(v) for v in w]

OPS = {'+': (lambda a, b: a + b, lambda x, y: x + y), '-': (lambda a, b: a - b, lambda x, y: x - y), '*': (lambda a, b: a * b, lambda x, y: x * y), '/': (lambda a, b: a / b, lambda x, y: x / y),
       'min': (P.min, min), 'max': (P.max, max)}

@D.check
def pairs(rep, rng):
    grids = [np.arange(-3, 4.0), np.arange(1, 7.0), np.arange(-5, 5) * 0.5, None]
    for _ in range(rep.scale(30)):
        name = sorted(OPS)[int(rng.integers(6))]
        g = grids[int(rng.integers(4))]
        n, m = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        x, p = draw(rng, n, g); y, q = draw(rng, m, g, zero=name != '/')
        mk, f = OPS[name]
        inp = 'Discrete(%s, %s) %s Discrete(%s, %s)' % (x, p, name, y, q)
        d = mk(P.DiscreteDistr(x, p), P.DiscreteDistr(y, q))
        want = [(f(a, b), u * v) for a, u in zip(x, p) for b, v in zip(y, q)]
        same(rep, d, want, inp)
        tot = sum(w for _, w in want)
        rep.close(float(d.mean()), sum(v * w for v, w in want) / tot, 'mean', inp, rtol=1e-8, atol=1e-9)
        z = float(rng.choice([v for v, _ in want]))
        rep.close(float(d.cdf(z + 1e-6)), sum(w for v, w in want if v <= z + 1e-6), 'distribution function', '%s at %r' % (inp, z), rtol=1e-9, atol=1e-12)
        rep.close(float(d.cdf(z)), sum(w for v, w in want if v <= z + 1e-9), 'distribution function at an atom', '%s at %r' % (inp, z), rtol=1e-9, atol=1e-12) if g is not None and name != '/' else None

@D.check
def functions(rep, rng):
    for _ in range(rep.scale(10)):
        x, p = draw(rng, int(rng.integers(1, 7)), np.arange(-4, 5.0))
        a, b = float(rng.choice([-2., -.5, .5, 3.])), float(rng.integers(-3, 4))
        mk = lambda: P.DiscreteDistr(x, p)
        inp = 'Discrete(%s, %s)' % (x, p)
        for nm, d, f in [('abs', abs(mk()), abs), ('square', mk() ** 2, lambda v: v * v), ('negative', -mk(), lambda v: -v), ('a*X+b', a * mk() + b, lambda v: a * v + b), ('sign', P.sign(mk()), np.sign), ('exp', P.exp(mk()), np.exp)]:
            same(rep, d, [(float(f(v)), w) for v, w in zip(x, p)], '%s(%s)' % (nm, inp), rtol=1e-8)

@D.check
def repeated_points(rep, rng):
    for _ in range(rep.scale(5)):
        n = int(rng.integers(2, 8))
        x = [float(v) for v in rng.choice([0., 1., 2., 5.], n)]; w = rng.uniform(.1, 1, n); w = [float(v) for v in w / w.sum()]
        inp = 'Discrete(%s, %s)' % (x, w)
        d = P.DiscreteDistr(x, w)
        same(rep, d, list(zip(x, w)), inp)
        s = sorted(set(x))
        rep.close([float(d.pdf(v)) for v in s], [sum(u for t, u in zip(x, w) if t == v) for v in s], 'probability of a point', inp)
        rep.close(np.asarray(d.pdf(np.array(s + [7.]))), [sum(u for t, u in zip(x, w) if t == v) for v in s] + [0.], 'probabilities of points', inp)
        r = np.asarray(d.rand(2000))
        rep.ok(set(r.tolist()) <= set(s), 'samples are atoms', inp, s, sorted(set(r.tolist()) - set(s)))
        for v in s:
            pr = sum(u for t, u in zip(x, w) if t == v)
            rep.close(float(np.mean(r == v)), pr, 'frequency', inp, rtol=0, atol=6 * np.sqrt(pr * (1 - pr) / 2000) + 1e-3)

@D.check
def families(rep, rng):
    for _ in range(rep.scale(5)):
        n = int(rng.integers(0, 41)); p = float(rng.choice([0., 1., .5, 1e-3, .999, float(rng.uniform())]))
        d = P.BinomialDistr(n, p)
        rep.close([float(v) for v in d.pi], stats.binom.pmf(np.arange(n + 1), n, p), 'weights', 'Binomial(%d, %r)' % (n, p), rtol=1e-9, atol=1e-15)
    for lam in [54.561, .3, float(rng.uniform(.01, 3)), float(rng.uniform(3, 80)), float(rng.uniform(20, 100))]:
        d = P.PoissonDistr(lam)
        k = np.asarray(d.xi, float)
        rep.ok(bool(np.all(k == np.arange(len(k)))), 'values', 'Poisson(%r)' % lam)
        rep.close([float(v) for v in d.pi], stats.poisson.pmf(k, lam), 'weights', 'Poisson(%r)' % lam, rtol=1e-8, atol=1e-15)
        rep.ok(float(stats.poisson.sf(k[-1], lam)) < 1e-12, 'the rest is negligible', 'Poisson(%r)' % lam, '< 1e-12', float(stats.poisson.sf(k[-1], lam)))
    for p in [float(rng.uniform()), .5]:
        same(rep, P.BernoulliDistr(p), [(0., 1 - p), (1., p)], 'Bernoulli(%r)' % p)
    q = float(rng.uniform(.2, .8))
    d = ST.TruncDiscreteFunDistr(fun=lambda k: q * (1 - q) ** k, trunk_eps=1e-10)
    k = np.arange(len(d.xi)); w = q * (1 - q) ** k
    rep.close([float(v) for v in d.pi], w / w.sum(), 'weights', 'geometric %r' % q, rtol=1e-8)

@D.check
def poisson_sum(rep, rng):
    a, b = float(rng.uniform(.3, 4)), float(rng.uniform(.3, 4))
    d = P.PoissonDistr(a) + P.PoissonDistr(b)
    m = masses(d)
    for k in range(12): rep.close(m.get(float(k), 0.0), float(stats.poisson.pmf(k, a + b)), 'sum of Poisson laws', 'Poisson(%r)+Poisson(%r) at %d' % (a, b, k), rtol=1e-7)
    n, k2, p = int(rng.integers(1, 9)), int(rng.integers(1, 9)), float(rng.uniform(.1, .9))
    m = masses(P.BinomialDistr(n, p) + P.BinomialDistr(k2, p))
    rep.close([m.get(float(i), 0.0) for i in range(n + k2 + 1)], stats.binom.pmf(np.arange(n + k2 + 1), n + k2, p), 'sum of binomials', 'Binomial(%d,%r)+Binomial(%d,%r)' % (n, p, k2, p), rtol=1e-9)

@D.check
def mixtures(rep, rng):
    for _ in range(rep.scale(8)):
        n = int(rng.integers(1, 5))
        comps = [random_law(P, rng, int(rng.integers(1, 4)), infinite=bool(rng.uniform() < .5)) for _ in range(n)]
        if rng.uniform() < .5:
            x, p = draw(rng, 3, np.arange(-3, 4.0))
            from .cat import O
            comps.append(O('Discrete(%s, %s)' % (x, p), lambda: P.DiscreteDistr(x, p), atoms=dict(zip(x, p))))
        ws = rng.uniform(.1, 1, len(comps)); ws = [float(v) for v in ws / ws.sum()]
        inp = 'Mix(%s, [%s])' % (ws, ', '.join(o.name for o in comps))
        d = P.MixDistr(ws, [o.make() for o in comps])
        want = {}
        for w, o in zip(ws, comps):
            for v, q in o.atoms.items(): want[v] = want.get(v, 0.0) + w * q
        got = masses(d)
        for v in set(want) | set(got): rep.close(got.get(v, 0.0), want.get(v, 0.0), 'mass of a point', '%s at %r' % (inp, v), rtol=1e-9, atol=1e-13)
        lo = np.concatenate([ops.ends(o) for o in comps]) if hasattr(ops, 'ends') else []
        cut = sorted(set(float(v) for v in lo if np.isfinite(v)))
        zs = [z for z in rng.uniform(cut[0] - 1, cut[-1] + 1, 8) if all(abs(z - e) > 1e-6 for e in cut)]
        pw = d.get_piecewise_pdf()
        rep.close([float(np.squeeze(pw(z))) for z in zs], [sum(w * float(o.pdf(z)) for w, o in zip(ws, comps)) for z in zs], 'density', '%s at %s' % (inp, zs), rtol=1e-6, atol=1e-9)
        rep.close([float(d.cdf(z)) for z in zs], [sum(w * float(o.cdf(z)) for w, o in zip(ws, comps)) for z in zs], 'distribution function', '%s at %s' % (inp, zs), rtol=1e-5, atol=1e-7)
        r = np.asarray(d.rand(500))
        a, b = d.range()
        rep.ok(bool(np.all((r >= a) & (r <= b))), 'samples in the range', inp, (a, b), (float(r.min()), float(r.max())))
        z = float(np.median(zs)) if zs else 0.0
        F = sum(w * float(o.cdf(z)) for w, o in zip(ws, comps))
        rep.close(float(np.mean(r <= z)), F, 'frequency', '%s below %r' % (inp, z), rtol=0, atol=6 * np.sqrt(F * (1 - F) / 500) + 3e-3)

@D.check
def extreme_mixture(rep, rng):
    for _ in range(rep.scale(2)):
        w = float(rng.uniform(.2, .8)); a = float(rng.uniform(0, 1)); b = a + float(rng.uniform(.5, 2))
        d = ST.ExtremeMixDistr([w, 1 - w], [P.UniformDistr(a, b), P.UniformDistr(b, b + 1)], [])
        zs = [a + .3 * (b - a), b + .4]
        rep.close([float(np.squeeze(d.get_piecewise_pdf()(z))) for z in zs], [w / (b - a), 1 - w], 'density', 'ExtremeMix %r %r %r' % (w, a, b), rtol=1e-6)
        r = np.asarray(d.rand(300))
        rep.ok(r.shape == (300,) and bool(np.all((r >= a) & (r <= b + 1))), 'samples', 'ExtremeMix %r %r %r' % (w, a, b))
