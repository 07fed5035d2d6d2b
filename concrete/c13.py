"""C13 joint samples on the running code"""
import numpy as np
import pacal as P
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, random_law
from . import ops
D = Driver()

def track(d, seen=None):
    """dependency tracking for the whole expression"""
    seen = {} if seen is None else seen
    if id(d) in seen: return seen
    seen[id(d)] = d
    d.indep = False
    for k in ('d', 'd1', 'd2'):
        if isinstance(getattr(d, k, None), P.Distr if hasattr(P, 'Distr') else type(None)): track(getattr(d, k), seen)
    return seen
from pacal.distr import Distr
P.Distr = Distr

UN = [('-%s', lambda d: -d, lambda x: -x), ('abs(%s)', abs, np.abs), ('(%s)**2', lambda d: d ** 2, lambda x: x * x), ('exp(%s)', P.exp, np.exp), ('2-%s', lambda d: 2 - d, lambda x: 2 - x), ('%s+3', lambda d: d + 3, lambda x: x + 3),
      ('3*%s', lambda d: 3 * d, lambda x: 3 * x), ('%s/4', lambda d: d / 4, lambda x: x / 4), ('%s-1.5', lambda d: d - 1.5, lambda x: x - 1.5), ('atan(%s)', P.atan, np.arctan), ('sign(%s)', P.sign, np.sign), ('sigmoid(%s)', getattr(P, 'sigmoid', None), lambda x: 1 / (1 + np.exp(-x))), ('tanh(%s)', getattr(P, 'tanh', None), np.tanh), ('sinh(%s)', getattr(P, 'sinh', None), np.sinh)]
UN = [u for u in UN if u[1] is not None]
POS = [('sqrt(%s)', P.sqrt, np.sqrt), ('log(%s)', P.log, np.log), ('1/%s', lambda d: 1 / d, lambda x: 1 / x), ('2.5/%s', lambda d: 2.5 / d, lambda x: 2.5 / x), ('(%s)**0.5', lambda d: d ** .5, lambda x: x ** .5), ('(%s)**1.7', lambda d: d ** 1.7, lambda x: x ** 1.7), ('(%s)**3', lambda d: d ** 3, lambda x: x ** 3), ('(%s)**-1', lambda d: d ** -1, lambda x: 1.0 / x), ('2**%s', lambda d: 2 ** d, lambda x: 2.0 ** x), ('(%s)**(-0.5)', lambda d: d ** -.5, lambda x: x ** -.5)]
BIN = [('(%s+%s)', lambda a, b: a + b, np.add), ('(%s-%s)', lambda a, b: a - b, np.subtract), ('(%s*%s)', lambda a, b: a * b, np.multiply), ('(%s/%s)', lambda a, b: a / b, np.divide), ('min(%s,%s)', P.min, np.minimum), ('max(%s,%s)', P.max, np.maximum)]

def base(rng):
    k = int(rng.integers(5))
    a = float(np.round(rng.uniform(.5, 2), 2))
    return [('U(%g,%g)' % (a, a + 1), P.UniformDistr(a, a + 1)), ('Exp(%g)' % a, P.ExponentialDistr(a)), ('Normal(5,.3)', P.NormalDistr(5, .3)), ('Discrete', P.DiscreteDistr([1, 2, 4], [.2, .3, .5])), ('Beta(2,3)', P.BetaDistr(2, 3))][k]

def same(rep, got, want, label, inp):
    got, want = np.asarray(got, float), np.asarray(want, float)
    rep.ok(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True), label, inp, want.tolist()[:5] if want.ndim else float(want), got.tolist()[:5] if got.ndim else float(got))

def grow(rng, pool, n):
    """a pool of (text, law, value of the ancestors -> value)"""
    for _ in range(4 * n):
        if len(pool) >= n: break
        try: one(rng, pool)
        except (ValueError, AssertionError, NotImplementedError, OverflowError): pass      # an argument outside of the domain
    return pool
def one(rng, pool):
        k = rng.uniform()
        if k < .3:
            t, f, g = UN[int(rng.integers(len(UN)))]
            s, d, v = pool[int(rng.integers(len(pool)))]
        elif k < .5:
            t, f, g = POS[int(rng.integers(len(POS)))]
            pos = [p for p in pool if p[3]]
            s, d, v = pos[int(rng.integers(len(pos)))][:3]
        if k < .5:
            pool.append((t % s, f(d), (lambda e, g=g, v=v: g(v(e))), k >= .3 and 'log' not in t or t[:3] in ('exp', 'abs')))
            return
        t, f, g = BIN[int(rng.integers(len(BIN)))]
        a, b = pool[int(rng.integers(len(pool)))], pool[int(rng.integers(len(pool)))]
        pool.append((t % (a[0], b[0]), f(a[1], b[1]), (lambda e, g=g, a=a, b=b: g(a[2](e), b[2](e))), False))


@D.check
def expressions(rep, rng):
    from pacal import params
    old = params.general.warn_on_dependent
    params.general.warn_on_dependent = False
    try:
        for _ in range(rep.scale(12)):
            m = int(rng.integers(1, 4))
            pool = []
            for i in range(m):
                s, d = base(rng)
                pool.append(('X%d' % i, d, (lambda e, i=i: e[i]), True))
            bases = [p[1] for p in pool]
            with np.errstate(all='ignore'): grow(rng, pool, m + int(rng.integers(3, 9)))
            for p in pool: track(p[1])
            n = [1, 2, 7, 50][int(rng.integers(4))]
            cache = {}
            order = rng.permutation(len(pool))
            with np.errstate(all='ignore'):
                got = {int(j): pool[j][1].rand(n, cache) for j in order}
                env = [np.array(bases[i].rand(n, cache)) for i in range(m)]
                for i, d in enumerate(bases): rep.ok(d.rand(n, cache) is cache[d.id()], 'an ancestor is drawn once', pool[i][0])
                for j, (t, d, v, _p) in enumerate(pool): same(rep, got[j], v(env), 'value of the expression', '%s with %s' % (t, [np.round(e, 3).tolist()[:3] for e in env]))
                one = pool[-1][1].rand(n)
                rep.ok(np.shape(one) == (n,), 'number of samples', pool[-1][0], (n,), np.shape(one))
    finally: params.general.warn_on_dependent = old

@D.check
def every_operation(rep, rng):
    with np.errstate(all='ignore'):
        for t, f, g in UN + POS:
            for mk in (lambda: P.UniformDistr(.5, 2.5), lambda: P.DiscreteDistr([1, 2, 4], [.2, .3, .5])):
                X = mk()
                try: Y = f(X)
                except (ValueError, NotImplementedError): continue
                track(Y)
                for n in (None, 1, 4):
                    c = {}
                    try: y = Y.rand(n, c)
                    except Exception as e: rep.ok(False, 'sampling', t % 'X' + ' n=%s' % n, 'a sample', repr(e)); continue
                    same(rep, y, g(np.asarray(X.rand(n, c))), 'value of the function', t % 'X' + ' n=%s' % n)
        for lo, hi, t, f, g in [(-1., 1., 'sin', P.sin, np.sin), (.2, 1.4, 'cos', P.cos, np.cos), (-1.5, 4.7, 'sin', P.sin, np.sin), (0., 6.28, 'cos', P.cos, np.cos), (-1.2, 1.2, 'tan', P.tan, np.tan), (-2., -1., 'sign', P.sign, np.sign), (-2., 1., 'sign', P.sign, np.sign)]:
            X = P.UniformDistr(lo, hi); Y = f(X); track(Y)
            for n in (None, 1, 20):
                c = {}
                try: y = Y.rand(n, c)
                except Exception as e: rep.ok(False, 'sampling', '%s(U(%g,%g)) n=%s' % (t, lo, hi, n), 'a sample', repr(e)); continue
                same(rep, y, g(np.asarray(X.rand(n, c))), 'value of the function', '%s(U(%g,%g)) n=%s' % (t, lo, hi, n))
        for t, f, g in BIN:
            X, Y = P.UniformDistr(.5, 2.5), P.NormalDistr(3, .2)
            Z = f(X, Y); track(Z)
            for n in (None, 1, 6):
                c = {}
                z = Z.rand(n, c)
                same(rep, z, g(np.asarray(X.rand(n, c)), np.asarray(Y.rand(n, c))), 'value of the operation', t % ('X', 'Y') + ' n=%s' % n)
            W = f(X, 2); track(W); c = {}
            same(rep, W.rand(5, c), g(X.rand(5, c), 2.0), 'value of the operation', t % ('X', '2'))
            W = f(2, X); track(W); c = {}
            same(rep, W.rand(5, c), g(2.0, X.rand(5, c)), 'value of the operation', t % ('2', 'X'))

@D.check
def independent(rep, rng):
    X = P.UniformDistr(0, 1); Y = X + X
    c = {}
    y = Y.rand(200, c)
    rep.ok(not np.allclose(y, 2 * X.rand(200, c)), 'independent copies are drawn without tracking', 'X+X')
    rep.ok(abs(np.corrcoef(X.rand(4000), X.rand(4000))[0, 1]) < .1, 'repeated samples are independent', 'U(0,1)')
    X.indep = False
    rep.ok(not np.allclose(X.rand(50), X.rand(50)), 'no cache, no sharing', 'U(0,1)')
    c = {}; a = np.array(X.rand(50, c)); rep.ok(bool(np.all(a == X.rand(50, c))), 'same cache, same draw', 'U(0,1)')
    rep.ok(not np.allclose(a, X.rand(50, {})), 'another cache, another draw', 'U(0,1)')

def ks(rep, d, F, inp, n=4000, atoms=False):
    r = np.sort(np.asarray(d.rand(n), float))
    rep.ok(r.shape == (n,), 'number of samples', inp, (n,), r.shape)
    c = np.asarray([float(F(v)) for v in r[::40]])
    e = np.max(np.abs(c - (np.arange(n)[::40] + .5) / n)) if not atoms else max(abs(np.mean(r <= v) - float(F(v))) for v in r[::400])
    rep.ok(e < 2.5 / np.sqrt(n), 'empirical distribution', inp, '< %g' % (2.5 / np.sqrt(n)), float(e))

@D.check
def laws(rep, rng):
    for _ in range(rep.scale(4)):
        o = random_law(P, rng, int(rng.integers(1, 4)), infinite=bool(rng.uniform() < .5))
        d = o.make()
        r = np.asarray(d.rand(300), float)
        a, b = d.range()
        rep.ok(bool(np.all((r >= a - 1e-9) & (r <= b + 1e-9))), 'samples in the range', o.name, (a, b), (float(r.min()), float(r.max())))
        ks(rep, d, o.cdf, o.name, atoms=bool(o.atoms))
    X = P.NormalDistr(0, 1)
    from scipy import stats
    N = stats.norm
    for cond, F, lo, hi in [(P.Gt(.5), lambda x: (N.cdf(x) - N.cdf(.5)) / (1 - N.cdf(.5)), .5, np.inf), (P.Lt(-.2), lambda x: N.cdf(x) / N.cdf(-.2), -np.inf, -.2), (P.Between(-1, .3), lambda x: (N.cdf(x) - N.cdf(-1)) / (N.cdf(.3) - N.cdf(-1)), -1, .3)]:
        d = X | cond
        ks(rep, d, F, 'Normal | %s' % type(cond).__name__)
        r = d.rand(200); rep.ok(bool(np.all((r >= lo) & (r <= hi))), 'conditional samples satisfy the condition', type(cond).__name__)
    d = P.FunDistr(lambda x: .5 * x, breakPoints=[0., 2.])
    ks(rep, d, lambda x: x * x / 4, 'FunDistr x/2')
