"""C20 joint laws on the running code"""
import numpy as np
import pacal as P
import pacal.params as params
from pacal.depvars import nddistr as N
from itertools import permutations
from .lib import Driver, Skip
D = Driver()
params.general.parallel = False
params.interpolation_nd.debug_info = False

class Joint(N.NDDistr):
    """a polynomial on a box"""
    def __init__(self, terms, V):
        self.terms = terms
        super().__init__(len(V), V)
    def pdf(self, *x):
        y = 0.0
        for c, e in self.terms:
            t = c
            for xi, p in zip(x, e): t = t * xi ** p
            y = y + t
        return y

def box(rng, d):
    names = list('PQRSTUVW'); rng.shuffle(names)
    a = [float(np.round(rng.uniform(-2, 2), 1)) for _ in range(d)]
    return [P.UniformDistr(l, l + float(np.round(rng.uniform(.5, 3), 1)), sym=n) for l, n in zip(a, names)]
def poly(rng, d):
    """positive on the box: squares plus one"""
    return [(1.0, (0,) * d)] + [(float(np.round(rng.uniform(.1, 2), 2)), tuple(int(2 * rng.integers(2)) for _ in range(d))) for _ in range(3)]
def joint(rng, d, V=None):
    V = V or box(rng, d)
    return Joint(poly(rng, d), V)
def point(rng, V): return [float(np.round(v.range()[0] + rng.uniform(.05, .95) * (v.range()[1] - v.range()[0]), 3)) for v in V]
GL = np.polynomial.legendre.leggauss(12)
def integrate(f, V):
    """over the box of V, exact for polynomials; f takes a list of numbers"""
    if not V: return f([])
    a, b = V[0].range()
    return sum(w * (b - a) / 2 * integrate(lambda r: f([x] + r), V[1:]) for x, w in zip((a + b) / 2 + (b - a) / 2 * GL[0], GL[1]))
def marg(f, V, out, at):
    """f of a dict {variable: number}"""
    return integrate(lambda xs: f({**at, **dict(zip(out, xs))}), out)
def of(j): return lambda at: float(j.pdf(*[at[v] for v in j.Vars]))
def pick(rng, V, lo=1, hi=None):
    k = int(rng.integers(lo, (hi or len(V)) + 1)); o = [V[i] for i in rng.permutation(len(V))[:k]]
    return o
def named(rng, j, vs):
    """as variables or as their numbers"""
    return list(vs) if rng.random() < .5 else [j.Vars.index(v) for v in vs]
def num(v): return float(np.squeeze(v))
def val(m, at): return num(m(*[at[v] for v in m.Vars]))
show = lambda V: [str(v.getSymname()) for v in V]

@D.check
def call(rep, rng):
    for _ in range(rep.scale(6)):
        d = int(rng.integers(1, 4)); j = joint(rng, d); V = j.Vars
        x = [p if rng.random() < .6 else p + float(rng.choice([-5, 5])) for p in point(rng, V)]
        inside = all(v.range()[0] <= t <= v.range()[1] for v, t in zip(V, x))
        want = of(j)(dict(zip(V, x))) if inside else 0.0
        rep.close(num(j(*x)), want, 'value of numbers', (show(V), [v.range() for v in V], x), 1e-9, 1e-9)
        xs = [np.array([x[i], point(rng, V)[i]]) for i in range(d)]
        got = np.asarray(j(*xs)); rep.close(num(got[0]), want, 'value of arrays', (show(V), x), 1e-9, 1e-9)
        k = [np.array([int(np.round(t))] * 2) for t in x]
        ins = all(v.range()[0] <= t[0] <= v.range()[1] for v, t in zip(V, k))
        rep.close(num(np.asarray(j(*k))[0]), of(j)(dict(zip(V, [float(t[0]) for t in k]))) if ins else 0.0, 'value of integer arrays', (show(V), [int(t[0]) for t in k]), 1e-9, 1e-9)

@D.check
def eliminate(rep, rng):
    for _ in range(rep.scale(5)):
        d = int(rng.integers(1, 4)); j = joint(rng, d); V = j.Vars
        out = pick(rng, V); m = j.eliminate(named(rng, j, out)); keep = [v for v in V if v not in out]
        rep.ok(list(m.Vars) == keep and m.d == len(keep), 'remaining variables', (show(V), show(out)), show(m.Vars), show(keep))
        at = dict(zip(V, point(rng, V)))
        rep.close(val(m, at) if keep else num(m()), marg(of(j), V, out, at), 'integral over the eliminated variables', (show(V), show(out), [v.range() for v in V], j.terms), 1e-6, 1e-8)

@D.check
def condition(rep, rng):
    for _ in range(rep.scale(5)):
        d = int(rng.integers(2, 4)); j = joint(rng, d); V = j.Vars
        on = pick(rng, V, 1, d - 1); at = dict(zip(V, point(rng, V))); keep = [v for v in V if v not in on]
        norm = bool(rng.random() < .6)
        m = j.condition(named(rng, j, on), *[at[v] for v in on], normalize=norm)
        rep.ok(list(m.Vars) == keep, 'remaining variables', (show(V), show(on)), show(m.Vars), show(keep))
        want = of(j)(at) / (marg(of(j), V, keep, at) if norm else 1.0)
        rep.close(val(m, at), want, 'conditional law', (show(V), show(on), norm, j.terms), 1e-6, 1e-8)
        m = j.condition(list(V), *[at[v] for v in V])
        rep.ok(isinstance(m, N.NDOneFactor), 'nothing left', show(V), type(m).__name__, 'NDOneFactor')

def product(rng):
    V = box(rng, 4)
    fs = [joint(rng, 2, [V[0], V[1]][::int(rng.choice([1, -1]))]), joint(rng, 2, [V[1], V[2]][::int(rng.choice([1, -1]))])]
    if rng.random() < .6: fs.append(V[3])
    if rng.random() < .4: fs.append(N.NDConstFactor(2.5))
    if rng.random() < .3: fs.append(N.NDOneFactor())
    if rng.random() < .3: fs.append(V[0])
    rng.shuffle(fs)
    def f(at):
        y = 1.0
        for g in fs:
            y *= g.pdf(at[g]) if isinstance(g, P.UniformDistr) else (g.c if isinstance(g, N.NDConstFactor) else of(g)(at))
        return float(y)
    p = N.NDProductDistr(fs)
    return p, f, [str(type(g).__name__) + str(show(g.Vars) if hasattr(g, 'Vars') else '') for g in fs]

@D.check
def products(rep, rng):
    for _ in range(rep.scale(10)):
        p, f, what = product(rng); V = p.Vars
        rep.ok(show(V) == sorted(show(V)), 'variables sorted by name', what, show(V), sorted(show(V)))
        at = dict(zip(V, point(rng, V)))
        rep.close(val(p, at), f(at), 'product is pointwise', what, 1e-9, 1e-12)
        out = pick(rng, V); m = p.eliminate(named(rng, p, out)); keep = [v for v in V if v not in out]
        got = val(m, at) if keep else num(m() if not isinstance(m, N.NDProductDistr) else m.as_constant())
        rep.close(got, marg(f, V, out, at), 'product eliminated', (what, show(out)), 1e-6, 1e-9)
        on = pick(rng, V, 1, len(V) - 1); keep = [v for v in V if v not in on]
        m = p.condition(named(rng, p, on), *[at[v] for v in on])
        rep.ok(sorted(show(m.Vars)) == sorted(show(keep)), 'variables of a conditioned product', (what, show(on)), show(m.Vars), show(keep))
        rep.close(val(m, at), f(at) / marg(f, V, keep, at), 'product conditioned', (what, show(on)), 1e-6, 1e-9)

@D.check
def conditional(rep, rng):
    for _ in range(rep.scale(3)):
        d = int(rng.integers(2, 4)); j = joint(rng, d); V = j.Vars
        on = pick(rng, V, 1, d - 1); at = dict(zip(V, point(rng, V))); free = [v for v in V if v not in on]
        c = N.ConditionalDistr(j, named(rng, j, on))
        want = of(j)(at) / marg(of(j), V, free, at)
        rep.close(val(c, at), want, 'density given the others', (show(V), show(on), j.terms), 1e-6, 1e-8)
        e = c.eliminate(free)
        rep.ok(isinstance(e, N.NDOneFactor), 'integrates to one', (show(V), show(on)), type(e).__name__, 'NDOneFactor')
        fix = pick(rng, on, 1, len(on))
        g = c.condition(named(rng, c, fix), *[at[v] for v in fix])
        rep.close(val(g, at), want, 'values given', (show(V), show(on), show(fix), j.terms), 1e-6, 1e-8)
        if len(free) > 1:
            e = c.eliminate([free[0]])
            rep.close(val(e, at), marg(of(j), V, [free[0]], at) / marg(of(j), V, free, at), 'one of the free variables', (show(V), show(on)), 1e-6, 1e-8)

@D.check
def normal(rep, rng):
    for _ in range(rep.scale(4)):
        d = int(rng.integers(2, 5)); A = rng.normal(size=(d, d)); S = np.round(A @ A.T + np.eye(d) * .3, 3); S = S * float(rng.choice([.3, 1, 9])); mu = np.round(rng.normal(size=d), 2)
        n = N.NDNormalDistr(mu, S); x = mu + np.round(rng.normal(size=d) * .5, 2)
        def dens(x, mu, S):
            k = len(mu); z = np.asarray(x) - mu
            return float(np.exp(-.5 * z @ np.linalg.solve(S, z)) / np.sqrt(np.linalg.det(S) * (2 * np.pi) ** k))
        key = (mu.tolist(), S.tolist(), x.tolist())
        rep.close(num(n(*x)), dens(x, mu, S), 'normal density', key, 1e-9, 1e-300)
        rep.close(num(n.pdf(*[np.array([t, t]) for t in x])[1]), dens(x, mu, S), 'normal density of arrays', key, 1e-9, 1e-300)
        k = [np.array([int(t)] * 2) for t in np.round(x)]
        rep.close(num(n.pdf(*k)[0]), dens(np.round(x).astype(int), mu, S), 'normal density of integers', key, 1e-9, 1e-300)
        far = mu + np.sqrt(np.diag(S)) * 1.5
        rep.close(num(n(*far)), dens(far, mu, S), 'within its range', key, 1e-9, 1e-300)
        for i in range(d): rep.close(n.Vars[i].std(), np.sqrt(S[i, i]), 'deviation of default marginals', key, 1e-6, 1e-9)
        out = [int(t) for t in rng.permutation(d)[:int(rng.integers(1, d))]]; keep = [i for i in range(d) if i not in out]
        m = n.eliminate(out)
        rep.close(num(m.pdf(*x[keep])), dens(x[keep], mu[keep], S[np.ix_(keep, keep)]), 'normal marginal', (key, out), 1e-8, 1e-300)
        c = n.condition(out, *[x[i] for i in out])
        rep.close(num(c.pdf(*x[keep])), dens(x, mu, S) / dens(x[out], mu[out], S[np.ix_(out, out)]), 'normal conditional', (key, out), 1e-7, 1e-300)
        rep.ok([v.id() for v in c.Vars] == [n.Vars[i].id() for i in keep], 'variables of the conditional', (key, out), None, None)

def sum_of(*x): return sum(x)
@D.check
def noisy(rep, rng):
    for _ in range(rep.scale(4)):
        d = int(rng.integers(1, 4)); V = box(rng, d); e = P.UniformDistr(-.5, .75)
        n = N.NDNoisyFun(sum_of, list(V), e, value_sym='val')
        x = point(rng, V); z = sum(x) + float(np.round(rng.uniform(-.9, 1.1), 3))
        want = float(e.pdf(z - sum(x)))
        rep.close(num(n(*(x + [z]))), want, 'noise at the difference', (show(V), x, z), 1e-9, 1e-12)
        rep.close(num(n(*[np.array([t, t]) for t in x + [z]])[0]), want, 'noise at the difference (arrays)', (show(V), x, z), 1e-9, 1e-12)
        allv = n.Vars; at = dict(zip(allv, x + [z])); fix = pick(rng, allv, 1, d)
        c = n.condition(named(rng, n, fix), *[at[v] for v in fix])
        rep.ok(list(c.Vars) == [v for v in allv if v not in fix] and c.d == len(c.Vars), 'variables after conditioning', (show(allv), show(fix)), (show(c.Vars), c.d), None)
        rep.close(num(np.asarray(c(*[np.array([at[v]] * 2) for v in c.Vars]))[0]), want, 'conditioned noisy function', (show(allv), show(fix), x, z), 1e-9, 1e-12)

def prod2(x, y): return x - 2 * y
def one(*x): return 1.0
@D.check
def substitution(rep, rng):
    for _ in range(rep.scale(4)):
        d = int(rng.integers(2, 4)); j = joint(rng, d); V = j.Vars
        new = P.UniformDistr(-9, 9, sym='new'); k = int(rng.integers(d)); o = V[int(rng.choice([i for i in range(d) if i != k]))]
        args = [new, o] if rng.random() < .5 else [o, new]
        s = N.NDDistrWithVarSubst(j, V[k] if rng.random() < .5 else k, prod2, args)
        at = dict(zip(V, point(rng, V))); at[new] = .3
        full = dict(at); full[V[k]] = prod2(*[at[v] for v in args]); a, b = V[k].range()
        want = of(j)(full) if a <= full[V[k]] <= b else 0.0
        rep.close(num(s.pdf(*[at[v] for v in s.Vars])), want, 'substituted variable', (show(V), k, show(args)), 1e-9, 1e-12)
        rep.ok(set(s.Vars) == (set(V) - {V[k]}) | {new}, 'variables after substitution', (show(V), k), show(s.Vars), None)

@D.check
def moments(rep, rng):
    for _ in range(rep.scale(2)):
        j0 = joint(rng, 3 if rng.random() < .4 else 2); Z = marg(of(j0), j0.Vars, list(j0.Vars), {}); j = Joint([(c / Z, e) for c, e in j0.terms], j0.Vars); V = j.Vars
        i, k = [int(t) for t in rng.permutation(len(V))[:2]]
        E = lambda g: marg(lambda at: of(j)(at) * g(at), V, list(V), {})
        mi, mk = E(lambda at: at[V[i]]), E(lambda at: at[V[k]])
        rep.close(num(j.cov(i, k)), E(lambda at: (at[V[i]] - mi) * (at[V[k]] - mk)), 'covariance', (show(V), i, k, j.terms), 1e-4, 1e-6)
        rep.close(num(j.cov(V[i], V[i])), E(lambda at: (at[V[i]] - mi) ** 2), 'variance', (show(V), i, j.terms), 1e-4, 1e-6)

@D.check
def order_statistics(rep, rng):
    for _ in range(rep.scale(1)):
        f = P.UniformDistr(0, 1) if rng.random() < .5 else P.BetaDistr(2, 2); F = lambda x: x if isinstance(f, P.UniformDistr) else 3 * x ** 2 - 2 * x ** 3; g = lambda x: 1.0 if isinstance(f, P.UniformDistr) else 6 * x * (1 - x)
        n = int(rng.integers(2, 6)); i = int(rng.integers(1, n)); j = int(rng.integers(i + 1, n + 1))
        o = N.IJthOrderStatsNDDistr(f, n, i, j); x, y = [float(np.round(t, 3)) for t in rng.uniform(.05, .95, 2)]
        from math import factorial as ft
        want = 0.0 if x >= y else ft(n) / (ft(i - 1) * ft(j - i - 1) * ft(n - j)) * F(x) ** (i - 1) * (F(y) - F(x)) ** (j - i - 1) * (1 - F(y)) ** (n - j) * g(x) * g(y)
        rep.close(num(o(x, y)), want, 'joint density of order statistics', (str(f), n, i, j, x, y), 1e-6, 1e-9)

@D.check
def infinite(rep, rng):
    for _ in range(rep.scale(2)):
        X = [P.NormalDistr(1, 2, sym='n'), P.ExponentialDistr(1, sym='n'), -P.ExponentialDistr(1)][int(rng.integers(3))]; Y = P.BetaDistr(2, 2, sym='y')
        rep.close(num(N.Factor1DDistr(X).eliminate([0])()), 1.0, 'whole infinite range', str(X), 1e-5, 1e-8)
        p = N.NDProductDistr([X, Y]).eliminate(X)
        rep.close(num(p(.3)), num(Y.pdf(.3)), 'infinite range in a product', str(X), 1e-5, 1e-8)
