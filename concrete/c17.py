"""C17 ranges, ancestors and names of random expressions on the running code"""
import numpy as np
import pacal as P
from pacal import distr as DD, rv as R
from .lib import Driver
D = Driver()

def leaf(rng, i):
    k = rng.integers(0, 6)
    a = float(np.round(rng.uniform(-3, 3), 1)); b = a + float(np.round(rng.uniform(.3, 3), 1))
    return [lambda: P.UniformDistr(a, b), lambda: P.UniformDistr(.5, b - a + .5), lambda: P.UniformDistr(0, b - a), lambda: P.UniformDistr(a - b, 0),
            lambda: P.DiscreteDistr([a, b], [.4, .6]), lambda: P.ConstDistr(a if a else 1.0)][k]()

def rand_leaf(rng, d, n):
    a, b = d.range()
    if isinstance(d, P.DiscreteDistr): return np.asarray(d.xi, float)[rng.integers(0, len(d.xi), n)]
    v = rng.uniform(a, b, n); v[0], v[1] = a, b
    return v

def tree(rng, depth, leaves, vals, n):
    """(variable, values of it, ancestors, name as a formula of values)"""
    if depth == 0 or rng.uniform() < .15:
        if leaves and rng.uniform() < .3:
            d = leaves[rng.integers(0, len(leaves))]; return d, vals[id(d)], {id(d)}
        d = leaf(rng, len(leaves)); leaves.append(d); vals[id(d)] = rand_leaf(rng, d, n)
        return d, vals[id(d)], {id(d)}
    k = rng.integers(0, 12)
    if k < 6:
        p, u, s = tree(rng, depth - 1, leaves, vals, n); q, v, t = tree(rng, depth - 1, leaves, vals, n)
        op = ['+', '-', '*', '/', 'min', 'max'][k]
        if op == '/' and (np.any(v == 0)): op = '*'
        e = {'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q, '/': lambda: p / q, 'min': lambda: DD.min(p, q), 'max': lambda: DD.max(p, q)}[op]()
        w = {'+': lambda: u + v, '-': lambda: u - v, '*': lambda: u * v, '/': lambda: u / v, 'min': lambda: np.minimum(u, v), 'max': lambda: np.maximum(u, v)}[op]()
        return e, w, s | t | {id(e)}
    p, u, s = tree(rng, depth - 1, leaves, vals, n)
    c = float(rng.choice([-2.0, -.5, .5, 3.0]))
    f = [(lambda: p * c, lambda: u * c), (lambda: p + c, lambda: u + c), (lambda: c - p, lambda: c - u), (lambda: abs(p), lambda: abs(u)), (lambda: p ** 2, lambda: u * u), (lambda: DD.atan(p), lambda: np.arctan(u))][k - 6]
    e = f[0](); return e, f[1](), s | {id(e)}

@D.check
def expressions(rep, rng):
    import warnings; warnings.simplefilter('ignore')
    for _ in range(rep.scale(150)):
        leaves, vals = [], {}
        e, w, anc = tree(rng, int(rng.integers(1, 5)), leaves, vals, 60)
        w = w[np.isfinite(w)]
        name = e.getName()
        a, b = e.range(); tol = 1e-9 * (1 + np.max(np.abs(w))) if len(w) else 0
        rep.ok(len(w) == 0 or (a <= w.min() + tol and w.max() - tol <= b), 'range contains the values', name, (float(w.min()), float(w.max())) if len(w) else (), (float(a), float(b)))
        rep.ok({id(v) for v in e.getParentsAll()} == anc, 'all variables of the expression', name, len(anc), len(e.getParentsAll()))
        rep.ok(e.getParentsFree() == {v for v in e.getParentsAll() if not v.parents}, 'free variables', name, '', '')
        rep.ok(e.getAncestorIDs() == {v.id() for v in e.getParentsAll()}, 'ancestors', name, '', '')
        l, r = e.getEquations()
        rep.ok(len(r) == len([v for v in e.getParentsAll() if v.parents]), 'an equation for every dependent variable', name, len([v for v in e.getParentsAll() if v.parents]), len(r))

@D.check
def range_of_laws(rep, rng):
    for mk, n in [(lambda: P.PoissonDistr(2), 'Poisson'), (lambda: P.BinomialDistr(5, .3), 'Binomial'), (lambda: P.MixDistr([.5, .5], [P.UniformDistr(1, 2), P.ConstDistr(7)]), 'mixture'), (lambda: P.exp(P.NormalDistr()), 'lognormal'),
                  (lambda: P.NormalDistr() ** 2, 'square'), (lambda: 1 / P.UniformDistr(1, 2), 'reciprocal'), (lambda: P.log(P.UniformDistr(0, 1)), 'log'), (lambda: P.UniformDistr(0, 2) | DD.Gt(1), 'conditional'), (lambda: P.UniformDistr(0, 2) | DD.Between(-1, 5), 'conditional 2'),
                  (lambda: P.DiscreteDistr([3, 1, 2], [.2, .3, .5]), 'discrete'), (lambda: P.UniformDistr(1, 2) + P.ConstDistr(3), 'shifted'), (lambda: P.tan(P.UniformDistr(-1, 1)), 'tan'), (lambda: P.sin(P.UniformDistr(0, 2)), 'sin'), (lambda: P.sign(P.NormalDistr()), 'sign')]:
        d = mk(); a, b = d.range(); lo, hi = d.get_piecewise_pdf().range()
        rep.ok(a <= lo + 1e-9 and hi - 1e-9 <= b, 'range covers the law', n, (float(lo), float(hi)), (float(a), float(b)))
