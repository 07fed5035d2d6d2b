"""C06 minimum and maximum on the running code"""
import numpy as np
import pacal as P
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, O, random_law
from . import ops
D = Driver()

def extreme_atoms(o1, o2, mx):
    """masses from the jumps of the distribution function"""
    m1 = lambda p: o1.atoms.get(p, 0.0)
    m2 = lambda p: o2.atoms.get(p, 0.0)
    r = {}
    for p in set(o1.atoms) | set(o2.atoms):
        F, G = float(o1.cdf(p)), float(o2.cdf(p))
        F0, G0 = F - m1(p), G - m2(p)
        v = F * G - F0 * G0 if mx else (1 - F0) * (1 - G0) - (1 - F) * (1 - G)
        if v > 1e-12: r[p] = v
    return r

def compare(rep, rng, o1, o2, mx, n=5, rtol=2e-4):
    inp = '%s(%s, %s)' % ('max' if mx else 'min', o1.name, o2.name)
    d = (P.max if mx else P.min)(o1.make(), o2.make())
    op = max if mx else min
    zs = ops.points(rng, o1, o2, op, n)
    want = [(ops.max_pdf if mx else ops.min_pdf)(o1, o2, z) for z in zs]
    ops.check_law(rep, d, zs, want, extreme_atoms(o1, o2, mx), inp, rtol=rtol)
    F = lambda z: float(o1.cdf(z)) * float(o2.cdf(z)) if mx else 1 - (1 - float(o1.cdf(z))) * (1 - float(o2.cdf(z)))
    zz = list(zs) + [p for p in list(o1.atoms) + list(o2.atoms)]
    rep.close([float(d.cdf(z)) for z in zz], [F(z) for z in zz], 'distribution function', inp + ' at %s' % zz, rtol=1e-4, atol=1e-5)

@D.check
def standard_laws(rep, rng):
    cat = catalogue(P)
    pairs = [('U(0,1)', 'U(-1,2)'), ('Normal(0,1)', 'U(1,3)'), ('Exp(1)', 'Exp(3)'), ('Normal(1,2)', 'Normal(-3,0.5)'), ('Beta(0.5,0.7)', 'U(-4,-1)'), ('Exp(1)', 'Normal(0,1)'),
             ('Triang', 'Laplace'), ('Discrete', 'U(0,1)'), ('Discrete', 'Discrete'), ('Const(2.5)', 'Gamma(2,1.5)'), ('Mix(.4 Const(-1),.6 U(1,2))', 'U(0,1)'),
             ('Mix(.3 Const(1),.7 N(0,1))', 'Discrete'), ('Cauchy', 'U(0,1)'), ('Chi2(1)', 'U(0,1)'), ('Const(2.5)', 'Const(2.5)'), ('Const(2.5)', 'U(0,1)')]
    k = len(pairs) if rep.thorough else 9
    for i in rng.permutation(len(pairs))[:k]:
        a, b = pairs[i]
        if rng.uniform() < 0.5: a, b = b, a
        compare(rep, rng, by_name(cat, a)[0], by_name(cat, b)[0], bool(rng.uniform() < 0.5), rtol=1e-3)

@D.check
def random_finite(rep, rng):
    for _ in range(rep.scale(10)):
        o1, o2 = random_law(P, rng, int(rng.integers(1, 4)), infinite=False), random_law(P, rng, int(rng.integers(1, 3)), infinite=False)
        for mx in (True, False): compare(rep, rng, o1, o2, mx)

@D.check
def random_infinite(rep, rng):
    for _ in range(rep.scale(5)):
        o1, o2 = random_law(P, rng, int(rng.integers(1, 3))), random_law(P, rng, int(rng.integers(1, 3)))
        for mx in (True, False): compare(rep, rng, o1, o2, mx, n=4)

def atomic(rng, n, grid, cont=False):
    """discrete law (with a uniform part when cont) with atoms on a common grid"""
    from scipy import stats
    p = sorted(float(v) for v in rng.choice(grid, n, replace=False)); w = rng.uniform(.2, 1, n); w = w / w.sum()
    if not cont: return O('Discrete(%s, %s)' % (p, [float(v) for v in np.round(w, 4)]), lambda: P.DiscreteDistr(p, list(w)), atoms=dict(zip(p, w)))
    a, b = sorted(float(v) for v in rng.choice(grid, 2, replace=False))
    u = stats.uniform(a, b - a)
    return O('Mix(.5 Discrete(%s, %s), .5 U(%g,%g))' % (p, [float(v) for v in np.round(w, 4)], a, b), lambda: P.MixDistr([.5, .5], [P.DiscreteDistr(p, list(w)), P.UniformDistr(a, b)]),
             u, lo=min(a, p[0]), hi=max(b, p[-1]), atoms={k: .5 * v for k, v in zip(p, w)}, w=.5, sing=[a, b])

@D.check
def shared_atoms(rep, rng):
    grid = [-2.0, -1.0, 0.0, 1.0, 2.5]
    for _ in range(rep.scale(8)):
        o1, o2 = atomic(rng, int(rng.integers(1, 4)), grid, rng.uniform() < .3), atomic(rng, int(rng.integers(1, 4)), grid, rng.uniform() < .3)
        for mx in (True, False): compare(rep, rng, o1, o2, mx, n=3)
