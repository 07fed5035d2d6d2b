"""C04 sums and differences on the running code"""
import numpy as np
import pacal as P
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, O, random_law
from . import ops
D = Driver()

def compare(rep, rng, o1, o2, sub=False, n=5, **kw):
    d = o1.make() - o2.make() if sub else o1.make() + o2.make()
    op = (lambda a, b: a - b) if sub else (lambda a, b: a + b)
    inp = '%s %s %s' % (o1.name, '-' if sub else '+', o2.name)
    zs = ops.points(rng, o1, o2, op, n)
    if np.isfinite([o1.lo, o1.hi, o2.lo, o2.hi]).all():
        c = [op(o1.lo, o2.lo), op(o1.hi, o2.hi), op(o1.lo, o2.hi), op(o1.hi, o2.lo)]
        out = np.array([min(c) - 0.6, max(c) + 0.6])
        rep.close([float(d.pdf(z)) for z in out], [0.0, 0.0], 'density zero outside of the support', inp + ' at %s' % list(out))
    want = [ops.sum_pdf(o1, o2, z, -1 if sub else 1) for z in zs]
    ops.check_law(rep, d, zs, want, ops.atoms(o1, o2, op), inp, **kw)

@D.check
def standard_laws(rep, rng):
    cat = catalogue(P)
    pairs = [('U(0,1)', 'U(-1,2)'), ('Normal(0,1)', 'U(1,3)'), ('Exp(1)', 'Exp(3)'), ('Normal(1,2)', 'Normal(-3,0.5)'), ('Beta(0.5,0.7)', 'U(-4,-1)'), ('Exp(1)', 'Normal(0,1)'),
             ('Triang', 'Laplace'), ('Discrete', 'U(0,1)'), ('Discrete', 'Discrete'), ('Const(2.5)', 'Gamma(2,1.5)'), ('Mix(.4 Const(-1),.6 U(1,2))', 'U(0,1)'),
             ('Mix(.3 Const(1),.7 N(0,1))', 'Discrete'), ('Cauchy', 'U(0,1)'), ('Chi2(1)', 'U(0,1)')]
    k = len(pairs) if rep.thorough else 9
    for i in rng.permutation(len(pairs))[:k]:
        a, b = pairs[i]
        if rng.uniform() < 0.5: a, b = b, a
        compare(rep, rng, by_name(cat, a)[0], by_name(cat, b)[0], sub=bool(rng.uniform() < 0.5), rtol=1e-3)

@D.check
def random_finite(rep, rng):
    """mixtures with gaps, atoms and coinciding break points"""
    for _ in range(rep.scale(10)):
        o1, o2 = random_law(P, rng, int(rng.integers(1, 4)), infinite=False), random_law(P, rng, int(rng.integers(1, 3)), infinite=False)
        compare(rep, rng, o1, o2, sub=bool(rng.uniform() < 0.5))

@D.check
def random_infinite(rep, rng):
    for _ in range(rep.scale(5)):
        o1, o2 = random_law(P, rng, int(rng.integers(1, 3))), random_law(P, rng, int(rng.integers(1, 3)))
        compare(rep, rng, o1, o2, sub=bool(rng.uniform() < 0.5), n=4)

@D.check
def gaps(rep, rng):
    """a gap in one operand, the other narrower than it"""
    for _ in range(rep.scale(3)):
        a, b, c, d = np.sort(np.round(rng.uniform(-3, 3, 4), 2) + [0, .3, .9, 1.4])
        w = round(rng.uniform(.05, .3), 2)
        u = by_name(catalogue(P), 'U(0,1)')[0].sc
        from scipy import stats
        o1 = O('gap(%g,%g,%g,%g)' % (a, b, c, d), lambda: P.MixDistr([.4, .6], [P.UniformDistr(a, b), P.UniformDistr(c, d)]), None, lo=a, hi=d, atoms={},
               pdf=lambda x: .4 * stats.uniform(a, b - a).pdf(x) + .6 * stats.uniform(c, d - c).pdf(x), cdf=lambda x: 0, sing=[a, b, c, d])
        o2 = O('U(0,%g)' % w, lambda: P.UniformDistr(0, w), stats.uniform(0, w))
        compare(rep, rng, o1, o2, n=8)
        compare(rep, rng, o2, o1, sub=True, n=8)
