"""C05 products and quotients on the running code"""
import numpy as np
import pacal as P
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, O, random_law
from .c06 import atomic
from . import ops
D = Driver()

def zero_mass(o1, o2):
    p, q = o1.atoms.get(0.0, 0.0), o2.atoms.get(0.0, 0.0)
    return p + q - p * q

def compare(rep, rng, o1, o2, div=False, n=5, **kw):
    if div:
        d = o1.make() / o2.make(); op = lambda a, b: a / b if b != 0 else np.inf
        at = {k: v for k, v in ops.atoms(o1, o2, op).items() if k != 0}
        if 0.0 in o1.atoms: at[0.0] = o1.atoms[0.0]
    else:
        d = o1.make() * o2.make(); op = lambda a, b: a * b
        at = ops.atoms(o1, o2, op)
        m = zero_mass(o1, o2)
        at = {k: v for k, v in at.items() if k != 0}
        if m > 0: at[0.0] = m
    inp = '%s %s %s' % (o1.name, '/' if div else '*', o2.name)
    zs = ops.points(rng, o1, o2, op, n)
    want = [(ops.div_pdf if div else ops.prod_pdf)(o1, o2, z) for z in zs]
    ops.check_law(rep, d, zs, want, at, inp, **kw)

PAIRS = [('U(0,1)', 'U(-1,2)'), ('Normal(0,1)', 'U(1,3)'), ('Exp(1)', 'Exp(3)'), ('Normal(1,2)', 'Normal(-3,0.5)'), ('Beta(0.5,0.7)', 'U(-4,-1)'), ('Exp(1)', 'Normal(0,1)'),
         ('Triang', 'Laplace'), ('Discrete', 'U(0,1)'), ('Discrete', 'Discrete'), ('Const(2.5)', 'Gamma(2,1.5)'), ('Mix(.4 Const(-1),.6 U(1,2))', 'U(0,1)'),
         ('Mix(.3 Const(1),.7 N(0,1))', 'Discrete'), ('Cauchy', 'U(1,3)'), ('Chi2(1)', 'U(1,3)'), ('U(-4,-1)', 'U(-1,2)'), ('U(-1,2)', 'U(-1,2)'), ('Normal(0,1)', 'Normal(0,1)')]

@D.check
def standard_laws(rep, rng):
    cat = catalogue(P)
    k = len(PAIRS) if rep.thorough else 8
    for i in rng.permutation(len(PAIRS))[:k]:
        a, b = PAIRS[i]
        if rng.uniform() < 0.5: a, b = b, a
        div = bool(rng.uniform() < 0.5)
        o1, o2 = by_name(cat, a)[0], by_name(cat, b)[0]
        compare(rep, rng, o1, o2, div, rtol=2e-3)

def no_zero(o): return 0.0 not in o.atoms

@D.check
def random_finite(rep, rng):
    for _ in range(rep.scale(8)):
        o1, o2 = random_law(P, rng, int(rng.integers(1, 4)), infinite=False), random_law(P, rng, int(rng.integers(1, 3)), infinite=False)
        compare(rep, rng, o1, o2, False, n=4, rtol=1e-3)
        if no_zero(o2): compare(rep, rng, o1, o2, True, n=4, rtol=1e-3)

@D.check
def random_infinite(rep, rng):
    for _ in range(rep.scale(3)):
        o1, o2 = random_law(P, rng, int(rng.integers(1, 3))), random_law(P, rng, int(rng.integers(1, 3)))
        compare(rep, rng, o1, o2, False, n=4, rtol=1e-3)
        if no_zero(o2): compare(rep, rng, o1, o2, True, n=4, rtol=1e-3)

@D.check
def random_atoms(rep, rng):
    grid = [-2.0, -1.0, 0.0, 1.0, 2.5]
    for _ in range(rep.scale(6)):
        o1, o2 = atomic(rng, int(rng.integers(1, 4)), grid, rng.uniform() < .5), atomic(rng, int(rng.integers(1, 4)), grid, rng.uniform() < .5)
        compare(rep, rng, o1, o2, False, n=4, rtol=1e-3)
        if no_zero(o2): compare(rep, rng, o1, o2, True, n=4, rtol=1e-3)
