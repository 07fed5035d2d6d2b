"""C16 conditional distributions on the running code"""
import numpy as np
import pacal as P
from pacal.distr import Gt, Lt, Between
from .lib import Driver
from .cat import catalogue, by_name, random_law
from .c06 import atomic
D = Driver()

def law(rep, rng, o, cond, inp=None, rtol=2e-4, n=10):
    kind, L, U = cond
    inside = (lambda x: x > L) if kind == 'gt' else (lambda x: x < U) if kind == 'lt' else (lambda x: L < x < U)
    F = lambda x: float(o.cdf(x))
    lo = F(L) if kind != 'lt' else 0.0
    hi = F(U) - o.atoms.get(U, 0.0) if kind != 'gt' else 1.0
    pm = hi - lo
    if pm < 0.02: return
    inp = '%s | %s' % (o.name, cond)
    d = o.make() | (Gt(L) if kind == 'gt' else Lt(U) if kind == 'lt' else Between(L, U))
    f = d.get_piecewise_pdf()
    a = max(o.lo, L) if kind != 'lt' else o.lo; b = min(o.hi, U) if kind != 'gt' else o.hi
    a0 = a if np.isfinite(a) else -6.0; b0 = b if np.isfinite(b) else 6.0
    xs = [x for x in rng.uniform(a0 - 1.5, b0 + 1.5, n) if all(abs(x - e) > 5e-3 for e in list(o.sing) + list(o.atoms) + [o.lo, o.hi, L if L is not None else 1e9, U if U is not None else 1e9])]
    want = [float(o.pdf(x)) / pm if inside(x) else 0.0 for x in xs]
    rep.close([float(d.pdf(x)) for x in xs], want, 'conditional density', '%s at %s' % (inp, xs), rtol, 1e-5)
    at = {p: m / pm for p, m in o.atoms.items() if inside(p)}
    got = {float(s.a): float(s.f) for s in f.segments if s.isDirac() and abs(s.f) > 1e-9}
    rep.ok(len(at) == len(got) and all(any(abs(q - p) < 1e-9 and abs(w - m) < 1e-6 for q, w in got.items()) for p, m in at.items()), 'conditional point masses', inp, at, got)
    rep.close(float(f.integrate()), 1.0, 'total mass one', inp, 1e-5, 1e-5)
    zs = [float(z) for z in rng.uniform(a0 - 1, b0 + 1, 5)]
    cdf = [min(1.0, max(0.0, ((F(z) if (U is None or z < U) else hi) - lo) / pm)) if (L is None or z > L) else 0.0 for z in zs]
    rep.close([float(d.cdf(z)) for z in zs], cdf, 'conditional distribution function', '%s at %s' % (inp, zs), 1e-4, 1e-5)

def bounds(rng, o):
    lo = o.lo if np.isfinite(o.lo) else -3.0; hi = o.hi if np.isfinite(o.hi) else 3.0
    special = list(o.atoms) + list(o.sing) + [lo, hi, lo - 1.0, hi + 1.0, 0.0]
    pick = lambda: float(rng.choice(special)) if rng.uniform() < .45 else float(np.round(rng.uniform(lo - .2, hi + .2), 2))
    return pick(), pick()

def try_all(rep, rng, o):
    L, U = sorted(bounds(rng, o))
    for cond in (('gt', L, None), ('lt', None, U), ('between', L, U)):
        if cond[0] == 'between' and not L < U: continue
        law(rep, rng, o, cond)

@D.check
def standard_laws(rep, rng):
    cat = catalogue(P)
    for o in [cat[i] for i in rng.permutation(len(cat))[:len(cat) if rep.thorough else 14]]: try_all(rep, rng, o)

@D.check
def random_finite(rep, rng):
    for _ in range(rep.scale(12)): try_all(rep, rng, random_law(P, rng, int(rng.integers(1, 4)), infinite=False))

@D.check
def random_infinite(rep, rng):
    for _ in range(rep.scale(8)): try_all(rep, rng, random_law(P, rng, int(rng.integers(1, 4))))

@D.check
def atomic_laws(rep, rng):
    g = [-2.0, -1.0, 0.0, 1.0, 2.5]
    for _ in range(rep.scale(15)): try_all(rep, rng, atomic(rng, int(rng.integers(2, 5)), g, rng.uniform() < .4))

@D.check
def samples(rep, rng):
    """samples satisfy the event and follow the conditional distribution function"""
    g = [-2.0, -1.0, 0.0, 1.0, 2.5]
    for j in range(rep.scale(10)):
        o = atomic(rng, int(rng.integers(2, 5)), g, rng.uniform() < .4) if j % 2 else random_law(P, rng, int(rng.integers(1, 3)))
        F = lambda x: float(o.cdf(x))
        L, U = sorted(bounds(rng, o))
        for cond, l, u in ((Gt(L), L, np.inf), (Lt(U), -np.inf, U), (Between(L, U), L, U)):
            lo, hi = F(l) if np.isfinite(l) else 0.0, F(u) - o.atoms.get(u, 0.0) if np.isfinite(u) else 1.0
            if not l < u or hi - lo < .05: continue
            inp = '%s | %r<X<%r' % (o.name, l, u)
            d = o.make() | cond
            x = np.asarray(d.rand(4000))
            rep.ok(x.shape == (4000,) and bool(np.all((l < x) & (x < u))), 'samples satisfy the condition', inp, 'inside', (x.shape, x.min(), x.max()))
            s = d.rand()
            rep.ok(np.ndim(s) == 0 and l < s < u, 'a single sample', inp, 'inside', s)
            for z in rng.uniform(max(l, -4), min(u, 4), 2) if max(l, -4) < min(u, 4) else []:
                rep.close(float(np.mean(x <= z)), (F(z) - lo) / (hi - lo), 'empirical distribution function', '%s at %r' % (inp, z), 0, .045)
