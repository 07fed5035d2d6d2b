"""oracles for operations on two independent variables: the defining integral evaluated with scipy, independent of the code under test"""
import numpy as np
from .cat import quad

def ends(o):
    r = [s for s in list(o.sing) + [o.lo, o.hi] if np.isfinite(s)]
    return sorted(set(r))
def rng_of(o):
    return o.lo, o.hi

def _int(f, a, b, pts):
    """quadrature over (a,b), infinite ends cut where the densities are negligible"""
    if not a < b: return 0.0
    return quad(f, a, b, pts)

def sum_pdf(o1, o2, z, sign=1):
    """density of X + sign*Y at z"""
    f = lambda t: float(o1.pdf(t)) * float(o2.pdf(sign * (z - t)))
    b2 = [z - sign * e for e in ends(o2)]
    lo2, hi2 = (z - o2.hi, z - o2.lo) if sign > 0 else (z + o2.lo, z + o2.hi)
    a, b = max(o1.lo, lo2), min(o1.hi, hi2)
    v = _int(f, a, b, ends(o1) + b2)
    for p, m in o1.atoms.items(): v += m * float(o2.pdf(sign * (z - p)))
    for p, m in o2.atoms.items(): v += m * float(o1.pdf(z - sign * p))
    return v

def prod_pdf(o1, o2, z):
    """density of X*Y at z != 0"""
    f = lambda t: 0.0 if t == 0 else float(o1.pdf(t)) * float(o2.pdf(z / t)) / abs(t)
    br = ends(o1) + [z / e for e in ends(o2) if e != 0] + [0.0]
    v = _int(f, o1.lo, o1.hi, br + ([-1.0, 1.0]))
    for p, m in o1.atoms.items():
        if p != 0: v += m * float(o2.pdf(z / p)) / abs(p)
    for p, m in o2.atoms.items():
        if p != 0: v += m * float(o1.pdf(z / p)) / abs(p)
    return v

def div_pdf(o1, o2, z):
    """density of X/Y at z"""
    f = lambda u: abs(u) * float(o1.pdf(z * u)) * float(o2.pdf(u))
    br = ends(o2) + ([e / z for e in ends(o1)] if z != 0 else []) + [0.0]
    v = _int(f, o2.lo, o2.hi, br)
    for p, m in o1.atoms.items():
        if p != 0 and z != 0: v += m * float(o2.pdf(p / z)) * abs(p) / z ** 2
    for p, m in o2.atoms.items(): v += m * float(o1.pdf(z * p)) * abs(p)
    return v

def max_pdf(o1, o2, z): return float(o1.pdf(z)) * float(o2.cdf(z)) + float(o2.pdf(z)) * float(o1.cdf(z))
def min_pdf(o1, o2, z): return float(o1.pdf(z)) * (1 - float(o2.cdf(z))) + float(o2.pdf(z)) * (1 - float(o1.cdf(z)))

def atoms(o1, o2, op):
    r = {}
    for p, m in o1.atoms.items():
        for q, n in o2.atoms.items():
            k = op(p, q); r[k] = r.get(k, 0.0) + m * n
    return r

def points(rng, o1, o2, op, n=6, eps=4e-3):
    """points reached by the operation, away from images of break points"""
    def draw(o):
        for _ in range(50):
            lo = o.lo if np.isfinite(o.lo) else min([o.hi] + ends(o) if np.isfinite(o.hi) else ends(o) + [0.0]) - 2.5
            hi = o.hi if np.isfinite(o.hi) else max([o.lo] + ends(o) if np.isfinite(o.lo) else ends(o) + [0.0]) + 2.5
            return rng.uniform(lo, hi)
    br = []
    with np.errstate(all='ignore'):
        for a in ends(o1) + list(o1.atoms) + [0.0, 1.0, -1.0]:
            for b in ends(o2) + list(o2.atoms) + [0.0, 1.0, -1.0]:
                if a in (0.0, 1.0, -1.0) and b in (0.0, 1.0, -1.0) and op(2.0, 3.0) == 5.0: continue
                v = op(a, b)
                if np.isfinite(v): br.append(v)
    out = []
    for _ in range(20 * n):
        z = op(draw(o1), draw(o2))
        if np.isfinite(z) and abs(z) < 30 and all(abs(z - b) > eps for b in br): out.append(float(z))
        if len(out) == n: break
    return np.array(out)

def check_law(rep, d, zs, want, at, inp, rtol=2e-4, atol=2e-6, allatoms=True):
    """density (scalar and array) and atoms of d"""
    pp = d.get_piecewise_pdf()
    if len(zs):
        rep.close([float(d.pdf(z)) for z in zs], want, 'density', inp + ' at %s' % list(zs), rtol=rtol, atol=atol)
        rep.close(pp(np.array(zs)), want, 'density (array)', inp + ' at %s' % list(zs), rtol=rtol, atol=atol)
    got = {}
    for s in pp.getDiracs(): got[float(s.a)] = got.get(float(s.a), 0.0) + float(s.f)
    for k, m in at.items():
        g = sum(v for q, v in got.items() if abs(q - k) < 1e-9)
        rep.close(g, m, 'mass of the atom at %g' % k, inp, rtol=1e-6, atol=1e-9)
    if allatoms:
        extra = [q for q, v in got.items() if v != 0 and all(abs(q - k) >= 1e-9 for k in at)]
        rep.same(extra, [], 'no other atoms', inp)
    b = [(s.a, s.b) for s in pp.segments]
    rep.ok(all(b[j][1] <= b[j + 1][0] for j in range(len(b) - 1)), 'pieces in order', inp, 'ordered', b)
