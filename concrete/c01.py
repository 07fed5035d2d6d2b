"""C01 affine change of variables on the running code"""
import numpy as np, math
import pacal as P
from .lib import Driver, Rep, Skip
from .cat import catalogue, random_law, clear_of
D = Driver()

def affine_case(rep, rng, o, d, e, shift, scale, tag, pw=True):
    inp = '%s of %s, shift=%r scale=%r' % (tag, o.name, shift, scale)
    xs = o.points(rng, 4)
    ys = xs * scale + shift
    out = o.outside() * scale + shift
    want = o.pdf(xs) / abs(scale)
    if len(ys):
        rep.close([float(e.pdf(y)) for y in ys], want, 'density f((y-shift)/scale)/|scale|', inp + ' y=%s' % ys, rtol=1e-6)
        rep.close(e.pdf(ys), want, 'density on an array', inp, rtol=1e-6)
    if len(out):
        rep.close([float(e.pdf(y)) for y in out], 0 * out, 'density zero outside the image of the support', inp + ' y=%s' % out)
    lo, hi = (o.lo, o.hi) if scale > 0 else (o.hi, o.lo)
    if pw:
        pp = e.get_piecewise_pdf()
        if len(ys):
            rep.close([float(pp(y)) for y in ys], want, 'piecewise density (scalar)', inp + ' y=%s' % ys, rtol=1e-6)
            rep.close(pp(ys), want, 'piecewise density (array)', inp, rtol=1e-6)
        if len(out): rep.close([float(pp(y)) for y in out], 0 * out, 'piecewise density zero outside', inp + ' y=%s' % out)
        r = pp.range()
        rep.close(r, (lo * scale + shift, hi * scale + shift), 'support', inp, rtol=1e-9)
        at = sorted((s.a, s.f) for s in pp.getDiracs())
        wa = sorted((a * scale + shift, m) for a, m in o.atoms.items())
        rep.close(at, wa, 'atoms', inp) if at or wa else None
        # cumulative distribution
        c = e.get_piecewise_cdf()
        if o.sing and shift: return       # a pole moved by a rounded shift: quadrature accuracy, not semantics
        if len(ys):
            k = min(3, len(ys))
            wc = o.cdf(xs[:k]) if scale > 0 else 1 - o.cdf(xs[:k])
            rep.close([float(c(y)) for y in ys[:k]], wc, 'distribution function', inp + ' y=%s' % ys[:k], rtol=1e-6, atol=1e-7)

@D.check
def shifts_and_scales(rep, rng):
    for o in catalogue(P):
        d = o.make()
        for k in range(rep.scale(3)):
            shift = float(rng.choice([0.0, rng.normal() * 3, -1.5, 7.0])); scale = float(rng.choice([-1.0, 1.0, 2.5, -0.4, rng.normal() * 2 + 0.1]))
            if abs(scale) < 1e-2: scale = 0.5
            e = P.distr.ShiftedScaledDistr(d, shift=shift, scale=scale)
            affine_case(rep, rng, o, d, e, shift, scale, 'shift/scale', pw=True)

@D.check
def real_operators(rep, rng):
    for o in catalogue(P):
        d = o.make()
        r = float(rng.choice([2.0, -3.0, 0.5, rng.normal() * 2 + 0.3]))
        ops = [('X+%r' % r, d + r, r, 1.0), ('%r+X' % r, r + d, r, 1.0), ('X-%r' % r, d - r, -r, 1.0), ('%r-X' % r, r - d, r, -1.0),
               ('X*%r' % r, d * r, 0.0, r), ('%r*X' % r, r * d, 0.0, r), ('X/%r' % r, d / r, 0.0, 1.0 / r), ('-X', -d, 0.0, -1.0)]
        for tag, e, sh, sc in ops: affine_case(rep, rng, o, d, e, sh, sc, tag, pw=o.name in ('U(1,3)', 'Exp(1)', 'Discrete', 'Normal(1,2)'))
        e = (2 * d + 1) / -4.0 - 3
        affine_case(rep, rng, o, d, e, -0.25 - 3, -0.5, '(2X+1)/-4-3')
        e = 5 - (d - 1) * 3
        affine_case(rep, rng, o, d, e, 8.0, -3.0, '5-(X-1)*3')

@D.check
def declared_range_and_samples(rep, rng):
    for o in catalogue(P):
        for (sh, sc) in [(1.0, 2.0), (-2.0, -0.5)]:
            d = o.make()
            e = sc * d + sh
            inp = '%r*%s+%r' % (sc, o.name, sh)
            s = np.asarray(e.rand(400), float)
            rep.ok(s.shape == (400,), 'sample size', inp, 400, s.shape)
            lo, hi = sorted([o.lo * sc + sh, o.hi * sc + sh])
            rep.ok(s.min() >= lo - 1e-9 and s.max() <= hi + 1e-9, 'samples inside the image of the support', inp, (lo, hi), (s.min(), s.max()))
            if o.name in ('U(0,1)', 'U(-1,2)', 'U(1,3)', 'U(-4,-1)', 'Beta(2,3)'):
                rep.close(e.range(), (lo, hi), 'declared range', inp)
            if not o.heavy:
                u = o.cdf((s - sh) / sc)
                if o.sc is not None and not o.atoms:
                    u = np.sort(u); k = np.abs(u - (np.arange(400) + 0.5) / 400).max()
                    rep.ok(k < 0.13, 'samples follow the image distribution (Kolmogorov distance)', inp, '<0.13', k)

@D.check
def integer_arguments(rep, rng):
    d = P.UniformDistr(0, 10)
    e = 2 * d + 1
    for xs in [np.array([3, 5, 7]), np.array([3.0, 5.0, 7.0])]:
        rep.close(e.pdf(xs), [0.05] * 3, 'density at integer-valued points', repr(xs))
    rep.close([e.pdf(3), e.pdf(5)], [0.05] * 2, 'density at python ints', '3,5')
    rep.close(d.get_piecewise_pdf()(np.array([3, 5, 7])), [0.1] * 3, 'piecewise density at integer-valued points', '[3,5,7]')
    rep.close(P.ExponentialDistr(1).pdf(np.array([1, 2])), np.exp([-1., -2.]), 'exponential density at integer-valued points', '[1,2]')

@D.check
def random_laws(rep, rng):
    for k in range(rep.scale(60)):
        o = random_law(P, rng)
        sc = float(rng.choice([-1.0, 2.0, -0.5, 0.25, -3.0])); sh = float(rng.choice([0.0, 1.0, -2.5, 0.7]))
        e = sc * o.make() + sh
        xs = clear_of(o, rng, -5, 5, 8)
        ys = xs * sc + sh
        want = o.pdf(xs) / abs(sc)
        pp = e.get_piecewise_pdf()
        inp = '%r*X%+r of %s y=%s' % (sc, sh, o.name, ys)
        rep.close([float(pp(y)) for y in ys], want, 'piecewise density', inp, rtol=1e-6)
        rep.close(pp(ys), want, 'piecewise density (array)', inp, rtol=1e-6)
        at = sorted((round(float(s.a), 9), float(s.f)) for s in pp.getDiracs())
        rep.close(at, sorted((round(a * sc + sh, 9), m) for a, m in o.atoms.items()), 'atoms', inp)
        F = e.get_piecewise_cdf()
        x3 = xs[:3]
        rep.close([float(F(y)) for y in ys[:3]], o.cdf(x3) if sc > 0 else 1 - o.cdf(x3), 'distribution function', inp, rtol=1e-5, atol=1e-6)
