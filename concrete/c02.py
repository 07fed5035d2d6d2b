"""C02 images under strictly monotone functions on the running code"""
import numpy as np, math
import pacal as P
from pacal import distr as DD
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, O, random_law, clear_of
D = Driver()
INF = np.inf

class Fn:
    def __init__(self, tag, build, fn, inv, dinv, ok, img=None):
        self.tag, self.build, self.fn, self.inv, self.dinv, self.ok, self.img = tag, build, fn, inv, dinv, ok, img

def fns():
    r = [Fn('exp', DD.exp, np.exp, np.log, lambda y: 1 / y, lambda o: not o.heavy, (0, INF)),
         Fn('log', DD.log, np.log, np.exp, np.exp, lambda o: o.lo >= 0, (-INF, INF)),
         Fn('atan', DD.atan, np.arctan, np.tan, lambda y: 1 + np.tan(y) ** 2, lambda o: True, (-math.pi / 2, math.pi / 2)),
         Fn('tanh', DD.tanh, np.tanh, np.arctanh, lambda y: 1 / (1 - y * y), lambda o: True, (-1, 1)),
         Fn('sigmoid', DD.sigmoid, lambda x: 1 / (1 + np.exp(-x)), lambda y: np.log(y / (1 - y)), lambda y: 1 / (y * (1 - y)), lambda o: True, (0, 1)),
         Fn('1/X', lambda d: 1 / d, lambda x: 1 / x, lambda y: 1 / y, lambda y: 1 / y ** 2, lambda o: 0 not in o.atoms, None)]
    for k in (3.0, -2.5, 1.0):
        r.append(Fn('%r/X' % k, lambda d, k=k: k / d, lambda x, k=k: k / x, lambda y, k=k: k / y, lambda y, k=k: abs(k) / y ** 2, lambda o: 0 not in o.atoms, None))
    for k in (3, 0.5, -1, -2, 2.5):
        r.append(Fn('X**%r' % k, lambda d, k=k: d ** k, lambda x, k=k: x ** float(k), lambda y, k=k: y ** (1.0 / k), lambda y, k=k: np.abs(y ** (1.0 / k - 1) / k), lambda o: o.lo >= 0 and 0 not in o.atoms, (0, INF)))
    for k in (2.0, 0.5, 3):
        r.append(Fn('%r**X' % k, lambda d, k=k: k ** d, lambda x, k=k: float(k) ** x, lambda y, k=k: np.log(y) / np.log(k), lambda y, k=k: 1 / (y * abs(np.log(k))), lambda o: not o.heavy, (0, INF)))
    return r

def image(rep, rng, o, F, full=True):
    d = o.make()
    e = F.build(d)
    inp = '%s of %s' % (F.tag, o.name)
    xs = o.points(rng, 6)
    xs = xs[(np.abs(xs) > 1e-2) & (np.abs(xs) < 6)]
    ys = F.fn(xs)
    m = np.isfinite(ys) & (np.abs(ys) < 1e4)
    if F.tag in ('tanh', 'sigmoid', 'atan'): m &= np.abs(xs) < 4
    xs, ys = xs[m], ys[m]
    want = o.pdf(xs) * F.dinv(ys)
    rt = 2e-5
    if len(ys):
        rep.close([float(e.pdf(y)) for y in ys], want, 'density f(inverse(y))|inverse\'(y)|', inp + ' y=%s' % ys, rtol=rt)
        rep.close(e.pdf(ys), want, 'density on an array', inp, rtol=rt)
    if F.img is not None and o.sc is not None:
        off = [v for v in (F.img[0] - 0.3, F.img[0] - 2.0, F.img[1] + 0.3, F.img[1] + 2.0) if np.isfinite(v)]
        if off:
            rep.close([float(e.pdf(v)) for v in off], [0.0] * len(off), 'density zero outside of the image', inp + ' at %s' % off)
            rep.close(e.pdf(np.array(off + list(ys))), [0.0] * len(off) + list(want), 'density on an array reaching outside of the image', inp + ' at %s' % (off + list(ys)), rtol=rt)
    if not full: return e
    pp = e.get_piecewise_pdf()
    if len(ys):
        rep.close([float(pp(y)) for y in ys], want, 'piecewise density (scalar)', inp + ' y=%s' % ys, rtol=rt)
        rep.close(pp(ys), want, 'piecewise density (array)', inp, rtol=rt)
    # outside of the image of the support
    if o.sc is not None:
        segs = [s for s in pp.segments if not s.isDirac()]
        out = []
        if F.img is not None: out += [v for v in (F.img[0] - 0.3, F.img[1] + 0.3) if np.isfinite(v)]
        if o.lo >= 0 or o.hi <= 0:
            L = [F.fn(np.float64(v)) for v in (o.lo, o.hi)]
            lo, hi = min(L), max(L)
            out += [v for v in (lo - 0.25, hi + 0.25) if np.isfinite(v)]
        if out: rep.close([float(pp(v)) for v in out], [0.0] * len(out), 'piecewise density zero outside of the image', inp + ' at %s' % out)
        for a, b in zip(segs[:-1], segs[1:]):
            rep.ok(a.b <= b.a, 'segments ordered and disjoint', inp, '', (a.b, b.a))
    at = sorted((float(s.a), float(s.f)) for s in pp.getDiracs())
    wa = sorted((float(F.fn(np.float64(a))), m_) for a, m_ in o.atoms.items())
    if at or wa: rep.close(at, wa, 'atoms', inp)
    tot = pp.integrate()
    if not o.heavy and o.name not in ('Beta(0.5,0.7)', 'Chi2(1)'): rep.close(tot, 1.0, 'total mass', inp, atol=2e-2)
    return e

@D.check
def smooth_functions(rep, rng):
    cat = catalogue(P)
    for F in fns()[:6]:
        for o in cat:
            if F.ok(o): image(rep, rng, o, F)

@D.check
def powers_and_quotients(rep, rng):
    cat = catalogue(P)
    for F in fns()[6:]:
        for o in cat:
            if F.ok(o): image(rep, rng, o, F, full=rep.thorough or o.name in ('U(1,3)', 'U(0,1)', 'Exp(1)', 'Normal(1,2)', 'Const(2.5)', 'Beta(2,3)', 'Mix(.4 Const(-1),.6 U(1,2))'))

@D.check
def distribution_functions(rep, rng):
    cat = by_name(catalogue(P), 'U(1,3)', 'U(0,1)', 'Exp(1)', 'Normal(1,2)', 'Beta(2,3)', 'Gamma(2,1.5)', 'U(-4,-1)')
    for F in fns():
        for o in cat:
            if not F.ok(o): continue
            e = F.build(o.make())
            xs = o.points(rng, 4); xs = xs[(np.abs(xs) > 5e-2) & (np.abs(xs) < 5)]
            ys = F.fn(xs)
            m = np.isfinite(ys) & (np.abs(ys) < 200); xs, ys = xs[m], ys[m]
            inc = F.tag in ('exp', 'log', 'atan', 'tanh', 'sigmoid') or F.tag in ("X**3", "X**0.5", "X**2.5", "2.0**X", "3**X")
            if '/X' in F.tag:
                k = 1.0 if F.tag == '1/X' else float(F.tag.split('/')[0])
                # P(k/X <= y): outcomes between
                if k > 0: w = np.where(ys > 0, o.cdf(0.0) + 1 - o.cdf(xs), o.cdf(0.0) - o.cdf(xs))
                else: w = np.where(ys > 0, 1 - o.cdf(0.0) + o.cdf(xs), o.cdf(xs) - o.cdf(0.0))
            else: w = o.cdf(xs) if inc else 1 - o.cdf(xs)
            if len(ys): rep.close([float(e.cdf(y)) for y in ys], w, 'distribution function', '%s of %s at %s' % (F.tag, o.name, ys), rtol=1e-4, atol=2e-4)

@D.check
def samples(rep, rng):
    cat = by_name(catalogue(P), 'U(1,3)', 'Exp(1)', 'Gamma(2,1.5)', 'Discrete', 'Normal(1,2)')
    for F in fns():
        for o in cat:
            if not F.ok(o): continue
            e = F.build(o.make())
            np.random.seed(17); s = np.asarray(e.rand(300), float)
            inp = '%s of %s' % (F.tag, o.name)
            rep.ok(s.shape == (300,), 'sample size', inp, 300, s.shape)
            if o.sc is None:
                rep.ok(all(min(abs(v - F.fn(np.float64(a))) for a in o.atoms) < 1e-9 for v in s), 'samples are images of outcomes', inp)
            else:
                x = F.inv(s)
                u = np.sort(np.asarray(o.cdf(x), float)); k = np.abs(u - (np.arange(300) + 0.5) / 300).max()
                rep.ok(k < 0.14, 'samples follow the image distribution (Kolmogorov distance)', inp, '<0.14', k)

@D.check
def numbers_and_arrays(rep, rng):
    """the same names applied to numbers and arrays are the ordinary functions"""
    xs = np.array([0.3, 1.0, 2.5])
    for nm, f in [('exp', np.exp), ('log', np.log), ('atan', np.arctan), ('tanh', np.tanh), ('sigmoid', lambda x: 1 / (1 + np.exp(-x))), ('sqrt', np.sqrt)]:
        g = getattr(P, nm, None) or getattr(DD, nm)
        rep.close(g(xs), f(xs), nm + ' of an array', repr(xs))
        rep.close([float(g(x)) for x in xs], f(xs), nm + ' of numbers', repr(xs))

@D.check
def chains(rep, rng):
    """compositions: inverse pairs give the distribution back"""
    for o in by_name(catalogue(P), 'U(1,3)', 'Exp(1)', 'Gamma(2,1.5)', 'Beta(2,3)'):
        d = o.make()
        xs = o.points(rng, 4); xs = xs[(xs > 0.05) & (xs < 5)]
        for tag, b in [('log(exp X)', lambda: DD.log(DD.exp(d))), ('exp(log X)', lambda: DD.exp(DD.log(d))), ('1/(1/X)', lambda: 1 / (1 / d)), ('(X**3)**(1/3)', lambda: (d ** 3) ** (1 / 3.)), ('sqrt(X**2)', lambda: (d ** 4) ** 0.25)]:
            e = b()
            rep.close([float(e.pdf(x)) for x in xs], o.pdf(xs), 'round trip density', tag + ' of ' + o.name, rtol=1e-5)
            rep.close(e.get_piecewise_pdf()(xs), o.pdf(xs), 'round trip piecewise density', tag + ' of ' + o.name, rtol=1e-5)

@D.check
def random_laws(rep, rng):
    F = {f.tag: f for f in fns()}
    for k in range(rep.scale(60)):
        pos = k % 2
        o = random_law(P, rng, lo=0.1 if pos else -3.0, hi=3.0, infinite=not pos)
        for tag in (('exp', 'log', '1/X', 'X**3', 'X**0.5', 'X**-2', '2.0**X') if pos else ('exp', 'atan', 'tanh', 'sigmoid', '1/X')):
            if tag == '1/X' and 0.0 in o.atoms: continue
            if pos and (o.lo < 0 or 0.0 in o.atoms): continue
            f = F[tag]
            e = f.build(o.make())
            xs = clear_of(o, rng, 0.05 if pos else -3, 3.5, 6)
            xs = xs[np.abs(xs) > 0.03]
            ys = f.fn(xs)
            want = o.pdf(xs) * f.dinv(ys)
            pp = e.get_piecewise_pdf()
            inp = '%s of %s y=%s' % (tag, o.name, ys)
            rep.close([float(pp(y)) for y in ys], want, 'piecewise density', inp, rtol=2e-5)
            rep.close(pp(ys), want, 'piecewise density (array)', inp, rtol=2e-5)
            at = sorted((round(float(s.a), 8), float(s.f)) for s in pp.getDiracs())
            rep.close(at, sorted((round(float(f.fn(np.float64(a))), 8), m) for a, m in o.atoms.items()), 'atoms', inp)
            if f.img is not None:
                off = [v for v in (f.img[0] - 0.3, f.img[1] + 0.3) if np.isfinite(v)]
                if off: rep.close([float(pp(v)) for v in off], [0.0] * len(off), 'piecewise density zero outside of the image', inp)
