"""C03 square, absolute value, sign, sine, cosine on the running code"""
import numpy as np, math
import pacal as P
from pacal import distr as DD
from .lib import Driver, Rep, Skip
from .cat import catalogue, by_name, O, quad, random_law
D = Driver()
PI = math.pi
from scipy import stats

def more():
    u = stats.uniform
    return [O('U(-2,1)', lambda: P.UniformDistr(-2, 1), u(-2, 3)), O('U(-1,1)', lambda: P.UniformDistr(-1, 1), u(-1, 2)), O('U(0,2)', lambda: P.UniformDistr(0, 2), u(0, 2)), O('U(-2,0)', lambda: P.UniformDistr(-2, 0), u(-2, 2)),
            O('Exp(1)-1', lambda: P.ExponentialDistr(1) - 1, stats.expon(-1)), O('1-Exp(2)', lambda: 1 - P.ExponentialDistr(2), None, lo=-np.inf, hi=1.0, pdf=lambda x: stats.expon(scale=.5).pdf(1 - x), cdf=lambda x: stats.expon(scale=.5).sf(1 - x)),
            O('Beta(2,3)*3-1', lambda: P.BetaDistr(2, 3) * 3 - 1, stats.beta(2, 3, -1, 3)), O('-Chi2(1)', lambda: -P.ChiSquareDistr(1), None, lo=-np.inf, hi=0.0, pdf=lambda x: stats.chi2(1).pdf(-x), cdf=lambda x: stats.chi2(1).sf(-x), sing=[0.0]),
            O('2Beta(.5,.7)-1', lambda: P.BetaDistr(.5, .7) * 2 - 1, stats.beta(.5, .7, -1, 2), sing=[-1.0, 1.0]),
            O('Discrete0', lambda: P.DiscreteDistr([-1.0, 0.0, 1.0, 2.0], [0.1, 0.2, 0.3, 0.4]), atoms={-1.0: .1, 0.0: .2, 1.0: .3, 2.0: .4}),
            O('Mix(.25 Const(0),.75 N(1,1))', lambda: P.MixDistr([.25, .75], [P.ConstDistr(0.0), P.NormalDistr(1, 1)]), stats.norm(1, 1), atoms={0.0: .25}, w=.75),
            O('Mix(.5 Const(-1),.5 Discrete)', lambda: P.MixDistr([.5, .5], [P.ConstDistr(-1.0), P.DiscreteDistr([1.0, 2.0], [.5, .5])]), atoms={-1.0: .5, 1.0: .25, 2.0: .25}),
            O('Gap', lambda: P.MixDistr([.5, .5], [P.UniformDistr(-3, -2), P.UniformDistr(0.5, 1)]), None, lo=-3.0, hi=1.0, pdf=lambda x: .5 * u(-3, 1).pdf(x) + .5 * u(.5, .5).pdf(x), cdf=lambda x: .5 * u(-3, 1).cdf(x) + .5 * u(.5, .5).cdf(x), sing=[-2.0, 0.5])]

def grid(o, rng, f, lo, hi, n=9):
    """points of (lo,hi) away from images of singular points"""
    ys = rng.uniform(lo, hi, n)
    bad = [abs(s) for s in o.sing + [o.lo, o.hi] + list(o.atoms) if np.isfinite(s)]
    bad = [f(b) for b in bad] + [f(-b) for b in bad]
    ok = np.ones(n, bool)
    for b in bad: ok &= np.abs(ys - b) > 2e-3
    return ys[ok & (np.abs(ys) > 1e-3)]

def atoms_of(pp):
    r = {}
    for s in pp.getDiracs(): r[round(float(s.a), 9)] = r.get(round(float(s.a), 9), 0.0) + float(s.f)
    return sorted(r.items())

def check(rep, inp, e, ys, want, o, fn, rt=1e-6):
    pp = e.get_piecewise_pdf()
    has = o.sc is not None or o.w and not o.atoms
    if not (o.atoms and o.sc is None):
        rep.close([float(e.pdf(y)) for y in ys], want, 'density (scalar)', inp + ' y=%s' % ys, rtol=rt)
        rep.close(e.pdf(ys), want, 'density (array)', inp + ' y=%s' % ys, rtol=rt)
    rep.close([float(pp(y)) for y in ys], want, 'piecewise density (scalar)', inp + ' y=%s' % ys, rtol=rt)
    rep.close(pp(ys), want, 'piecewise density (array)', inp + ' y=%s' % ys, rtol=rt)
    wa = {}
    for a, m in o.atoms.items():
        k = round(float(fn(np.float64(a))), 9); wa[k] = wa.get(k, 0.0) + m
    rep.close(atoms_of(pp), sorted(wa.items()), 'atoms', inp)
    segs = [s for s in pp.segments if not s.isDirac()]
    for s1, s2 in zip(segs[:-1], segs[1:]): rep.ok(s1.b <= s2.a, 'pieces are ordered and disjoint', inp, '', (s1.b, s2.a))

@D.check
def squares(rep, rng):
    for o in catalogue(P) + more():
        if o.name == 'Cauchy' and not rep.thorough: pass
        hi = min(max(abs(o.lo), abs(o.hi)), 4.0) ** 2 * 1.2
        ys = np.concatenate([grid(o, rng, lambda x: x * x, -1.0, -0.1, 2), grid(o, rng, lambda x: x * x, 0, hi)])
        r = np.sqrt(np.abs(ys))
        want = np.where(ys > 0, (o.pdf(r) + o.pdf(-r)) / (2 * r), 0.0)
        for tag, b in [('X**2', lambda d: d ** 2), ('SquareDistr', lambda d: DD.SquareDistr(d)), ('Sq2', lambda d: DD.Sq2Distr(d))]:
            if tag == 'Sq2' and o.atoms: continue
            e = b(o.make())
            if tag == 'X**2' and not isinstance(e, P.distr.Distr): continue
            if tag == 'X**2' and 0.0 in o.atoms and not isinstance(e, DD.SquareDistr): continue
            if tag == 'X**2' and o.name == 'Laplace': pass
            check(rep, '%s of %s' % (tag, o.name), e, ys, want, o, lambda x: x * x)

@D.check
def absolute_values(rep, rng):
    for o in catalogue(P) + more():
        hi = min(max(abs(o.lo), abs(o.hi)), 5.0) * 1.2
        ys = np.concatenate([grid(o, rng, abs, -1.0, -0.1, 2), grid(o, rng, abs, 0, hi)])
        want = np.where(ys > 0, o.pdf(ys) + o.pdf(-ys), 0.0)
        check(rep, '|X| of %s' % o.name, abs(o.make()), ys, want, o, abs)

@D.check
def random_laws(rep, rng):
    for k in range(rep.scale(60)):
        o = random_law(P, rng)
        if not any(c for c in (o.sing,)): 
            if not o.atoms: pass
        for nm, f, inv, sl in [('X**2', lambda x: x * x, np.sqrt, lambda y: 2 * np.sqrt(y)), ('|X|', abs, lambda y: y, lambda y: 1.0)]:
            ys = grid(o, rng, f, 0, 20 if nm == 'X**2' else 4.5, 8)
            want = (o.pdf(inv(ys)) + o.pdf(-inv(ys))) / sl(ys)
            e = (DD.SquareDistr if nm == 'X**2' else abs)(o.make())
            pp = e.get_piecewise_pdf()
            inp = '%s of %s y=%s' % (nm, o.name, ys)
            rep.close([float(pp(y)) for y in ys], want, 'piecewise density', inp, rtol=1e-6)
            rep.close(pp(ys), want, 'piecewise density (array)', inp, rtol=1e-6)
            wa = {}
            for a, m in o.atoms.items(): kx = round(float(f(np.float64(a))), 9); wa[kx] = wa.get(kx, 0.0) + m
            rep.close(atoms_of(pp), sorted(wa.items()), 'atoms', inp)
        z = o.atoms.get(0.0, 0.0)
        e = P.sign(o.make())
        got = {}
        for s in e.get_piecewise_pdf().getDiracs(): got[float(s.a)] = got.get(float(s.a), 0) + float(s.f)
        rep.close([got.get(v, 0.0) for v in (-1.0, 0.0, 1.0)], [float(o.cdf(0.0)) - z, z, 1 - float(o.cdf(0.0))], 'masses of the sign', o.name, atol=1e-6)

def trig_cat():
    u = stats.uniform
    return [O('U(-1,1)', lambda: P.UniformDistr(-1, 1), u(-1, 2)), O('U(-pi/2,pi/2)', lambda: P.UniformDistr(-PI / 2, PI / 2), u(-PI / 2, PI)), O('U(0,3)', lambda: P.UniformDistr(0, 3), u(0, 3)), O('U(2,4)', lambda: P.UniformDistr(2, 4), u(2, 2)),
            O('U(.3,4.5)', lambda: P.UniformDistr(.3, 4.5), u(.3, 4.2)), O('3Beta(2,3)+1', lambda: P.BetaDistr(2, 3) * 3 + 1, stats.beta(2, 3, 1, 3)), O('4Beta(2,3)', lambda: P.BetaDistr(2, 3) * 4, stats.beta(2, 3, 0, 4)),
            O('Discrete', lambda: P.DiscreteDistr([0.5, 1.0, 2.0, 4.0], [0.1, 0.2, 0.3, 0.4]), atoms={.5: .1, 1.0: .2, 2.0: .3, 4.0: .4}),
            O('U(0,2pi)', lambda: P.UniformDistr(0, 2 * PI), u(0, 2 * PI)), O('U(3.5,6)', lambda: P.UniformDistr(3.5, 6), u(3.5, 2.5)), O('Beta(2,3)+3', lambda: P.BetaDistr(2, 3) + 3, stats.beta(2, 3, 3, 1)),
            O('U(-1,4)', lambda: P.UniformDistr(-1, 4), u(-1, 5))]

@D.check
def sine_and_cosine(rep, rng):
    for nm, f, A, B, invs in [('sin', np.sin, -PI / 2, 3 * PI / 2, [np.arcsin, lambda y: PI - np.arcsin(y)]), ('cos', np.cos, 0.0, 2 * PI, [np.arccos, lambda y: 2 * PI - np.arccos(y)])]:
        for o in trig_cat():
            if o.lo < A - 1e-9 or o.hi > B + 1e-9: continue
            e = getattr(P, nm)(o.make())
            ys = rng.uniform(-0.99, 0.99, 12)
            ok = np.ones(len(ys), bool)
            for b in [o.lo, o.hi] + list(o.atoms): ok &= np.abs(ys - f(b)) > 2e-3
            ys = ys[ok]
            want = sum(o.pdf(iv(ys)) for iv in invs) / np.sqrt(1 - ys ** 2)
            check(rep, '%s of %s' % (nm, o.name), e, ys, want, o, f, rt=1e-5)
            pp = e.get_piecewise_pdf()
            rep.close([float(pp(1.2)), float(pp(-1.2))], [0.0, 0.0], 'zero outside of [-1,1]', '%s of %s' % (nm, o.name))
            np.random.seed(5); d = o.make(); x = np.asarray(d.rand(50, {}), float)
            cache = {}; np.random.seed(5); s = np.asarray(getattr(P, nm)(d).rand(200, cache), float)
            rep.ok(len(s) == 200 and np.all(np.abs(s) <= 1), 'samples are values of the function', '%s of %s' % (nm, o.name))
            if o.sc is not None:
                # P(f(X) <= y) by the independent oracle
                for y in (-0.4, 0.3, 0.7):
                    if nm == 'sin': w = o.cdf(np.arcsin(y)) + 1 - o.cdf(PI - np.arcsin(y))
                    else: w = o.cdf(2 * PI - np.arccos(y)) - o.cdf(np.arccos(y))
                    rep.close(np.mean(s <= y), w, 'samples follow the law', '%s of %s at %s' % (nm, o.name, y), atol=0.13)
                    rep.close(float(e.cdf(y)), w, 'distribution function', '%s of %s at %s' % (nm, o.name, y), atol=2e-3)

@D.check
def signs(rep, rng):
    for o in catalogue(P) + more():
        e = P.sign(o.make())
        z = o.atoms.get(0.0, 0.0)
        w = {-1.0: float(o.cdf(0.0)) - z, 0.0: z, 1.0: 1 - float(o.cdf(0.0))}
        got = {}
        for s in e.get_piecewise_pdf().getDiracs(): got[float(s.a)] = got.get(float(s.a), 0) + float(s.f)
        for v in (-1.0, 0.0, 1.0): rep.close(got.get(v, 0.0), w[v], 'mass at %d' % v, 'sign of %s' % o.name, atol=1e-6)
        rep.ok(set(got) <= {-1.0, 0.0, 1.0}, 'only -1, 0 and 1 are values of the sign', o.name, '', got)
        s = np.asarray(e.rand(400), float)
        rep.ok(set(s) <= {-1.0, 0.0, 1.0}, 'samples of the sign', o.name)
        for v in (-1.0, 0.0, 1.0): rep.close(np.mean(s == v), w[v], 'frequency of %d' % v, 'sign of %s' % o.name, atol=0.12)

@D.check
def samples(rep, rng):
    for o in catalogue(P) + more():
        for nm, b, G in [('X**2', lambda d: DD.SquareDistr(d), lambda y: o.cdf(np.sqrt(y)) - o.cdf(-np.sqrt(y))), ('|X|', abs, lambda y: o.cdf(y) - o.cdf(-y))]:
            d = o.make(); d.indep = False
            e = b(d); e.indep = False
            cache = {}
            s = np.asarray(e.rand(300, cache), float)
            x = np.asarray(d.rand(300, cache), float)
            rep.close(s, x * x if nm == 'X**2' else np.abs(x), 'sample is the function of the same draw', '%s of %s' % (nm, o.name))
            v = float(np.asarray(e.rand(None), float)) if True else 0
            rep.ok(np.isfinite(v) and v >= 0, 'a single sample', '%s of %s' % (nm, o.name), '>= 0', v)

@D.check
def total_mass(rep, rng):
    for o in by_name(catalogue(P) + more(), 'Normal(0,1)', 'Normal(1,2)', 'U(-1,2)', 'U(-2,1)', 'Exp(1)-1', 'Beta(2,3)*3-1', 'Gap', 'Mix(.25 Const(0),.75 N(1,1))', 'Discrete0'):
        for nm, b, G in [('X**2', lambda d: DD.SquareDistr(d), lambda y: o.cdf(np.sqrt(y)) - o.cdf(-np.sqrt(y))), ('|X|', abs, lambda y: o.cdf(y) - o.cdf(-y))]:
            e = b(o.make())
            rep.close(e.get_piecewise_pdf().integrate(), 1.0, 'total mass', '%s of %s' % (nm, o.name), atol=1e-5)
            for y in (0.37, 1.53, 6.2):
                w = float(G(y)) + sum(m for a, m in o.atoms.items() if a == -(math.sqrt(y) if nm == 'X**2' else y))
                rep.close(float(e.cdf(y)), w, 'distribution function', '%s of %s at %s' % (nm, o.name, y), atol=1e-5)
