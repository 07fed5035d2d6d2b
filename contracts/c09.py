"""C09  moments and expectations are integrals of the density plus the weighted values at the atoms"""
from pyvc.spec import *
from pyvc import integ
from pyvc.integ import Target, check_integrals
from . import c04 as sums
P = Registry()
S, D = sums.S, sums.D

def mass(s): return lambda t: inside(t, s._a, s._b)

def record_segint(log):
    def seg(fun, L, U, *a, **k):
        I = integ.new_integral(fun, L, U, '_segint')
        log.append((L, U, k)); core.CTX.effects.append(('int', L, U, k))
        return I, 0.0
    return patched((S, '_segint', seg))

def fold_is(c, r, segs, weight, label):
    """r = sum over all pieces of the integral of weight * density, over the atoms of weight * mass"""
    if not is_sym(r): return c.ensure(False, label + ': sum over the pieces')
    todo = [n for n in c.folds if n in r.t.sexpr()]
    c.ensure(bool(todo), label + ': sum over the pieces', str(r))
    e = r.t
    c.ensure_eq(r, sum([Num(z3.Real(n)) for n in todo], 0.0), label + ': nothing else')
    c.ensure(all(c.folds[n].seq is segs or getattr(c.folds[n].seq, 'base', None) is not None for n in todo), label + ': sums over the pieces')
    return todo

def check_cases(c, F, weight, label, kinds=None):
    for cs in F.cases:
        with loops.under(cs.conds):
            def one():
                s = cs.elem
                if s._k == 'dirac': c.ensure_eq(Num(cs.delta), s._f * weight(s._a), label + ': atom')
                else:
                    check_integrals(c, Num(cs.delta), [Target(mass(s), lambda t: weight(t) * s._f(t))], label + ': piece')
                    for e in cs.effects:
                        if e[0] == 'int':
                            k = e[3]
                            c.ensure(bool(k.get('force_poleL', False)) == (s._k == 'lpole') and bool(k.get('force_poleU', False)) == (s._k == 'rpole'), label + ': the pole is handed to the quadrature')
            loops.subexplore(one)

@P.contract('segments.PiecewiseDistribution.mean')
def mean(c):
    segs = sym_segments(c, S, 's')
    f = piecewise(S, 'PiecewiseDistribution', segs)
    with record_segint([]): r = f.mean()
    names = fold_is(c, r, segs, None, 'mean')
    for n in names or []: check_cases(c, c.folds[n], lambda t: t, 'mean')
    c.ensure(len(names or []) == 1, 'mean: each piece once')

@P.contract(['segments.PiecewiseDistribution.meanf'])
def meanf(c):
    """expectation of an arbitrary real function g (finite at every point)"""
    segs = sym_segments(c, S, 's')
    f = piecewise(S, 'PiecewiseDistribution', segs)
    g = c.fun('g')
    with record_segint([]): r = f.meanf(g)
    names = fold_is(c, r, segs, None, 'expectation')
    for n in names or []: check_cases(c, c.folds[n], g, 'expectation')
    c.ensure(len(names or []) == 1, 'expectation: each piece once')

@P.contract(['segments.PiecewiseDistribution.meanf'])
def meanf_default(c):
    segs = sym_segments(c, S, 's')
    f = piecewise(S, 'PiecewiseDistribution', segs)
    with record_segint([]): r = f.meanf()
    names = fold_is(c, r, segs, None, 'mean (no function given)')
    for n in names or []: check_cases(c, c.folds[n], lambda t: t, 'mean (no function given)')

@P.contract(['segments.PiecewiseDistribution.var', 'segments.PiecewiseFunction.getSegments', 'segments.PiecewiseFunction.getDiracs'])
def variance(c):
    segs = sym_segments(c, S, 's')
    f = piecewise(S, 'PiecewiseDistribution', segs)
    m = c.real('mean')
    with record_segint([]), patched((S.PiecewiseDistribution, 'mean', lambda self: m)):
        r = f.var()
    names = fold_is(c, r, segs, None, 'variance')
    seen = set()
    for n in names or []:
        F = c.folds[n]
        check_cases(c, F, lambda t: (t - m) ** 2, 'variance')
        for cs in F.cases: seen.add((n, cs.elem._k == 'dirac'))
    c.ensure(len([x for x in seen if x[1]]) == 1 and len([x for x in seen if not x[1]]) == 1, 'variance: pieces once, atoms once', str(seen))

@P.contract(['segments.PiecewiseDistribution.std', 'distr.Distr.mean', 'distr.Distr.meanf', 'distr.Distr.var', 'distr.Distr.std', 'distr.Distr.moment', 'distr.Distr.skewness', 'distr.Distr.kurtosis', 'distr.Distr.int_error'])
def derived(c):
    """the public functions: each is the stated function of the expectations of the density"""
    f = S.PiecewiseDistribution([])
    m, v, tot = c.real('m'), c.real('v'), c.real('tot')
    c.assume(v >= 0)
    E = []
    def meanf(self, f=None):
        x = core.CTX.real('x%d' % len(E)); y = core.CTX.real('E%d' % len(E))
        E.append((self, f, x, f(x), y)); return y
    class X(D.Distr):
        def init_piecewise_pdf(self): self.piecewise_pdf = f
    d = X()
    K = S.PiecewiseDistribution
    with patched((K, 'mean', lambda self: m), (K, 'var', lambda self: v), (K, 'meanf', meanf), (S.PiecewiseFunction, 'integrate', lambda self, *a: tot)):
        c.ensure_eq(d.mean(), m, 'mean'); c.ensure_eq(d.var(), v, 'var')
        s = d.std(); c.ensure(And(s * s == v, s >= 0), 'std')
        s = f.std(); c.ensure(And(s * s == v, s >= 0), 'std of the density')
        c.ensure_eq(d.int_error(), 1 - tot, 'int_error')
        g = c.fun('g')
        def is_E(r, want, label):
            ok = bool(E) and E[-1][0] is f
            c.ensure(ok, label + ': expectation over the density')
            if ok: c.ensure_eq(r, E[-1][4], label + ': the expectation'); c.ensure_eq(E[-1][3], want(E[-1][2]), label + ': of the function')
        is_E(d.meanf(g), g, 'meanf')
        q = c.real('q')
        for k in range(0, 6):
            is_E(d.moment(k, q), lambda x: (x - q) ** k if k else 1.0, 'moment about a point')
            is_E(d.moment(k), lambda x: (x - m) ** k if k else 1.0, 'central moment')
        is_E(d.moment(3, 0), lambda x: x ** 3, 'moment about zero')
        for nm, fn, k in (('skewness', d.skewness, 3), ('kurtosis', d.kurtosis, 4)):
            r = fn()
            if not is_sym(r) and core._inf_of(r) is not None or r != r if not is_sym(r) else False: c.ensure(v == 0, nm + ': undefined only without variance')
            else:
                c.ensure_eq(E[-1][3], (E[-1][2] - m) ** k, nm + ': of the central moment')
                s = mathfn.sqrt(v)
                c.ensure(r * (v * s if k == 3 else v * v) == E[-1][4], nm + ': standardised')
