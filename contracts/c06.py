"""C06  minimum and maximum of independent variables: F_X F_Y and 1-(1-F_X)(1-F_Y)"""
import itertools
from pyvc.spec import *
from pyvc import npshim
from pyvc.integ import Target, check_integrals
from . import c04 as sums
P = Registry()
S, A, D = sums.S, sums.A, sums.D
integ.install(S, names=['integrate_fejer2', 'integrate_wide_interval', 'integrate_fejer2_Xn_transformP', 'integrate_fejer2_Xn_transformN', 'integrate_fejer2_minf', 'integrate_fejer2_pinf', 'integrate_fejer2_pminf'])
dom = sums.dom
MX = A.maximum; MN = A.minimum

def smax(a, b): return npshim.smax(a, b)
def smin(a, b): return npshim.smin(a, b)

def below(x, t): return t < x
def above(x, t): return t > x

def meets(mx):
    """the pair has values of the extreme on both sides of x"""
    e = smax if mx else smin
    return lambda x, s, r: And(e(s._a, r._a) < x, x < e(s._b, r._b))

def targets(x, pairs, mx):
    side = below if mx else above
    T = []
    for s, r in pairs:
        for u, v in ((s, r), (r, s)):          # u integrated, v evaluated at x
            if u._k == 'dirac' or v._k == 'dirac': continue
            T.append(Target(lambda t, u=u, v=v: And(dom(u, t), side(x, t), dom(v, x)), lambda t, u=u, v=v: u._f(t) * v._f(x)))
    return T
def atoms(x, pairs, mx):
    w = 0.0
    for s, r in pairs:
        for u, v in ((s, r), (r, s)):
            if u._k == 'dirac' and v._k != 'dirac':
                w = w + arrays.select(And(dom(v, x), (u._a < x) if mx else (u._a > x)), u._f * v._f(x), 0.0)
    return w

def at_point(R, mx, x): return R.convmax_at_point(x) if mx else R.convminx_at_point(x)

def pair(ki, kj, mx, lab):
    def h(c):
        s = sym_segment(c, S, 's', [ki]); r = sym_segment(c, S, 'r', [kj])
        x = c.real('x')
        c.assume(meets(mx)(x, s, r))
        for e in (s._a, s._b, r._a, r._b):
            if not isinf(e): c.assume(x != e)
        check_integrals(c, at_point(sums.runner((s, r)), mx, x), targets(x, [(s, r)], mx), lab, const=atoms(x, [(s, r)], mx))
    return h

for mx in (True, False):
    w = 'maximum' if mx else 'minimum'
    f = 'indeparith.Convxrunner.' + ('convmax_at_point' if mx else 'convminx_at_point')
    for ki, kj in itertools.product(KINDS, KINDS):
        if ki == kj == 'dirac': continue
        P.contract([f] + (['indeparith.funi_maxx', 'indeparith.funj_maxx'] if mx else ['indeparith.funi_minx', 'indeparith.funj_minx']), name='pair_%s[%s,%s]' % (w, ki, kj))(
            pair(ki, kj, mx, '%s of a %s and a %s piece' % (w, ki, kj)))
    P.contract('indeparith._findSegList', name='choice_of_pairs_%s' % w)(
        sums.select_contract(lambda F, G, z, mx=mx: A._findSegList(F, G, z, MX if mx else MN), meets(mx), 'pairs for a %s' % w))

def no_pair_lost(mx):
    """a pair that is not listed for z contributes nothing at any point not separated from z by an end of a piece"""
    pass

def folded(mx):
    def h(c):
        ki, kj = [('finite', 'finite'), ('finite', 'pinf'), ('dirac', 'finite'), ('finite', 'dirac'), ('dirac', 'dirac')][c.choose(5, 'kinds')]
        n = c.int('n'); c.assume(n >= 0)
        s = sym_segment(c, S, 's', [ki]); r = sym_segment(c, S, 'r', [kj])
        x = c.real('x')
        c.assume(meets(mx)(x, s, r))
        for e in (s._a, s._b, r._a, r._b):
            if not isinf(e): c.assume(x != e)
        seq = SymSeq(n, lambda i: (s, r), 'pairs')
        v = at_point(A.Convxrunner(seq, None), mx, x)
        if not is_sym(v): return c.ensure('dirac' in (ki, kj) and v == 0, 'no density without a continuous piece', '%r' % (v,))
        f = c.folds.get(str(v.t))
        c.ensure(f is not None and f.seq is seq, 'the value is a sum over all the pairs', str(v))
        if f is None: return
        for cs in f.cases:
            with loops.under(cs.conds):
                check_integrals(c, Num(cs.delta), targets(x, [(s, r)], mx), 'contribution of one pair', const=atoms(x, [(s, r)], mx))
    return h
P.contract('indeparith.Convxrunner.convmax_at_point', name='contributions_are_added_maximum')(folded(True))
P.contract('indeparith.Convxrunner.convminx_at_point', name='contributions_are_added_minimum')(folded(False))

@P.contract(['indeparith.Convxrunner.convmaxx', 'indeparith.Convxrunner.convminx'])
def elementwise(c):
    """arrays of any length are mapped element by element, scalars give one value"""
    F = c.fun('at_point')
    R = sums.runner()
    mx = bool(c.choose(2, 'which'))
    pm = lambda: (lambda f, xs: xs.map(f) if isinstance(xs, LazyArr) else [f(v) for v in xs])
    with patched((A, 'get_parmap', pm), (A.Convxrunner, 'convmax_at_point', lambda self, x: F(x)), (A.Convxrunner, 'convminx_at_point', lambda self, x: F(x))):
        call = R.convmaxx if mx else R.convminx
        X = sym_array(c, 'X'); i = skolem_index(c, X.n)
        if not mx: c.assume(X.n > 1)
        r = call(X)
        c.ensure_eq(r.at(i), F(X.at(i)), 'element of the array')
        c.ensure(r.n.t.eq(X.n.t), 'length of the result')
        x = c.real('x')
        q = call(x)
        import numpy as np
        c.ensure(np.size(q) == 1, 'one value for a scalar')
        c.ensure_eq(np.asarray(q, dtype=object).flatten()[0], F(x), 'value for a scalar')

# ---------------------------------------------------------------- whole operation
CONF = sums.CONF
def mass(L, y, strict, mx):
    return None

def whole(call, mx, lab, fi, gi, pole):
    side = below if mx else above
    def h(c):
        f, fs = few_pieces(c, S, 'f', CONF[fi]); g, gs = few_pieces(c, S, 'g', CONF[gi])
        for s in fs:
            for t in gs:
                if s._k == t._k == 'dirac': c.assume(Or(s._a == t._a, abs(s._a - t._a) > 1e-3))
        pm = lambda: (lambda F, xs: [F(v) for v in xs])
        with patched((A, 'testPole', lambda *a, **k: pole), (A, 'get_parmap', pm), *no_interpolation(S)):
            res = call(f, g)
            segs = list(res.segments)
            ends = []
            for s in list(fs) + list(gs) + [s for s in segs]:
                for e in ((s._a, s._b) if hasattr(s, '_k') else (s.a, s.b)):
                    if not isinf(e) and not any(e is q for q in ends): ends.append(e)
            x = c.real('x')
            for e in ends: c.assume(x != e)
            val = 0.0; n = 0
            for s in segs:
                if s.isDirac(): continue
                if bool(inside(x, s.a, s.b)):
                    n += 1
                    v = s.f(x)
                    while hasattr(v, '__len__'): v = v[0]
                    val = val + v
        c.ensure(n <= 1, lab + ': pieces of the result do not overlap')
        ins = lambda L, t: Or(False, *[inside(t, s._a, s._b) for s in L if s._k != 'dirac'])
        cont = lambda L: [s for s in L if s._k != 'dirac']
        T = []; const = 0.0
        for u, v in ((fs, gs), (gs, fs)):
            if cont(u) and cont(v): T.append(Target(lambda t, u=u, v=v: And(ins(u, t), side(x, t), ins(v, x)), lambda t, u=u, v=v: density_of(u, t) * density_of(v, x)))
            for s in u:
                if s._k == 'dirac': const = const + arrays.select(side(x, s._a), s._f * density_of(v, x), 0.0)
        check_integrals(c, val, T, lab, const=const)
        # point masses: jumps of the distribution function
        y = [None]
        pts = [s for s in fs + gs if s._k == 'dirac']
        j = c.choose(len(pts) + 1, 'atom')
        if j == len(pts):
            y = c.real('y')
            for p in pts: c.assume(y != p._a)
            got = 0.0
            for s in segs:
                if s.isDirac(): got = got + arrays.select(s.a == y, s.f, 0.0)
            return c.ensure_eq(got, 0.0, lab + ': no mass elsewhere')
        p = pts[j]._a
        got = 0.0
        for s in segs:
            if s.isDirac() and bool(s.a == p): got = got + s.f
        mf = sum((s._f for s in fs if s._k == 'dirac' and bool(s._a == p)), 0.0)
        mg = sum((s._f for s in gs if s._k == 'dirac' and bool(s._a == p)), 0.0)
        const = mf * mg; T = []
        for m, v in ((mf, gs), (mg, fs)):
            for s in v:
                if s._k == 'dirac': const = const + arrays.select(side(p, s._a), m * s._f, 0.0)
            if cont(v): 
                if is_sym(m): T.append(Target(lambda t, v=v: And(ins(v, t), side(p, t)), lambda t, v=v, m=m: m * density_of(v, t)))
        check_integrals(c, got, T, lab + ': mass of an atom', const=const)
    return h

FUNCS = ['indeparith.%s', 'indeparith.%s', 'indeparith._interpolatedExtremeSegments', 'segments.PiecewiseFunction.splitByPoints', 'segments.PiecewiseFunction.addSegment', 'segments.PiecewiseDistribution.add_diracs', 'segments.PiecewiseFunction.integrate']
SMALL = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 3), (3, 0), (3, 3), (4, 0), (0, 4), (4, 3), (3, 4), (5, 0), (6, 0), (0, 7), (6, 7), (8, 8), (8, 0), (9, 3), (3, 9), (0, 2), (5, 3)]
for mx in (True, False):
    w = 'maximum' if mx else 'minimum'
    for fi, gi in SMALL:
        def h(c, mx=mx, w=w, fi=fi, gi=gi):
            def call(f, g):
                X, Y = sums.law(c, f, 'X'), sums.law(c, g, 'Y')
                return (D.MaxDistr(X, Y) if mx else D.MinDistr(X, Y)).get_piecewise_pdf()
            return whole(call, mx, w, fi, gi, any(k.endswith('pole') for k in CONF[fi] + CONF[gi]))(c)
        fn = [q % v if '%s' in q else q for q, v in zip(FUNCS, ('convmax' if mx else 'convmin', '_probDiracsInMax' if mx else '_probDiracsInMin', 0, 0, 0, 0, 0))]
        P.contract(fn + ['distr.MaxDistr.init_piecewise_pdf' if mx else 'distr.MinDistr.init_piecewise_pdf'], name='whole_%s[%s | %s]' % (w, '+'.join(CONF[fi]), '+'.join(CONF[gi])))(h)
